From e64e5a3b613d10f95362bf8013cc728d758be5c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:02:06 +0000
Subject: [PATCH 01/97] fix: terminate strings copied with an explicit length

---
 src/gdlib/utils.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gdlib/utils.hpp b/src/gdlib/utils.hpp
index 25e0508..f71e8a2 100644
--- a/src/gdlib/utils.hpp
+++ b/src/gdlib/utils.hpp
@@ -706,7 +706,8 @@ inline void assignStrToBuf( const std::string &s, char *buf, const int outBufSiz
 inline void assignPCharToBuf( const char *s, const size_t slen, char *buf, const size_t outBufSize = 256 )
 {
    if( slen + 1 > outBufSize ) return;
-   std::memcpy( buf, s, slen + 1 );
+   std::memcpy( buf, s, slen );
+   buf[slen] = '\0';// s may be longer than slen
 }
 
 inline void assignPCharToBuf( const char *s, char *buf, const size_t outBufSize = 256 )
-- 
2.43.0


From bd566afb20f8c946e513c05d9a1a64c3449bc4b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:03:51 +0000
Subject: [PATCH 02/97] fix: drop the read pointer together with the sort list
 when starting a read

---
 src/gxfile.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index 2f4f788..66d9253 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -884,6 +884,7 @@ int TGXFileObj::PrepareSymbolRead( const std::string_view Caller, int SyNr, cons
    ErrorList = nullptr;
    CurSyPtr = nullptr;
    SortList = nullptr;
+   ReadPtr = std::nullopt;// refers to the SortList just dropped
 
    if( !MajorCheckMode( Caller, fr_init ) )
    {
-- 
2.43.0


From aa4b75037377c9a2226e69a550f77a499288895d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:03:51 +0000
Subject: [PATCH 03/97] fix: reset the previous keys also when reading the
 universe

---
 src/gxfile.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index 66d9253..7366aea 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -980,11 +980,11 @@ int TGXFileObj::PrepareSymbolRead( const std::string_view Caller, int SyNr, cons
       return 1;
    }
 
+   std::fill_n( PrevElem.begin(), FCurrentDim, -1 );
    if( !ReadUniverse )
    {
       CurSyPtr->SScalarFrst = false;
       std::fill_n( LastElem.begin(), FCurrentDim, INDEX_INITIAL );
-      std::fill_n( PrevElem.begin(), FCurrentDim, -1 );
       for( int D {}; D < FCurrentDim; D++ )
       {
          MinElem[D] = FFile->ReadInteger();
-- 
2.43.0


From 048602e48e03c801c842d8485eaba5b80a82672f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:14 +0000
Subject: [PATCH 04/97] fix: write the index also when closing with a started
 symbol or registration

---
 src/gxfile.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index 7366aea..bd0c167 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -537,7 +537,9 @@ int TGXFileObj::gdxClose()
       debugStream << "gdxClose("s << ( FFile ? FFile->GetFileName() : ""s ) << ")\n"s;// NOTE: Not covered by unit tests yet.
 
    std::string fnConv;
-   if( in( fmode, fw_raw_data, fw_map_data, fw_str_data ) )// unfinished write
+   if( in( fmode, f_raw_elem, f_map_elem, f_str_elem ) )// unfinished registration
+      gdxUELRegisterDone();
+   if( in( fmode, fw_raw_data, fw_map_data, fw_str_data, fw_dom_raw, fw_dom_map, fw_dom_str ) )// unfinished write
       gdxDataWriteDone();                                         // NOTE: Not covered by unit tests yet.
    if( fmode == fw_init )
    {
-- 
2.43.0


From 79d7fbc6a5b042c9cf498de9ba80d17c5e6a79d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:40 +0000
Subject: [PATCH 05/97] fix: do not write past the buffer when trimming an
 over-long label

---
 src/gdlib/utils.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/gdlib/utils.cpp b/src/gdlib/utils.cpp
index 602c8e7..e181856 100644
--- a/src/gdlib/utils.cpp
+++ b/src/gdlib/utils.cpp
@@ -176,8 +176,10 @@ const char *trimRight( const char *s,
       if( static_cast<unsigned char>( s[i] ) > 32 )
          slen = i;
    if( ++slen == i ) return s;
-   std::memcpy( storage, s, slen );
-   storage[slen] = '\0';
+   // storage has room for a short string; slen still tells the full length of the trimmed string
+   const int storedLen { std::min( slen, 255 ) };
+   std::memcpy( storage, s, storedLen );
+   storage[storedLen] = '\0';
    return storage;
 }
 
-- 
2.43.0


From cbe9ddf6af9f9ae060b74beda0bdf1b42d9d2b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:40 +0000
Subject: [PATCH 06/97] fix: refuse negative user numbers in gdxUELRegisterMap

---
 src/gxfile.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index bd0c167..5cdd0db 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -2783,6 +2783,7 @@ int TGXFileObj::gdxUELRegisterMap( int UMap, const char *Uel )
       debugStream << "   Enter UEL: " << SV << " with number " << UMap << "\n";
    }
    if( ErrorCondition( GoodUELString( SV, svLen ), ERR_BADUELSTR ) ||
+       ErrorCondition( UMap >= 0, ERR_BADELEMENTINDEX ) ||
        ErrorCondition( UELTable->AddUsrIndxNew( SV, svLen, UMap ) >= 0, ERR_UELCONFLICT ) )
       return false;
    return true;
-- 
2.43.0


From 5a972e843e570e94d34e7dd94222896e23993848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:12:48 +0000
Subject: [PATCH 07/97] fix: forget the cached key labels when a label is
 renamed

---
 src/gxfile.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index 5cdd0db..9f0e51e 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -2697,6 +2697,9 @@ int TGXFileObj::gdxRenameUEL( const char *OldName, const char *NewName )
    if( UELTable->IndexOf( S ) >= 0 )
       return 3;
    UELTable->RenameEntry( N, S );
+   // gdxDataWriteStr must not recognize the old name anymore
+   for( auto &lastElem: LastStrElem )
+      lastElem.front() = std::numeric_limits<char>::max();
    return 0;
 }
 
-- 
2.43.0


From 74e5ec0b6115f0b60239bef51047e94cf6652b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:03 +0000
Subject: [PATCH 08/97] fix: check element numbers against the label table in
 mapped reads

---
 src/gxfile.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index 9f0e51e..28b69ff 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -1028,7 +1028,7 @@ int TGXFileObj::PrepareSymbolRead( const std::string_view Caller, int SyNr, cons
                {
                   assert( D >= 0 && D < GLOBAL_MAX_INDEX_DIM );
                   const auto &obj = DomainList[D];
-                  if( LastElem[D] < 0 )
+                  if( LastElem[D] < ( obj.DAction == TgdxDAction::dm_unmapped ? 0 : 1 ) || LastElem[D] > UELTable->size() )
                   {
                      // NOTE: Not covered by unit tests yet.
                      ReportError( ERR_BADELEMENTINDEX );
@@ -2844,7 +2844,7 @@ again:
          assert( D >= 0 && D < GLOBAL_MAX_INDEX_DIM );
          const auto &obj = DomainList[D];
          // AS: Should this also be appended to the data error list???
-         if( LastElem[D] < 0 || LastElem[D] >= UELTable->size() + (UELTable->OneBased?1:0) )
+         if( LastElem[D] < ( obj.DAction == TgdxDAction::dm_unmapped ? 0 : 1 ) || LastElem[D] >= UELTable->size() + (UELTable->OneBased?1:0) )
          {
             ReportError( ERR_BADELEMENTINDEX );
             BadError = true;
@@ -2899,7 +2899,7 @@ again:
    {
       for( int D {}; D < FCurrentDim; D++ )
       {
-         if( LastElem[D] < 0 )
+         if( LastElem[D] < ( DomainList[D].DAction == TgdxDAction::dm_unmapped ? 0 : 1 ) || LastElem[D] > UELTable->size() )
          {
             // NOTE: Not covered by unit tests yet.
             ReportError( ERR_BADELEMENTINDEX );
@@ -3148,6 +3148,11 @@ int TGXFileObj::gdxGetDomainElements( int SyNr, int DimPos, int FilterNr, TDomai
    {
       assert( DimPos >= 1 && DimPos <= GLOBAL_MAX_INDEX_DIM );
       const int RawNr { LastElem[DimPos - 1] };
+      if( ErrorCondition( RawNr >= 1 && RawNr <= UELTable->size(), ERR_BADELEMENTINDEX ) )
+      {
+         gdxDataReadDone();
+         return false;
+      }
       if( DFilter )
       {
          if( const int MapNr { UELTable->GetUserMap( RawNr ) }; !DFilter->InFilter( MapNr ) )
-- 
2.43.0


From cb65832ce4c1337a9a5141f0ccce1e4951800b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:30 +0000
Subject: [PATCH 09/97] fix: return all key positions in gdxDataReadMap

---
 src/gxfile.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index 28b69ff..e7f88c9 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -2829,6 +2829,9 @@ int TGXFileObj::gdxDataReadMap( [[maybe_unused]] int RecNr, int *KeyInt, double
 
    assert( fmode == fr_mapr_data && "fr_mapr_data expected" );
 
+   // only positions that changed are mapped below
+   std::copy_n( PrevElem.begin(), FCurrentDim, KeyInt );
+
    bool AddNew {}, AddError {}, BadError {};
    int FIDim { FCurrentDim };
 
-- 
2.43.0


From 126a0121f77f9a9b3df13c1564e3eff4ff05870a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:47 +0000
Subject: [PATCH 10/97] fix: follow alias chains when gdxSymbolSetDomain
 requires domain data and refuse without leaving a partial domain

---
 src/gxfile.cpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index e7f88c9..f1479ca 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -2496,15 +2496,18 @@ int TGXFileObj::gdxSymbolSetDomain( const char **DomainIDs )
          SyNr = DomSy;
          do {
             const auto *obj = ( *NameList->GetObject( SyNr ) );
-            if(!AllowBogusDomain &&
-                obj->SDim == 1 &&
-                in(obj->SDataType, dt_set, dt_alias) &&
-                !(obj->SDataType == dt_alias ? *NameList->GetObject( obj->SUserInfo ) : obj)->SSetBitMap)
+            if( obj->SDataType == dt_set )
             {
-               ReportError( ERR_NODOMAINDATA );
-               return false;
+               // aliases have been followed, so this is the set that has to provide the data
+               if( !AllowBogusDomain && obj->SDim == 1 && !obj->SSetBitMap )
+               {
+                  ReportError( ERR_NODOMAINDATA );
+                  CurSyPtr->SDomSymbols = nullptr;
+                  std::fill_n( WrBitMaps.begin(), CurSyPtr->SDim, nullptr );
+                  return false;
+               }
+               break;
             }
-            if( obj->SDataType == dt_set ) break;
             if( obj->SDataType == dt_alias )
             {
                SyNr = obj->SUserInfo;
-- 
2.43.0


From e7872644fe5699513289f89d969892f7f88ed209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:32 +0000
Subject: [PATCH 11/97] fix: gdxSymbolSetDomain refuses sets that are not
 one-dimensional

---
 src/gxfile.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index f1479ca..462e093 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -2496,10 +2496,10 @@ int TGXFileObj::gdxSymbolSetDomain( const char **DomainIDs )
          SyNr = DomSy;
          do {
             const auto *obj = ( *NameList->GetObject( SyNr ) );
-            if( obj->SDataType == dt_set )
+            if( obj->SDataType == dt_set && obj->SDim == 1 )
             {
                // aliases have been followed, so this is the set that has to provide the data
-               if( !AllowBogusDomain && obj->SDim == 1 && !obj->SSetBitMap )
+               if( !AllowBogusDomain && !obj->SSetBitMap )
                {
                   ReportError( ERR_NODOMAINDATA );
                   CurSyPtr->SDomSymbols = nullptr;
-- 
2.43.0


From 038e77b753bdaeb9d72938cf7d2b4ae325996851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:42 +0000
Subject: [PATCH 12/97] fix: check acronym numbers against the acronym table

---
 src/gxfile.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index 462e093..868fdca 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -3007,7 +3007,7 @@ int TGXFileObj::gdxAcronymSetInfo( int N, const char *AName, const char *Txt, in
    if( TraceLevel >= TraceLevels::trl_some )
       WriteTrace( "AcronymSetInfo: "s + AName + " index = " + rtl::sysutils_p3::IntToStr( AIndx ) ); // NOTE: Not covered by unit tests yet.
 
-   if( ErrorCondition( N >= 1 || N <= (int) AcronymList->size(), ERR_BADACRONUMBER ) ) return false;
+   if( ErrorCondition( N >= 1 && N <= (int) AcronymList->size(), ERR_BADACRONUMBER ) ) return false;
    if( auto &obj = ( *AcronymList )[N - 1];
       in( fmode, AnyWriteMode ) || obj.AcrAutoGen )
    {
@@ -3043,7 +3043,7 @@ int TGXFileObj::gdxAcronymGetMapping( int N, int &orgIndx, int &newIndx, int &au
 {
    if( TraceLevel >= TraceLevels::trl_some )
       WriteTrace( "AcronymGetMapping: N = "s + rtl::sysutils_p3::IntToStr( N ) ); // NOTE: Not covered by unit tests yet.
-   if( ErrorCondition( N >= 1 || N <= (int) AcronymList->size(), ERR_BADACRONUMBER ) ) return false;
+   if( ErrorCondition( N >= 1 && N <= (int) AcronymList->size(), ERR_BADACRONUMBER ) ) return false;
    const auto &obj = ( *AcronymList )[N - 1];
    orgIndx = obj.AcrMap;
    newIndx = obj.AcrReadMap;
-- 
2.43.0


From fbc6ba435914d77a397776404b5014abce5335d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:42 +0000
Subject: [PATCH 13/97] fix: gdxAcronymAdd returns zero for an acronym that is
 already in the table

---
 src/gxfile.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index 868fdca..79137ad 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -3245,7 +3245,7 @@ int TGXFileObj::gdxAcronymAdd( const char *AName, const char *Txt, int AIndx )
       {
          // NOTE: Not covered by unit tests yet.
          if( ErrorCondition( obj.AcrMap == AIndx, ERR_ACROBADADDITION ) ) return -1;
-         return N;
+         return 0;// already in the table
       }
       if( ErrorCondition( obj.AcrMap != AIndx, ERR_ACROBADADDITION ) ) return -1;
    }
-- 
2.43.0


From 0969a1a44702b7e1b09391b883fcbbed8eb87202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:42 +0000
Subject: [PATCH 14/97] fix: gdxAcronymAdd requires a new and well formed name

---
 src/gxfile.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index 79137ad..0f57da9 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -3249,6 +3249,7 @@ int TGXFileObj::gdxAcronymAdd( const char *AName, const char *Txt, int AIndx )
       }
       if( ErrorCondition( obj.AcrMap != AIndx, ERR_ACROBADADDITION ) ) return -1;
    }
+   if( !IsGoodNewSymbol( AName ) ) return -1;
    int res { AcronymList->AddEntry( AName, Txt, AIndx ) };
    ( *AcronymList )[res].AcrReadMap = AIndx;
    res++;// one based for the user
-- 
2.43.0


From c1fd0d2583e4cb8c7a3563d63099ca5db597021a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:43 +0000
Subject: [PATCH 15/97] fix: infinity and not-a-number are not acronym values

---
 src/gxfile.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index 0f57da9..a774d03 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -3258,7 +3258,7 @@ int TGXFileObj::gdxAcronymAdd( const char *AName, const char *Txt, int AIndx )
 
 int TGXFileObj::gdxAcronymIndex( double V ) const
 {
-   return V < Zvalacr ? 0 : utils::round<int>( V / Zvalacr );
+   return !std::isfinite( V ) || V < Zvalacr ? 0 : utils::round<int>( V / Zvalacr );
 }
 
 int TGXFileObj::gdxAcronymName( double V, char *AName )
-- 
2.43.0


From 8a875dde79afbf5a77931898567716a6b1ab7e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:43 +0000
Subject: [PATCH 16/97] fix: gdxAcronymSetInfo reports a wrong index for an
 automatically numbered acronym

---
 src/gxfile.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index a774d03..fd4d564 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -3015,7 +3015,7 @@ int TGXFileObj::gdxAcronymSetInfo( int N, const char *AName, const char *Txt, in
       if( obj.AcrAutoGen )
       {
          // NOTE: Not covered by unit tests yet.
-         assert( obj.AcrReadMap == AIndx && "gdxAcronymSetInfo" );
+         if( ErrorCondition( obj.AcrReadMap == AIndx, ERR_BADACROINDEX ) ) return false;
          obj.AcrAutoGen = false;
       }
       else if( ErrorCondition( AIndx == obj.AcrMap, ERR_BADACROINDEX ) )
-- 
2.43.0


From f9936638798ddaadf045b0c0d443890542e35d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:43 +0000
Subject: [PATCH 17/97] fix: map acronyms to the not-available value of the
 reading representation

---
 src/gxfile.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index fd4d564..22c4ed2 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -1472,7 +1472,7 @@ double TGXFileObj::AcronymRemap( double V )
 {
    auto GetAsAcronym = [&]( double v ) {
       if(MapAcrToNaN)
-         return intlValueMapDbl[GMS_SVIDX_NA];
+         return readIntlValueMapDbl[GMS_SVIDX_NA];
 
       const int orgIndx { ( utils::round<int>( v / Zvalacr ) ) };
       int newIndx {};
@@ -1508,10 +1508,10 @@ double TGXFileObj::AcronymRemap( double V )
    if( V < Zvalacr )
       return V;// NOTE: Not covered by unit tests yet.
    if( V == 0.0 ) return 0.0;
-   if( std::isnan( V ) ) return intlValueMapDbl[vm_valna];
-   if( std::isinf( V ) ) return V < 0.0 ? intlValueMapDbl[vm_valmin] : intlValueMapDbl[vm_valpin];
+   if( std::isnan( V ) ) return readIntlValueMapDbl[vm_valna];
+   if( std::isinf( V ) ) return V < 0.0 ? readIntlValueMapDbl[vm_valmin] : readIntlValueMapDbl[vm_valpin];
    if( std::isnormal( V ) ) return V < 0.0 ? V : GetAsAcronym( V );
-   return intlValueMapDbl[vm_valna];// NOTE: Not covered by unit tests yet.
+   return readIntlValueMapDbl[vm_valna];// NOTE: Not covered by unit tests yet.
 }
 
 void TGXFileObj::AddToErrorListDomErrs( const std::array<int, GLOBAL_MAX_INDEX_DIM> &AElements, const double *AVals )
-- 
2.43.0


From 0329bfb372b7da91e945471c666ab2f2576e28d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:20 +0000
Subject: [PATCH 18/97] fix: write over-long strings shortened to the 255
 characters a stored string can have

---
 src/gdlib/gmsstrm.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/gdlib/gmsstrm.cpp b/src/gdlib/gmsstrm.cpp
index 9423d61..fc33020 100644
--- a/src/gdlib/gmsstrm.cpp
+++ b/src/gdlib/gmsstrm.cpp
@@ -249,8 +249,10 @@ void TXStream::WriteString( const std::string_view s )
 #endif
    static sstring buf {};
    if( Paranoid ) ParWrite( RWType::rw_string );
-   strConvCppToDelphi( s, buf.data() );
-   Write( buf.data(), static_cast<uint32_t>( s.length() ) + 1 );
+   // the length is stored in a single byte
+   const auto sv { s.substr( 0, std::numeric_limits<uint8_t>::max() ) };
+   strConvCppToDelphi( sv, buf.data() );
+   Write( buf.data(), static_cast<uint32_t>( sv.length() ) + 1 );
 }
 
 void TXStream::WriteDouble( double x )
-- 
2.43.0


From c13ade75b9e7b8da13291d0dda84301ff3623e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:32 +0000
Subject: [PATCH 19/97] fix: do not share scratch buffers between objects

---
 src/gdlib/gmsstrm.cpp |  2 +-
 src/gxfile.cpp        | 16 ++++++++--------
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/gdlib/gmsstrm.cpp b/src/gdlib/gmsstrm.cpp
index fc33020..aaff9bb 100644
--- a/src/gdlib/gmsstrm.cpp
+++ b/src/gdlib/gmsstrm.cpp
@@ -247,7 +247,7 @@ void TXStream::WriteString( const std::string_view s )
       *fstext << "WriteString@" << GetPosition() << "#" << ++cnt << ": " << s << "\n";
    }
 #endif
-   static sstring buf {};
+   sstring buf;
    if( Paranoid ) ParWrite( RWType::rw_string );
    // the length is stored in a single byte
    const auto sv { s.substr( 0, std::numeric_limits<uint8_t>::max() ) };
diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index 22c4ed2..159a8e4 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -482,7 +482,7 @@ int TGXFileObj::gdxDataWriteStr( const char **KeyStr, const double *Values )
          debugStream << " " << KeyStr[D] << ( D + 1 < FCurrentDim ? "," : "" ) << "\n";
    }
    // Could actually be GLOBAL_UEL_IDENT_SIZE but is ShortString in Delphi
-   static sstring SVstorage;
+   sstring SVstorage;
    for( int D {}; D < FCurrentDim; D++ )
    {
       int SVlen;
@@ -1520,8 +1520,8 @@ void TGXFileObj::AddToErrorListDomErrs( const std::array<int, GLOBAL_MAX_INDEX_D
    else if( ErrorList->GetCount() >= 11 )
       return;// NOTE: Not covered by unit tests yet.
 
-   static std::array<int, GLOBAL_MAX_INDEX_DIM> keys {};
-   static std::array<double, GMS_VAL_MAX> vals {};
+   std::array<int, GLOBAL_MAX_INDEX_DIM> keys {};
+   std::array<double, GMS_VAL_MAX> vals {};
 
    for( int D {}; D < FCurrentDim; D++ )
    {
@@ -2148,7 +2148,7 @@ int TGXFileObj::gdxAddSetText( const char *Txt, int &TxtNr )
       TxtNr = 0;
       return false;
    }
-   static sstring s;
+   sstring s;
    assignPCharToBuf( Txt, s.data(), GMS_SSSIZE );
    const int slen { MakeGoodExplText( s.data() ) };
    TxtNr = SetTextList->Add( s.data(), slen );
@@ -2612,7 +2612,7 @@ int TGXFileObj::gdxUELRegisterRaw( const char *Uel )
    if( ( TraceLevel >= TraceLevels::trl_all || fmode != f_raw_elem ) && !CheckMode( "UELRegisterRaw"s, f_raw_elem ) )
       return false;// NOTE: Not covered by unit tests yet.
 
-   static sstring svStorage;
+   sstring svStorage;
    int svLen;
    const char *SV { trimRight( Uel, svStorage.data(), svLen ) };
    if( ErrorCondition( GoodUELString( SV, svLen ), ERR_BADUELSTR ) ) return false;
@@ -2632,7 +2632,7 @@ int TGXFileObj::gdxUELRegisterStr( const char *Uel, int &UelNr )
 {
    if( ( TraceLevel >= TraceLevels::trl_all || fmode != f_str_elem ) && !CheckMode( "UELRegisterStr"s, f_str_elem ) )
       return false; // not covered by unit test
-   static sstring SVstorage;
+   sstring SVstorage;
    int svlen;
    const char *SV { trimRight( Uel, SVstorage.data(), svlen ) };
    if( ErrorCondition( GoodUELString( SV, svlen ), ERR_BADUELSTR ) )
@@ -2779,7 +2779,7 @@ int TGXFileObj::gdxUELRegisterMapStart()
 int TGXFileObj::gdxUELRegisterMap( int UMap, const char *Uel )
 {
    int svLen;
-   static sstring svStorage;
+   sstring svStorage;
    const char *SV { trimRight( Uel, svStorage.data(), svLen ) };
    if( TraceLevel >= TraceLevels::trl_all || fmode != f_map_elem )
    {
@@ -3594,7 +3594,7 @@ int TGXFileObj::gdxUMFindUEL( const char *Uel, int &UelNr, int &UelMap )
       UelNr = -1;
       return false;
    }
-   static sstring trimmedUelStorage;
+   sstring trimmedUelStorage;
    int trimmedUelLen;
    UelNr = UELTable->IndexOf( trimRight( Uel, trimmedUelStorage.data(), trimmedUelLen ) );
    if( UelNr < 0 ) return false;
-- 
2.43.0


From 91171c889b07cb8915b6017a20ac76ac69e6a3a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:32 +0000
Subject: [PATCH 20/97] fix: limit acronym texts to the documented 255
 characters

---
 src/gxfile.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index 159a8e4..4929cd7 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -4135,7 +4135,7 @@ void TIntegerMapping::reset()
 }
 
 TAcronym::TAcronym( const char *Name, const char *Text, int Map ) : AcrName { Name },
-                                                                    AcrText { Text },
+                                                                    AcrText { Text, std::min<size_t>( std::strlen( Text ), GMS_SSSIZE - 1 ) },
                                                                     AcrMap { Map }
 {
    MakeGoodExplText( AcrText.data() );
@@ -4163,7 +4163,7 @@ void TAcronym::SaveToStream( TXStream &S ) const
 void TAcronym::SetNameAndText( const char *Name, const char *Text )
 {
    AcrName.assign( Name );
-   AcrText.assign( Text );
+   AcrText.assign( Text, std::min<size_t>( std::strlen( Text ), GMS_SSSIZE - 1 ) );
    MakeGoodExplText( AcrText.data() );
 }
 }// namespace gdx
-- 
2.43.0


From d83761242390785f51d0311ee2272e8b41261561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:53:09 +0000
Subject: [PATCH 21/97] fix: every non-zero compression request selects
 compression

---
 src/gxfile.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index 4929cd7..21b14cd 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -422,7 +422,7 @@ int TGXFileObj::gdxOpenWriteEx( const char *FileName, const char *Producer, int
       return false;
    }
 
-   Compr &= ( FFile->GetCanCompress() ? 1 : 0 );
+   Compr = Compr && FFile->GetCanCompress() ? 1 : 0;
    fComprLev = Compr;
    CompressOut = Compr > 0;
    fmode = f_not_open;
-- 
2.43.0


From 762ca65373e8945b4253db7271ba3d82e8605d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:28 +0000
Subject: [PATCH 22/97] fix: refuse to append to files in another byte order
 and tell the error of refused appends

---
 src/gdlib/gmsstrm.cpp | 5 +++++
 src/gdlib/gmsstrm.hpp | 1 +
 src/gxfile.cpp        | 8 ++++++++
 3 files changed, 14 insertions(+)

diff --git a/src/gdlib/gmsstrm.cpp b/src/gdlib/gmsstrm.cpp
index aaff9bb..4156a70 100644
--- a/src/gdlib/gmsstrm.cpp
+++ b/src/gdlib/gmsstrm.cpp
@@ -878,6 +878,11 @@ bool TMiBufferedStream::IntsNeedFlip() const
    return order_integer;
 }
 
+bool TMiBufferedStream::DoublesNeedFlip() const
+{
+   return order_double;
+}
+
 void TMiBufferedStream::WriteGmsInteger( int N )
 {
 #ifdef WF_TEXT
diff --git a/src/gdlib/gmsstrm.hpp b/src/gdlib/gmsstrm.hpp
index 0f547d1..e215cba 100644
--- a/src/gdlib/gmsstrm.hpp
+++ b/src/gdlib/gmsstrm.hpp
@@ -328,6 +328,7 @@ public:
    int64_t ReadInt64() override;
    [[nodiscard]] bool WordsNeedFlip() const;
    [[nodiscard]] bool IntsNeedFlip() const;
+   [[nodiscard]] bool DoublesNeedFlip() const;
    void WriteGmsInteger( int N );
    void WriteGmsDouble( double D );
    int ReadGmsInteger();
diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index 21b14cd..6b07782 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -3464,6 +3464,14 @@ int TGXFileObj::gdxOpenAppend( const char *FileName, const char *Producer, int &
    if( VersionRead < 7 )
    {
       ReportError( ERR_FILETOOLDFORAPPEND );
+      ErrNr = ERR_FILETOOLDFORAPPEND;
+      gdxClose();
+      return 0;
+   }
+   if( FFile->WordsNeedFlip() || FFile->IntsNeedFlip() || FFile->DoublesNeedFlip() )
+   {// we cannot update a mixed environment file
+      ReportError( ERR_BADDATAFORMAT );
+      ErrNr = ERR_BADDATAFORMAT;
       gdxClose();
       return 0;
    }
-- 
2.43.0


From 52efe41986edc3ce9c690d4a813e97c6d2f14c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:28 +0000
Subject: [PATCH 23/97] fix: keep the numbers of duplicate set texts when
 appending

---
 src/gxfile.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index 6b07782..d8ddcdf 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -2045,7 +2045,8 @@ int TGXFileObj::gdxOpenReadXX( const char *Afn, int filemode, int ReadMode, int
          uint8_t slen;
          sstring s;
          FFile->ReadSString( s.data(), slen );
-         if( const int TextNum { SetTextList->Add( s.data(), slen ) };
+         // when appending, duplicates have to keep their numbers as the data already in the file refers to them
+         if( const int TextNum { filemode == fmOpenReadWrite ? SetTextList->StoreObject( s.data(), slen, 0 ) : SetTextList->Add( s.data(), slen ) };
             TextNum != N )
          {// duplicates stored in GDX file, e.g. empty string
             // NOTE: Not covered by unit tests yet.
-- 
2.43.0


From f22fd91e8d1c278b63464d19bc3835d6e88f74ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:47 +0000
Subject: [PATCH 24/97] fix: continue partial writes and report those that make
 no progress

---
 src/rtl/p3utils.cpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/rtl/p3utils.cpp b/src/rtl/p3utils.cpp
index 9ba4173..bc35bb7 100644
--- a/src/rtl/p3utils.cpp
+++ b/src/rtl/p3utils.cpp
@@ -536,12 +536,19 @@ int p3FileWrite( Tp3FileHandle h, const char *buffer, uint32_t buflen, uint32_t
          res = EIO;
    }
 #else
-   if ( const auto rc = write( h, buffer, buflen ); rc < 0) {
-      res = errno;
-      numWritten = 0;
+   numWritten = 0;
+   // a successful write may still be shorter than requested
+   while( numWritten < buflen )
+   {
+      const auto rc = write( h, buffer + numWritten, buflen - numWritten );
+      if( rc > 0 )
+         numWritten += ui32(rc);
+      else if( !rc || errno != EINTR )
+      {
+         res = rc ? errno : EIO;
+         break;
+      }
    }
-   else
-      numWritten = ui32(rc);
 #endif
    return res;
 }
-- 
2.43.0


From 38a6d491061ca63e9f9bdeb7ed17214fecff6122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:47 +0000
Subject: [PATCH 25/97] fix: flush and close the file before gdxClose takes the
 I/O result

---
 src/gdlib/gmsstrm.cpp | 16 ++++++++++++++++
 src/gdlib/gmsstrm.hpp |  4 ++++
 src/gxfile.cpp        |  5 +++--
 3 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/gdlib/gmsstrm.cpp b/src/gdlib/gmsstrm.cpp
index 4156a70..3433dfb 100644
--- a/src/gdlib/gmsstrm.cpp
+++ b/src/gdlib/gmsstrm.cpp
@@ -581,6 +581,16 @@ uint32_t TXFileStream::Write( const void *Buffer, uint32_t Count )
    return res;
 }
 
+int TXFileStream::Close()
+{
+   if( FileIsOpen )
+   {
+      FileIsOpen = false;
+      SetLastIOResult( p3FileClose( FS ) );
+   }
+   return GetLastIOResult();
+}
+
 int TXFileStream::GetLastIOResult()
 {
    const int res { FLastIOResult };
@@ -678,6 +688,12 @@ TBufferedFileStream::~TBufferedFileStream()
    free( CBufPtr );
 }
 
+int TBufferedFileStream::Close()
+{
+   FlushBuffer();
+   return TXFileStream::Close();
+}
+
 bool TBufferedFileStream::FlushBuffer()
 {
    bool res { true };
diff --git a/src/gdlib/gmsstrm.hpp b/src/gdlib/gmsstrm.hpp
index e215cba..6e91b10 100644
--- a/src/gdlib/gmsstrm.hpp
+++ b/src/gdlib/gmsstrm.hpp
@@ -221,6 +221,9 @@ public:
    void SetLastIOResult( int V );
    int GetLastIOResult();
 
+   // closes the file early, so that a failure can still be reported
+   virtual int Close();
+
    void SetPassWord( const std::string &s );
    [[nodiscard]] bool GetUsesPassWord() const;
    [[nodiscard]] std::string GetFileName() const;
@@ -258,6 +261,7 @@ public:
    TBufferedFileStream( const std::string &FileName, uint16_t Mode );
    ~TBufferedFileStream() override;
    bool FlushBuffer();
+   int Close() override;
    uint32_t Read( void *Buffer, uint32_t Count ) override;
    char ReadCharacter();
    uint32_t Write( const void *Buffer, uint32_t Count ) override;
diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index d8ddcdf..8cd7f01 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -630,7 +630,8 @@ int TGXFileObj::gdxClose()
          FFile->WriteInt64( offset );
    }
 
-   int res { FFile ? FFile->GetLastIOResult() : 1 };
+   // data still buffered has to reach the file before we can tell the result
+   int res { FFile ? FFile->Close() : 1 };
 
    // Many free operations. Some not necessary anymore due to RAII pattern (out of scope -> destroy)
    if( NameList )
@@ -656,7 +657,7 @@ int TGXFileObj::gdxClose()
    fmode = f_not_open;
    fstatus = stat_notopen;
 
-   if( AutoConvert && !fnConv.empty() )
+   if( AutoConvert && !res && !fnConv.empty() )
    {
       res = ConvertGDXFile( fnConv, CompressOut ? "C" : "U" );
       if( res > 0 ) res += 100;
-- 
2.43.0


From 4b1bbecde958868ef960e4be49db4693e73aa788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:33 +0000
Subject: [PATCH 26/97] fix: damaged compressed blocks and missing bytes are
 noticed when reading streams

---
 src/gdlib/gmsstrm.cpp | 37 ++++++++++++++++++++++---------------
 src/gdlib/gmsstrm.hpp | 36 ++++++++++++++++++++++++------------
 src/gdlib/strhash.hpp | 16 ++++++++++------
 3 files changed, 56 insertions(+), 33 deletions(-)

diff --git a/src/gdlib/gmsstrm.cpp b/src/gdlib/gmsstrm.cpp
index 3433dfb..a0f2d52 100644
--- a/src/gdlib/gmsstrm.cpp
+++ b/src/gdlib/gmsstrm.cpp
@@ -27,6 +27,7 @@
 
 #include <algorithm>             // for min, max
 #include <cassert>               // for assert
+#include <cerrno>                // for EIO
 #include <cmath>                 // for round, abs
 #include <cstdint>               // for uint32_t, uint8_t, int64_t, uint16_t
 #include <cstdlib>               // for malloc, abs, free
@@ -349,25 +350,20 @@ void TXStream::WritePChar( const char *s, int L )
 std::string TXStream::ReadString()
 {
    if( Paranoid ) ParCheck( RWType::rw_string );
-   uint8_t len {};
-   if( !Read( &len, 1 ) || !len ) return ""s;
+   uint8_t len;
+   ReadExact( &len, 1 );
+   if( !len ) return ""s;
    std::string s;
    s.resize( len );
-   Read( s.data(), len );
-   if(len != s.size())
-      s.resize( len );
+   ReadExact( s.data(), len );
    return s;
 }
 
 void TXStream::ReadSString(char *s, uint8_t &len)
 {
    if( Paranoid ) ParCheck( RWType::rw_string );
-   if( !Read( &len, 1 ) || !len )
-   {
-      s[0] = '\0';
-      return;
-   }
-   Read( s, len );
+   ReadExact( &len, 1 );
+   if( len ) ReadExact( s, len );
    s[len] = '\0';
 }
 
@@ -503,6 +499,7 @@ int64_t TXFileStream::GetPosition()
 
 void TXFileStream::SetPosition( int64_t P )
 {
+   FReadPastEnd = false;
    PhysPosition = P;
    int64_t NP;
    SetLastIOResult( rtl::p3utils::p3FileSetPointer( FS, P, NP, rtl::p3utils::p3_FILE_BEGIN ) );
@@ -619,13 +616,22 @@ bool TBufferedFileStream::FillBuffer()
       else
       {
          const auto WLen = ui16( ( CBufPtr->cxHeader.cxB1 << 8 ) + CBufPtr->cxHeader.cxB2 );
-         if( !CBufPtr->cxHeader.cxTyp ) NrLoaded = TXFileStream::Read( BufPtr.data(), WLen );
+         if( !CBufPtr->cxHeader.cxTyp )
+         {
+            NrLoaded = WLen <= BufSize ? TXFileStream::Read( BufPtr.data(), WLen ) : 0;
+            if( NrLoaded < WLen ) SetLastIOResult( EIO );
+         }
          else
          {
-            TXFileStream::Read( &CBufPtr->cxData, WLen );
             unsigned long XLen = BufSize;// we need a var parameter
-            uncompress( BufPtr.data(), &XLen, &CBufPtr->cxData, WLen );
-            NrLoaded = ui32(XLen);
+            if( WLen <= CBufSize && TXFileStream::Read( &CBufPtr->cxData, WLen ) == WLen &&
+                !uncompress( BufPtr.data(), &XLen, &CBufPtr->cxData, WLen ) )
+               NrLoaded = ui32( XLen );
+            else
+            {// damaged block
+               NrLoaded = 0;
+               SetLastIOResult( EIO );
+            }
          }
       }
    }
@@ -642,6 +648,7 @@ int64_t TBufferedFileStream::GetPosition()
 
 void TBufferedFileStream::SetPosition( int64_t p )
 {
+   FReadPastEnd = false;
    if( NrWritten > 0 )
    {
       if( p == PhysPosition + NrWritten && !FCompress ) return;
diff --git a/src/gdlib/gmsstrm.hpp b/src/gdlib/gmsstrm.hpp
index 6e91b10..d3b5ccf 100644
--- a/src/gdlib/gmsstrm.hpp
+++ b/src/gdlib/gmsstrm.hpp
@@ -28,7 +28,7 @@
 #include <array>                // for array
 #include <cassert>              // for assert
 #include <cstdint>              // for uint32_t, uint8_t, int64_t, uint16_t
-#include <cstring>              // for strlen
+#include <cstring>              // for strlen, memset
 #include <memory>               // for unique_ptr
 #include <string>               // for string, basic_string
 #include <string_view>          // for string_view
@@ -129,18 +129,22 @@ protected:
       Write( &v, sizeof( T ) );
    }
 
+   // Reads exactly Count bytes; if the stream ends before, the value is zero and the failure is remembered
+   void ReadExact( void *Buffer, uint32_t Count )
+   {
+      if( Read( Buffer, Count ) < Count )
+      {
+         std::memset( Buffer, 0, Count );
+         FReadPastEnd = true;
+      }
+   }
+
    template<typename T>
    T ReadValue( RWType rwt )
    {
       if( Paranoid ) ParCheck( rwt );
       T res;
-#if !defined( NDEBUG ) && defined(__IN_CPPMEX__)
-      auto numBytesRead { Read( &res, sizeof( T ) ) };
-      // is not required to generally hold and code automatically detects EOF otherwise
-      //assert( numBytesRead == sizeof( T ) );
-#else
-      Read( &res, sizeof( T ) );
-#endif
+      ReadExact( &res, sizeof( T ) );
       return res;
    }
 
@@ -148,9 +152,17 @@ protected:
    virtual void SetPosition( int64_t P ) = 0;
    virtual int64_t GetSize() = 0;
 
+   bool FReadPastEnd {};
+
 public:
    virtual ~TXStream() = default;
 
+   // did a value read (since the last positioning) need more bytes than there were?
+   [[nodiscard]] bool GetReadPastEnd() const
+   {
+      return FReadPastEnd;
+   }
+
    virtual uint32_t Read( void *Buffer, uint32_t Count ) = 0;
    virtual uint32_t Write( const void *Buffer, uint32_t Count ) = 0;
 
@@ -287,11 +299,11 @@ class TMiBufferedStream : public TBufferedFileStream
    {
       if( Paranoid ) ParCheck( rwt );
       T res;
-      if( !order_type ) Read( &res, sizeof( T ) );
+      if( !order_type ) ReadExact( &res, sizeof( T ) );
       else
       {
          T tmp;
-         Read( &tmp, sizeof( T ) );
+         ReadExact( &tmp, sizeof( T ) );
          reverseBytesMax8( &tmp, &res, sizeof( T ) );
       }
       return res;
@@ -301,7 +313,7 @@ class TMiBufferedStream : public TBufferedFileStream
    void initOrderCommon( uint8_t &order_type, uint8_t &size_type, T patConstant )
    {
       T v1, v2;
-      Read( &size_type, sizeof( uint8_t ) );
+      ReadExact( &size_type, sizeof( uint8_t ) );
       if( size_type != sizeof( T ) )
       {
          order_type = PAT_BAD_SIZE;
@@ -309,7 +321,7 @@ class TMiBufferedStream : public TBufferedFileStream
       }
       else
       {
-         Read( &v1, sizeof( T ) );
+         ReadExact( &v1, sizeof( T ) );
          order_type = 0;
          if( v1 != patConstant )
          {
diff --git a/src/gdlib/strhash.hpp b/src/gdlib/strhash.hpp
index a672173..786b370 100644
--- a/src/gdlib/strhash.hpp
+++ b/src/gdlib/strhash.hpp
@@ -35,6 +35,7 @@
 #include <vector>
 #include <string>
 #include <cassert>
+#include <algorithm>
 #include <numeric>
 
 namespace gdlib::strhash
@@ -237,6 +238,9 @@ protected:
    }
 
 public:
+   // a count found in a (possibly damaged) file is only trusted up to here when allocating in advance
+   static constexpr int MaxCountHint { 1 << 20 };
+
    bool OneBased {};// When false (default) indices are in the range 0..Count-1
    // when true, indices are in the range 1..Count
 
@@ -374,8 +378,8 @@ public:
    {
       Clear();
       const int Cnt { s.ReadInteger() };
-      SetCapacity( Cnt );
-      for( int N {}; N < Cnt; N++ )
+      SetCapacity( std::min( Cnt, MaxCountHint ) );
+      for( int N {}; N < Cnt && !s.GetReadPastEnd(); N++ )
       {
          uint8_t slen;
          const char * str {s.ReadSString(slen)};
@@ -531,8 +535,8 @@ void TXStrHashList<uint8_t>::LoadFromStream( T2 &s )
 {
    Clear();
    const int Cnt { s.ReadInteger() };
-   SetCapacity( Cnt );
-   for( int N {}; N < Cnt; N++ )
+   SetCapacity( std::min( Cnt, MaxCountHint ) );
+   for( int N {}; N < Cnt && !s.GetReadPastEnd(); N++ )
    {
       char sbuf[256];
       uint8_t slen;
@@ -547,8 +551,8 @@ inline void TXStrHashList<int>::LoadFromStream( T2 &s )
 {
    Clear();
    const int Cnt { s.ReadInteger() };
-   SetCapacity( Cnt );
-   for( int N {}; N < Cnt; N++ )
+   SetCapacity( std::min( Cnt, MaxCountHint ) );
+   for( int N {}; N < Cnt && !s.GetReadPastEnd(); N++ )
    {
       uint8_t slen;
       char sbuf[256];
-- 
2.43.0


From 400419ab0ead3224b73cb5d5264c3c620835ea6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:42 +0000
Subject: [PATCH 27/97] fix: failed opens release what they read so far

---
 src/gdx.hpp                         |  2 ++
 src/gxfile.cpp                      | 48 ++++++++++++++++-------------
 src/templates/gdxheader.template.j2 |  2 ++
 3 files changed, 31 insertions(+), 21 deletions(-)

diff --git a/src/gdx.hpp b/src/gdx.hpp
index 4bdb1da..fbc2c37 100644
--- a/src/gdx.hpp
+++ b/src/gdx.hpp
@@ -1816,6 +1816,8 @@ TDomainIndexProc_t gdxGetDomainElements_DP {};
 bool PrepareSymbolWrite( std::string_view Caller, const char *AName, const char *AText, int ADim, int AType, int AUserInfo );
 int PrepareSymbolRead( std::string_view Caller, int SyNr, const int *ADomainNrs, TgxFileMode newmode );
 
+void ReleaseTables();
+
 void InitErrors();
 void SetError( int N );
 void ReportError( int N );
diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index 8cd7f01..2daa3da 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -531,6 +531,31 @@ int TGXFileObj::gdxDataWriteDone()
    return true;
 }
 
+void TGXFileObj::ReleaseTables()
+{
+   // Many free operations. Some not necessary anymore due to RAII pattern (out of scope -> destroy)
+   if( NameList )
+   {
+      for( int N { 1 }; N <= NameList->Count(); N++ )
+      {
+         const auto PSy = *NameList->GetObject( N );
+         delete PSy;
+      }
+      NameList = nullptr;
+   }
+   CurSyPtr = nullptr;
+
+   FFile = nullptr;
+   SetTextList = nullptr;
+   UELTable = nullptr;
+   SortList = nullptr;
+   DomainStrList = nullptr;
+   ErrorList = nullptr;
+   FilterList = nullptr;
+   AcronymList = nullptr;
+   MapSetText = nullptr;
+}
+
 int TGXFileObj::gdxClose()
 {
    if( verboseTrace && TraceLevel >= TraceLevels::trl_all )
@@ -633,26 +658,7 @@ int TGXFileObj::gdxClose()
    // data still buffered has to reach the file before we can tell the result
    int res { FFile ? FFile->Close() : 1 };
 
-   // Many free operations. Some not necessary anymore due to RAII pattern (out of scope -> destroy)
-   if( NameList )
-   {
-      for( int N { 1 }; N <= NameList->Count(); N++ )
-      {
-         const auto PSy = *NameList->GetObject( N );
-         delete PSy;
-      }
-      NameList = nullptr;
-   }
-
-   FFile = nullptr;
-   SetTextList = nullptr;
-   UELTable = nullptr;
-   SortList = nullptr;
-   DomainStrList = nullptr;
-   ErrorList = nullptr;
-   FilterList = nullptr;
-   AcronymList = nullptr;
-   MapSetText = nullptr;
+   ReleaseTables();
 
    fmode = f_not_open;
    fstatus = stat_notopen;
@@ -1876,7 +1882,7 @@ int TGXFileObj::gdxOpenReadXX( const char *Afn, int filemode, int ReadMode, int
 
    auto FileErrorNr = [&] {
       ErrNr = LastError;
-      FFile = nullptr;
+      ReleaseTables();
       return false;
    };
 
diff --git a/src/templates/gdxheader.template.j2 b/src/templates/gdxheader.template.j2
index 92788df..ba67c18 100644
--- a/src/templates/gdxheader.template.j2
+++ b/src/templates/gdxheader.template.j2
@@ -193,6 +193,8 @@ TDomainIndexProc_t gdxGetDomainElements_DP {};
 bool PrepareSymbolWrite( std::string_view Caller, const char *AName, const char *AText, int ADim, int AType, int AUserInfo );
 int PrepareSymbolRead( std::string_view Caller, int SyNr, const int *ADomainNrs, TgxFileMode newmode );
 
+void ReleaseTables();
+
 void InitErrors();
 void SetError( int N );
 void ReportError( int N );
-- 
2.43.0


From e6b36233c85f97f10260697213c4a1cdc6e17926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:19:36 +0000
Subject: [PATCH 28/97] fix: check tables and data of damaged files while
 reading

---
 src/gxfile.cpp | 79 ++++++++++++++++++++++++++++++++++++++------------
 1 file changed, 60 insertions(+), 19 deletions(-)

diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index 2daa3da..85db440 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -1415,41 +1415,55 @@ bool TGXFileObj::DoRead( double *AVals, int &AFDim )
       return true;
    }
 
-   uint8_t B;
-   FFile->Read( &B, 1 );
+   // the data does not end or continue as it should
+   const auto BadData = [this] {
+      FFile->SetLastIOResult( ERR_BADDATAFORMAT );
+      return false;
+   };
+
+   const uint8_t B { FFile->ReadByte() };
+   if( FFile->GetReadPastEnd() ) return BadData();
    if( B > DeltaForRead )
    {// relative change in last dimension
       if( B == 255 ) return false;
       AFDim = FCurrentDim;
-      if( FCurrentDim > 0 ) LastElem[FCurrentDim - 1] += B - DeltaForRead;
+      if( FCurrentDim > 0 )
+      {
+         auto &Elem = LastElem[FCurrentDim - 1];
+         if( Elem > std::numeric_limits<int>::max() - ( B - DeltaForRead ) ) return BadData();
+         Elem += B - DeltaForRead;
+      }
    }
    else
    {
       AFDim = B;
-      assert( AFDim >= 1 && AFDim <= GLOBAL_MAX_INDEX_DIM );
-      for( int D { AFDim - 1 }; D < FCurrentDim; D++ )
+      if( FCurrentDim > 0 && ( AFDim < 1 || AFDim > FCurrentDim ) ) return BadData();
+      for( int D { std::max( AFDim, 1 ) - 1 }; D < FCurrentDim; D++ )
       {
          assert( D >= 0 && D < GLOBAL_MAX_INDEX_DIM );
+         int64_t Elem {};
          switch( ElemType[D] )
          {
             case TgdxElemSize::sz_integer:
-               LastElem[D] = FFile->ReadInteger() + MinElem[D];
+               Elem = FFile->ReadInteger();
                break;
             case TgdxElemSize::sz_word:
-               LastElem[D] = FFile->ReadWord() + MinElem[D];
+               Elem = FFile->ReadWord();
                break;
             case TgdxElemSize::sz_byte:
-               LastElem[D] = FFile->ReadByte() + MinElem[D];
+               Elem = FFile->ReadByte();
                break;
          }
+         Elem += MinElem[D];
+         if( Elem < std::numeric_limits<int>::min() || Elem > std::numeric_limits<int>::max() ) return BadData();
+         LastElem[D] = static_cast<int>( Elem );
       }
    }
    if( DataSize > 0 )
    {
       for( int DV { GMS_VAL_LEVEL }; DV <= LastDataField; DV++ )
       {
-         uint8_t BSV;
-         FFile->Read( &BSV, 1 );
+         const uint8_t BSV { FFile->ReadByte() };
          TgdxIntlValTyp SV { static_cast<TgdxIntlValTyp>( BSV ) };
          // Delphi doesn't bound check here and just writes adjacent junk
          // but we at least consistently write 0
@@ -1461,12 +1475,13 @@ bool TGXFileObj::DoRead( double *AVals, int &AFDim )
          }
          AVals[DV] = SV != vm_normal ? readIntlValueMapDbl[SV] : maybeRemap( FFile->ReadDouble() );
       }
+      if( FFile->GetReadPastEnd() ) return BadData();
       if( MapSetText && AVals[GMS_VAL_LEVEL] != 0.0 && CurSyPtr->SDataType == dt_set )
       {// remap settext number
          // NOTE: Not covered by unit tests yet.
          const double X { AVals[GMS_VAL_LEVEL] };
          if( const int D { ( utils::round<int>( X ) ) };
-            std::abs( X - D ) < 1e-12 && D >= 0 && D <= SetTextList->GetCapacity() )
+            std::abs( X - D ) < 1e-12 && D >= 0 && D < SetTextList->size() )
             AVals[GMS_VAL_LEVEL] = MapSetText[D];
       }
       if( verboseTrace && TraceLevel >= TraceLevels::trl_all )
@@ -1958,20 +1973,23 @@ int TGXFileObj::gdxOpenReadXX( const char *Afn, int filemode, int ReadMode, int
    int NrElem { FFile->ReadInteger() };
    NameList = std::make_unique<TNameList>();
    NameList->OneBased = true;
-   NameList->SetCapacity( NrElem );
+   NameList->SetCapacity( std::min( NrElem, TNameList::MaxCountHint ) );
    AcronymList = std::make_unique<TAcronymList>(true);
    FilterList = std::make_unique<TFilterList>();
    const int NrElemsOfSym = NrElem;
    for( int N { 1 }; N <= NrElemsOfSym; N++ )
    {
+      if( ErrorCondition( !FFile->GetReadPastEnd(), ERR_OPEN_SYMBOLMARKER2 ) ) return FileErrorNr();
       uint8_t Slen;
       sstring S;
       FFile->ReadSString(S.data(), Slen);
       CurSyPtr = new TgdxSymbRecord {};
+      CurSyPtr->SSyNr = NameList->StoreObject( S.data(), Slen, CurSyPtr );
       CurSyPtr->SPosition = VersionRead <= 5 ? FFile->ReadInteger() : FFile->ReadInt64();
       CurSyPtr->SDim = FFile->ReadInteger();
       uint8_t B { FFile->ReadByte() };
       CurSyPtr->SDataType = static_cast<gdxSyType>( B );
+      if( ErrorCondition( Slen < GMS_UEL_IDENT_SIZE && B <= dt_alias && CurSyPtr->SDim >= 0 && CurSyPtr->SDim <= GLOBAL_MAX_INDEX_DIM, ERR_BADDATAFORMAT ) ) return FileErrorNr();
       CurSyPtr->SUserInfo = FFile->ReadInteger();
       CurSyPtr->SDataCount = FFile->ReadInteger();
       CurSyPtr->SErrors = FFile->ReadInteger();
@@ -1987,13 +2005,16 @@ int TGXFileObj::gdxOpenReadXX( const char *Afn, int filemode, int ReadMode, int
          {
             CurSyPtr->SDomSymbols = std::make_unique<int[]>( CurSyPtr->SDim );
             for( int D {}; D < CurSyPtr->SDim; D++ )
+            {
                CurSyPtr->SDomSymbols[D] = FFile->ReadInteger();
+               if( ErrorCondition( CurSyPtr->SDomSymbols[D] >= 0 && CurSyPtr->SDomSymbols[D] <= NrElemsOfSym, ERR_BADDATAFORMAT ) ) return FileErrorNr();
+            }
          }
          NrElem = FFile->ReadInteger();
          if( NrElem > 0 )
          {
             CurSyPtr->SCommentsList = std::make_optional<TCommentsList>();
-            for( ; NrElem > 0; NrElem-- )
+            for( ; NrElem > 0 && !FFile->GetReadPastEnd(); NrElem-- )
             {
                sstring s;
                uint8_t slen;
@@ -2004,9 +2025,21 @@ int TGXFileObj::gdxOpenReadXX( const char *Afn, int filemode, int ReadMode, int
       }
       CurSyPtr->SSetBitMap = nullptr;
       CurSyPtr->SDomStrings = nullptr;
-      CurSyPtr->SSyNr = NameList->StoreObject( S.data(), Slen, CurSyPtr );
    }
    if( ErrorCondition( FFile->ReadString() == MARK_SYMB, ERR_OPEN_SYMBOLMARKER2 ) ) return FileErrorNr();
+   // an alias has to lead to a set of the same dimension
+   for( int N { 1 }; N <= NrElemsOfSym; N++ )
+   {
+      const TgdxSymbRecord *SyPtr = *NameList->GetObject( N );
+      const int AliasDim { SyPtr->SDim };
+      int Steps {};
+      while( SyPtr && SyPtr->SDataType == dt_alias )
+      {
+         if( ErrorCondition( SyPtr->SUserInfo >= 0 && SyPtr->SUserInfo <= NrElemsOfSym && Steps++ < NrElemsOfSym, ERR_BADDATAFORMAT ) ) return FileErrorNr();
+         SyPtr = SyPtr->SUserInfo ? *NameList->GetObject( SyPtr->SUserInfo ) : nullptr;
+      }
+      if( Steps && ErrorCondition( SyPtr ? SyPtr->SDataType == dt_set && SyPtr->SDim == AliasDim : AliasDim == 1, ERR_BADDATAFORMAT ) ) return FileErrorNr();
+   }
 
    // reading UEL table
    FFile->SetCompression( DoUncompress );
@@ -2019,7 +2052,7 @@ int TGXFileObj::gdxOpenReadXX( const char *Afn, int filemode, int ReadMode, int
    NrElem = FFile->ReadInteger();
    // subtract 2*6 bytes for MARK_UEL ("_UEL_\0") and 4 bytes for UEL count integer
    const auto uelLabelStrBytes { VersionRead >= 7 ? AcronymPos-UELPos - 6 * 2 - 4 : 0 };
-   UELTable->SetCapacity( NrElem, uelLabelStrBytes );
+   UELTable->SetCapacity( std::min( NrElem, UELTableImplChoice::MaxCountHint ), std::clamp<int64_t>( uelLabelStrBytes, 0, 16 * UELTableImplChoice::MaxCountHint ) );
    // bug for pre 2002
    if( substr( FileSystemID, 15, 4 ) == "2001"s ) NrElem--;
 
@@ -2028,6 +2061,7 @@ int TGXFileObj::gdxOpenReadXX( const char *Afn, int filemode, int ReadMode, int
       uint8_t slen;
       sstring s;
       FFile->ReadSString( s.data(), slen );
+      if( ErrorCondition( slen < GMS_UEL_IDENT_SIZE && !FFile->GetReadPastEnd(), ERR_OPEN_UELMARKER2 ) ) return FileErrorNr();
       UELTable->StoreObject( s.data(), slen, -1 );
    }
    UelCntOrig = UELTable->size(); // needed when reading universe
@@ -2046,12 +2080,13 @@ int TGXFileObj::gdxOpenReadXX( const char *Afn, int filemode, int ReadMode, int
       // set text table (when there) is always before UEL table
       // subtract bytes for length (4-byte) and twice 7 chars MARK_SETT (_SETT_\0)
       const auto setTextStrBytes { UELPos - SetTextPos - 7 * 2 - 4 };
-      SetTextList->SetCapacity( NrElem, setTextStrBytes );
+      SetTextList->SetCapacity( std::min( NrElem, TSetTextList::MaxCountHint ), std::clamp<int64_t>( setTextStrBytes, 0, 16 * TSetTextList::MaxCountHint ) );
       for( int N {}; N < NrElem; N++ )
       {
          uint8_t slen;
          sstring s;
          FFile->ReadSString( s.data(), slen );
+         if( ErrorCondition( !FFile->GetReadPastEnd(), ERR_OPEN_TEXTMARKER2 ) ) return FileErrorNr();
          // when appending, duplicates have to keep their numbers as the data already in the file refers to them
          if( const int TextNum { filemode == fmOpenReadWrite ? SetTextList->StoreObject( s.data(), slen, 0 ) : SetTextList->Add( s.data(), slen ) };
             TextNum != N )
@@ -2093,10 +2128,14 @@ int TGXFileObj::gdxOpenReadXX( const char *Afn, int filemode, int ReadMode, int
       {
          const int SyNr = FFile->ReadInteger();
          if( SyNr <= 0 ) break;
+         if( ErrorCondition( SyNr <= NameList->size(), ERR_BADDATAFORMAT ) ) return FileErrorNr();
          const auto sym = *NameList->GetObject( SyNr );
          sym->SDomStrings = std::make_unique<int[]>( sym->SDim );
          for( int D {}; D < sym->SDim; D++ )
+         {
             sym->SDomStrings[D] = FFile->ReadInteger();
+            if( ErrorCondition( sym->SDomStrings[D] >= 0 && sym->SDomStrings[D] <= DomainStrList->size(), ERR_BADDATAFORMAT ) ) return FileErrorNr();
+         }
       }
       if( ErrorCondition( FFile->ReadString() == MARK_DOMS, ERR_OPEN_DOMSMARKER3 ) ) return FileErrorNr();
    }
@@ -4004,10 +4043,12 @@ void TAcronymList::LoadFromStream( TXStream &S )
 {
    const int Cnt { S.ReadInteger() };
    FList.Clear();
-   FList.SetCapacity( Cnt );
+   // a damaged file may tell any count
+   const int CntHint { std::clamp( Cnt, 0, TNameList::MaxCountHint ) };
+   FList.SetCapacity( CntHint );
    if(useBatchAlloc)
-      batchAlloc.SetFirstBatchSize( Cnt * sizeof(TAcronym) );
-   while( FList.GetCount() < Cnt )
+      batchAlloc.SetFirstBatchSize( CntHint * sizeof(TAcronym) );
+   while( FList.GetCount() < Cnt && !S.GetReadPastEnd() )
    {
       TAcronym *acro = useBatchAlloc ? new (batchAlloc.GetBytes<TAcronym>()) TAcronym { S } : new TAcronym { S };
       FList.Add( acro );
-- 
2.43.0


From 9bdc6c28cefd6b3710b1ba77e7f8ffdf2c002cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:20:40 +0000
Subject: [PATCH 29/97] fix: look up duplicate set texts within the table of
 the file

---
 src/gdx.hpp                         |  2 +-
 src/gxfile.cpp                      | 21 ++++++++++-----------
 src/templates/gdxheader.template.j2 |  2 +-
 3 files changed, 12 insertions(+), 13 deletions(-)

diff --git a/src/gdx.hpp b/src/gdx.hpp
index fbc2c37..f4df0b2 100644
--- a/src/gdx.hpp
+++ b/src/gdx.hpp
@@ -1756,7 +1756,7 @@ enum : uint8_t
 int fComprLev {};
 std::unique_ptr<TUELTable> UELTable;
 std::unique_ptr<TSetTextList> SetTextList {};
-std::unique_ptr<int[]> MapSetText {};
+std::vector<int> MapSetText {};
 int FCurrentDim {};
 std::array<int, GLOBAL_MAX_INDEX_DIM> LastElem {}, PrevElem {}, MinElem {}, MaxElem {};
 std::array<std::array<char, GLOBAL_UEL_IDENT_SIZE>, GLOBAL_MAX_INDEX_DIM> LastStrElem {};
diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index 85db440..73c2c42 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -553,7 +553,7 @@ void TGXFileObj::ReleaseTables()
    ErrorList = nullptr;
    FilterList = nullptr;
    AcronymList = nullptr;
-   MapSetText = nullptr;
+   MapSetText.clear();
 }
 
 int TGXFileObj::gdxClose()
@@ -1476,13 +1476,15 @@ bool TGXFileObj::DoRead( double *AVals, int &AFDim )
          AVals[DV] = SV != vm_normal ? readIntlValueMapDbl[SV] : maybeRemap( FFile->ReadDouble() );
       }
       if( FFile->GetReadPastEnd() ) return BadData();
-      if( MapSetText && AVals[GMS_VAL_LEVEL] != 0.0 && CurSyPtr->SDataType == dt_set )
+      if( !MapSetText.empty() && AVals[GMS_VAL_LEVEL] != 0.0 && CurSyPtr->SDataType == dt_set )
       {// remap settext number
          // NOTE: Not covered by unit tests yet.
          const double X { AVals[GMS_VAL_LEVEL] };
-         if( const int D { ( utils::round<int>( X ) ) };
-            std::abs( X - D ) < 1e-12 && D >= 0 && D < SetTextList->size() )
-            AVals[GMS_VAL_LEVEL] = MapSetText[D];
+         if( const auto NrTexts { static_cast<int>( MapSetText.size() ) };
+            X > 0.0 && X < NrTexts )
+            if( const int D { ( utils::round<int>( X ) ) };
+               std::abs( X - D ) < 1e-12 && D < NrTexts )
+               AVals[GMS_VAL_LEVEL] = MapSetText[D];
       }
       if( verboseTrace && TraceLevel >= TraceLevels::trl_all )
          debugStream << "level="s << AVals[GMS_VAL_LEVEL] << '\n';// NOTE: Not covered by unit tests yet.
@@ -2092,13 +2094,10 @@ int TGXFileObj::gdxOpenReadXX( const char *Afn, int filemode, int ReadMode, int
             TextNum != N )
          {// duplicates stored in GDX file, e.g. empty string
             // NOTE: Not covered by unit tests yet.
-            if( !MapSetText )
-            {
-               MapSetText = std::make_unique<int[]>( NrElem );
+            if( MapSetText.empty() )
                for( int D {}; D < N; D++ )
-                  MapSetText[D] = D;
-            }
-            MapSetText[N] = TextNum;
+                  MapSetText.push_back( D );
+            MapSetText.push_back( TextNum );
          }
       }
       if( ErrorCondition( FFile->ReadString() == MARK_SETT, ERR_OPEN_TEXTMARKER2 ) ) return FileErrorNr();
diff --git a/src/templates/gdxheader.template.j2 b/src/templates/gdxheader.template.j2
index ba67c18..d0a2b09 100644
--- a/src/templates/gdxheader.template.j2
+++ b/src/templates/gdxheader.template.j2
@@ -133,7 +133,7 @@ enum : uint8_t
 int fComprLev {};
 std::unique_ptr<TUELTable> UELTable;
 std::unique_ptr<TSetTextList> SetTextList {};
-std::unique_ptr<int[]> MapSetText {};
+std::vector<int> MapSetText {};
 int FCurrentDim {};
 std::array<int, GLOBAL_MAX_INDEX_DIM> LastElem {}, PrevElem {}, MinElem {}, MaxElem {};
 std::array<std::array<char, GLOBAL_UEL_IDENT_SIZE>, GLOBAL_MAX_INDEX_DIM> LastStrElem {};
-- 
2.43.0


From 6e28e57493b6f63d7ba813f70b17978838533293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:25 +0000
Subject: [PATCH 30/97] fix: fast, slice and domain reads stop when the read
 cannot start or an element is unknown

---
 src/gxfile.cpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index 73c2c42..6d91801 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -3193,7 +3193,7 @@ int TGXFileObj::gdxGetDomainElements( int SyNr, int DimPos, int FilterNr, TDomai
    TIndex XDomains = arrayWithValue<int, GLOBAL_MAX_INDEX_DIM>( DOMC_UNMAPPED );
 
    // Following call also clears ErrorList
-   PrepareSymbolRead( "gdxGetDomain"s, SyNr, XDomains.data(), fr_raw_data );
+   if( PrepareSymbolRead( "gdxGetDomain"s, SyNr, XDomains.data(), fr_raw_data ) < 0 ) return false;
    int AFDim;
    std::array<double, GMS_VAL_SCALE + 1> AVals {};
    while( DoRead( AVals.data(), AFDim ) )
@@ -3364,9 +3364,8 @@ int TGXFileObj::gdxDataReadSliceStart( int SyNr, int *ElemCounts )
    //-- Note: PrepareSymbolRead checks for the correct status
    const auto XDomains = arrayWithValue<int, GLOBAL_MAX_INDEX_DIM>( DOMC_UNMAPPED );
    SliceSyNr = SyNr;
-   PrepareSymbolRead( "DataReadSliceStart"s, SliceSyNr, XDomains.data(), fr_raw_data );
-
    memset( ElemCounts, 0, sizeof( int ) * GLOBAL_MAX_INDEX_DIM );
+   if( PrepareSymbolRead( "DataReadSliceStart"s, SliceSyNr, XDomains.data(), fr_raw_data ) < 0 ) return false;
 
    TgdxValues Values;
    int FDim;
@@ -3377,7 +3376,14 @@ int TGXFileObj::gdxDataReadSliceStart( int SyNr, int *ElemCounts )
    }
    while( DoRead( Values.data(), FDim ) )
       for( int D {}; D < FCurrentDim; D++ )
+      {
+         if( ErrorCondition( LastElem[D] >= 1 && LastElem[D] <= UELTable->size(), ERR_BADELEMENTINDEX ) )
+         {
+            gdxDataReadDone();
+            return false;
+         }
          SliceIndxs[D].SetMapping( LastElem[D], 1 );
+      }
 
    gdxDataReadDone();
 
@@ -3424,7 +3430,7 @@ int TGXFileObj::gdxDataReadSlice( const char **UelFilterStr, int &Dimen, TDataSt
    fmode = fr_init;
    if( !GoodIndx ) return false;
    const auto XDomains = arrayWithValue<int, GLOBAL_MAX_INDEX_DIM>( DOMC_UNMAPPED );
-   PrepareSymbolRead( "DataReadSlice"s, SliceSyNr, XDomains.data(), fr_slice );
+   if( PrepareSymbolRead( "DataReadSlice"s, SliceSyNr, XDomains.data(), fr_slice ) < 0 ) return false;
    TgdxValues Values;
    TgdxUELIndex HisIndx;
    int FDim;
@@ -3735,8 +3741,8 @@ int TGXFileObj::gdxDataReadRawFastFilt( int SyNr, const char **UelFilterStr, TDa
          }
          res = true;
       }
+      gdxDataReadDone();
    }
-   gdxDataReadDone();
    return res;
 }
 
@@ -3744,6 +3750,7 @@ int TGXFileObj::gdxDataReadRawFast( int SyNr, TDataStoreProc_t DP, int &NrRecs )
 {
    const auto XDomains { arrayWithValue<int, GLOBAL_MAX_INDEX_DIM>( DOMC_UNMAPPED ) };
    NrRecs = PrepareSymbolRead( "gdxDataReadRawFast"s, SyNr, XDomains.data(), fr_raw_data );
+   if( NrRecs < 0 ) return false;
    std::array<double, GMS_VAL_SCALE + 1> AVals {};
    int AFDim;
    while( DoRead( AVals.data(), AFDim ) )
@@ -3759,6 +3766,7 @@ int TGXFileObj::gdxDataReadRawFastEx( int SyNr, TDataStoreExProc_t DP, int &NrRe
    //do not know dimension yet
    std::fill( XDomains.begin(), XDomains.end(), DOMC_UNMAPPED );
    NrRecs = PrepareSymbolRead( "gdxDataReadRawFastEx"s, SyNr, XDomains.data(), fr_raw_data );
+   if( NrRecs < 0 ) return false;
    std::array<double, valscale + 1> AVals {};
    int AFDim;
    if( gdxDataReadRawFastEx_DP_CallByRef )
-- 
2.43.0


From 9396fb935b0a565d5d5deb21b06912ed5f60cb06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:21 +0000
Subject: [PATCH 31/97] fix: discard debug output instead of collecting it in a
 stream shared by all objects

---
 src/gdlib/utils.cpp |  4 ----
 src/gdlib/utils.hpp | 11 ++++++++++-
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/gdlib/utils.cpp b/src/gdlib/utils.cpp
index e181856..3030383 100644
--- a/src/gdlib/utils.cpp
+++ b/src/gdlib/utils.cpp
@@ -47,10 +47,6 @@ using namespace std::literals::string_literals;
 // ==============================================================================================================
 // Implementation
 // ==============================================================================================================
-#if defined(NDEBUG) && !defined(__IN_CPPMEX__)
-std::stringstream debugStream;
-#endif
-
 namespace utils
 {
 
diff --git a/src/gdlib/utils.hpp b/src/gdlib/utils.hpp
index f71e8a2..89da7f0 100644
--- a/src/gdlib/utils.hpp
+++ b/src/gdlib/utils.hpp
@@ -58,7 +58,16 @@
 #if !defined(NDEBUG) || defined(__IN_CPPMEX__)
 #define debugStream std::cout
 #else
-extern std::stringstream debugStream;
+// drops everything: nobody reads it and objects in different threads may write to it at the same time
+struct TDroppingStream
+{
+   template<typename T>
+   const TDroppingStream &operator<<( const T & ) const
+   {
+      return *this;
+   }
+};
+inline constexpr TDroppingStream debugStream {};
 #endif
 
 namespace utils
-- 
2.43.0


From d82d64389e92bc453ed9424525d7e05a69933a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:41 +0000
Subject: [PATCH 32/97] fix: a refused start of a symbol leaves the symbol
 being written alone

---
 src/gxfile.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index 6d91801..87e14c1 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -739,10 +739,7 @@ bool TGXFileObj::PrepareSymbolWrite( const std::string_view Caller,
                                      int AType,
                                      int AUserInfo )
 {
-   CurSyPtr = nullptr;
-   ErrorList = nullptr;
-   SortList = nullptr;
-
+   // a refused start must not disturb the symbol being written
    if( !MajorCheckMode( Caller, fw_init ) ) return false;
 
    if( TraceLevel >= TraceLevels::trl_some )
@@ -752,6 +749,8 @@ bool TGXFileObj::PrepareSymbolWrite( const std::string_view Caller,
 
    if( ErrorCondition( ADim >= 0 && ADim <= GLOBAL_MAX_INDEX_DIM, ERR_BADDIMENSION ) ||
        ErrorCondition( AType >= 0 && AType <= dt_equ, ERR_BADDATATYPE ) ) return false;
+   ErrorList = nullptr;
+   SortList = nullptr;
    CurSyPtr = new TgdxSymbRecord {};
    auto &obj = CurSyPtr;
    obj->SPosition = CurSyPtr->SDataCount = CurSyPtr->SErrors = 0;// Position
-- 
2.43.0


From 51c4a7c144660c215853b85836de3e5958d23e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:41 +0000
Subject: [PATCH 33/97] fix: a refused read start or read end changes nothing

---
 src/gxfile.cpp | 36 ++++++++++++++++++++----------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index 87e14c1..8437804 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -886,6 +886,18 @@ bool TGXFileObj::CheckMode( const std::string_view Routine, const TgxModeSet &MS
 
 int TGXFileObj::PrepareSymbolRead( const std::string_view Caller, int SyNr, const int *ADomainNrs, TgxFileMode newmode )
 {
+   // check everything before ending a read in progress: a refused start must not change anything
+   if( !MajorCheckMode( Caller, AnyReadMode ) ||
+       ErrorCondition( SyNr >= 0 && SyNr <= NameList->size(), ERR_BADSYMBOLINDEX ) ) return -1;
+   {
+      const TgdxSymbRecord *SyPtr { SyNr ? *NameList->GetObject( SyNr ) : nullptr };
+      while( SyPtr && SyPtr->SDataType == dt_alias )
+         SyPtr = SyPtr->SUserInfo ? *NameList->GetObject( SyPtr->SUserInfo ) : nullptr;
+      for( int D {}; D < ( SyPtr ? SyPtr->SDim : 1 ); D++ )
+         if( !in( ADomainNrs[D], DOMC_UNMAPPED, DOMC_EXPAND, DOMC_STRICT ) &&
+             ErrorCondition( FilterList->FindFilter( ADomainNrs[D] ) != nullptr, ERR_UNKNOWNFILTER ) ) return -1;
+   }
+
    if( in( fmode, fr_str_data, fr_map_data, fr_mapr_data, fr_raw_data ) )
       gdxDataReadDone();// NOTE: Not covered by unit tests yet.
    NrMappedAdded = 0;
@@ -894,16 +906,10 @@ int TGXFileObj::PrepareSymbolRead( const std::string_view Caller, int SyNr, cons
    SortList = nullptr;
    ReadPtr = std::nullopt;// refers to the SortList just dropped
 
-   if( !MajorCheckMode( Caller, fr_init ) )
-   {
-      // NOTE: Not covered by unit tests yet.
-      fmode = fr_init;
-      return -1;
-   }
+   MajContext = Caller;
    ReadUniverse = !SyNr;
    if( !ReadUniverse )
    {
-      if( ErrorCondition( SyNr >= 1 && SyNr <= NameList->size(), ERR_BADSYMBOLINDEX ) ) return -1;
       CurSyPtr = *NameList->GetObject( SyNr );
       if( CurSyPtr->SDataType == dt_alias )
       {
@@ -1802,14 +1808,9 @@ int TGXFileObj::gdxDataReadStr( char **KeyStr, double *Values, int &DimFrst )
 int TGXFileObj::gdxDataReadDone()
 {
    static const TgxModeSet AllowedMode { fr_init, fr_raw_data, fr_map_data, fr_mapr_data, fr_str_data, fr_slice };
+   if( !MajorCheckMode( "DataReadDone"s, AllowedMode ) ) return false;
    SortList = nullptr;
    CurSyPtr = nullptr;
-   if( !MajorCheckMode( "DataReadDone"s, AllowedMode ) )
-   {
-      // NOTE: Not covered by unit tests yet.
-      fmode = fr_init;
-      return false;
-   }
    /*if( fmode == fr_slice )
    {
       for( int D {}; D < GLOBAL_MAX_INDEX_DIM; D++ )
@@ -3362,9 +3363,9 @@ int TGXFileObj::gdxDataReadSliceStart( int SyNr, int *ElemCounts )
 {
    //-- Note: PrepareSymbolRead checks for the correct status
    const auto XDomains = arrayWithValue<int, GLOBAL_MAX_INDEX_DIM>( DOMC_UNMAPPED );
-   SliceSyNr = SyNr;
    memset( ElemCounts, 0, sizeof( int ) * GLOBAL_MAX_INDEX_DIM );
-   if( PrepareSymbolRead( "DataReadSliceStart"s, SliceSyNr, XDomains.data(), fr_raw_data ) < 0 ) return false;
+   if( PrepareSymbolRead( "DataReadSliceStart"s, SyNr, XDomains.data(), fr_raw_data ) < 0 ) return false;
+   SliceSyNr = SyNr;
 
    TgdxValues Values;
    int FDim;
@@ -3696,8 +3697,11 @@ int TGXFileObj::gdxDataReadRawFastFilt( int SyNr, const char **UelFilterStr, TDa
 {
    gdxDataReadRawFastFilt_DP = DP;
    bool res {};
+   if( !MajorCheckMode( "gdxDataReadRawFastFilt"s, AnyReadMode ) ) return false;
+   // an unknown label must not end a read in progress
+   for( int D {}; D < gdxSymbolDim( SyNr ); D++ )
+      if( UelFilterStr[D][0] && UELTable->IndexOf( UelFilterStr[D] ) < 0 ) return false;
    const auto XDomains { arrayWithValue<int, GLOBAL_MAX_INDEX_DIM>( DOMC_UNMAPPED ) };
-   // -- Note: PrepareSymbolRead checks for the correct status
    const int NrRecs { PrepareSymbolRead( "gdxDataReadRawFastFilt"s, SyNr, XDomains.data(), fr_raw_data ) };
    if( NrRecs >= 0 )
    {
-- 
2.43.0


From 6edc11a4783221b41e118f2391861420d34bc0da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:41 +0000
Subject: [PATCH 34/97] fix: an unknown label does not end slice reading

---
 src/gxfile.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index 8437804..d9d9288 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -3415,7 +3415,6 @@ int TGXFileObj::gdxDataReadSlice( const char **UelFilterStr, int &Dimen, TDataSt
    TgdxUELIndex ElemNrs;
    for( int D {}; D < FCurrentDim; D++ )
    {
-      SliceElems[D] = UelFilterStr[D];
       if( !std::strlen( UelFilterStr[D] ) )
       {
          ElemNrs[D] = -1;
@@ -3427,8 +3426,10 @@ int TGXFileObj::gdxDataReadSlice( const char **UelFilterStr, int &Dimen, TDataSt
          if( ElemNrs[D] < 0 ) GoodIndx = false;
       }
    }
-   fmode = fr_init;
    if( !GoodIndx ) return false;
+   for( int D {}; D < FCurrentDim; D++ )
+      SliceElems[D] = UelFilterStr[D];
+   fmode = fr_init;
    const auto XDomains = arrayWithValue<int, GLOBAL_MAX_INDEX_DIM>( DOMC_UNMAPPED );
    if( PrepareSymbolRead( "DataReadSlice"s, SliceSyNr, XDomains.data(), fr_slice ) < 0 ) return false;
    TgdxValues Values;
-- 
2.43.0


From cc4483a1b0144fdf00f50ee5dbfa983ecde87be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:41 +0000
Subject: [PATCH 35/97] fix: relaxed domains can only be set while writing

---
 src/gxfile.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index d9d9288..e15f7c6 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -2601,7 +2601,8 @@ int TGXFileObj::gdxSymbolSetDomain( const char **DomainIDs )
 int TGXFileObj::gdxSymbolSetDomainX( int SyNr, const char **DomainIDs )
 {
    // check for write or append only
-   if( ErrorCondition( SyNr >= 1 && SyNr <= NameList->size(), ERR_BADSYMBOLINDEX ) ) return false;
+   if( !MajorCheckMode( "SymbolSetDomainX"s, AnyWriteMode ) ||
+       ErrorCondition( SyNr >= 1 && SyNr <= NameList->size(), ERR_BADSYMBOLINDEX ) ) return false;
    TgdxSymbRecord * const SyPtr = *NameList->GetObject( SyNr );
 
    if( verboseTrace && TraceLevel == TraceLevels::trl_all )
-- 
2.43.0


From f210edb864210a641203149b252669fb856941f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:42 +0000
Subject: [PATCH 36/97] fix: acronym, domain and length queries of a closed
 object are answered

---
 src/gxfile.cpp | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index e15f7c6..1e5b63c 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -2422,7 +2422,7 @@ int TGXFileObj::gdxSetSpecialValues( const double *AVals )
 
 int TGXFileObj::gdxSymbolGetDomain( int SyNr, int *DomainSyNrs )
 {
-   if( ErrorCondition( SyNr >= 1 && SyNr <= NameList->size(), ERR_BADSYMBOLINDEX ) ) return false;
+   if( ErrorCondition( NameList && SyNr >= 1 && SyNr <= NameList->size(), ERR_BADSYMBOLINDEX ) ) return false;
    const TgdxSymbRecord *SyPtr { ( *NameList->GetObject( SyNr ) ) };
    for( int D {}; D < SyPtr->SDim; D++ )
       DomainSyNrs[D] = !SyPtr->SDomSymbols ? 0 : SyPtr->SDomSymbols[D];
@@ -2431,7 +2431,7 @@ int TGXFileObj::gdxSymbolGetDomain( int SyNr, int *DomainSyNrs )
 
 int TGXFileObj::gdxSymbolGetDomainX( int SyNr, char **DomainIDs )
 {
-   if( ErrorCondition( !NameList->empty() && SyNr >= 1 && SyNr <= NameList->size(), ERR_BADSYMBOLINDEX ) ) return 0;
+   if( ErrorCondition( NameList && !NameList->empty() && SyNr >= 1 && SyNr <= NameList->size(), ERR_BADSYMBOLINDEX ) ) return 0;
    const TgdxSymbRecord *SyPtr { ( *NameList->GetObject( SyNr ) ) };
 
    for( int D {}; D < SyPtr->SDim; D++ )
@@ -3029,7 +3029,7 @@ int TGXFileObj::gdxAcronymCount() const
 
 int TGXFileObj::gdxAcronymGetInfo( int N, char *AName, char *Txt, int &AIndx ) const
 {
-   if( N < 1 || N > AcronymList->size() )
+   if( !AcronymList || N < 1 || N > AcronymList->size() )
    {
       AName[0] = Txt[0] = '\0';
       AIndx = 0;
@@ -3054,7 +3054,7 @@ int TGXFileObj::gdxAcronymSetInfo( int N, const char *AName, const char *Txt, in
    if( TraceLevel >= TraceLevels::trl_some )
       WriteTrace( "AcronymSetInfo: "s + AName + " index = " + rtl::sysutils_p3::IntToStr( AIndx ) ); // NOTE: Not covered by unit tests yet.
 
-   if( ErrorCondition( N >= 1 && N <= (int) AcronymList->size(), ERR_BADACRONUMBER ) ) return false;
+   if( ErrorCondition( AcronymList && N >= 1 && N <= (int) AcronymList->size(), ERR_BADACRONUMBER ) ) return false;
    if( auto &obj = ( *AcronymList )[N - 1];
       in( fmode, AnyWriteMode ) || obj.AcrAutoGen )
    {
@@ -3090,7 +3090,7 @@ int TGXFileObj::gdxAcronymGetMapping( int N, int &orgIndx, int &newIndx, int &au
 {
    if( TraceLevel >= TraceLevels::trl_some )
       WriteTrace( "AcronymGetMapping: N = "s + rtl::sysutils_p3::IntToStr( N ) ); // NOTE: Not covered by unit tests yet.
-   if( ErrorCondition( N >= 1 && N <= (int) AcronymList->size(), ERR_BADACRONUMBER ) ) return false;
+   if( ErrorCondition( AcronymList && N >= 1 && N <= (int) AcronymList->size(), ERR_BADACRONUMBER ) ) return false;
    const auto &obj = ( *AcronymList )[N - 1];
    orgIndx = obj.AcrMap;
    newIndx = obj.AcrReadMap;
@@ -3177,7 +3177,8 @@ int TGXFileObj::gdxSetTextNodeNr( int TxtNr, int Node )
 int TGXFileObj::gdxGetDomainElements( int SyNr, int DimPos, int FilterNr, TDomainIndexProc_t DP, int &NrElem, void *UPtr )
 {
    gdxGetDomainElements_DP = DP;
-   if( ErrorCondition( SyNr >= 1 && SyNr <= NameList->size(), ERR_BADSYMBOLINDEX ) ) return false;
+   if( !MajorCheckMode( "gdxGetDomain"s, AnyReadMode ) ||
+       ErrorCondition( SyNr >= 1 && SyNr <= NameList->size(), ERR_BADSYMBOLINDEX ) ) return false;
    int Dim { ( *NameList->GetObject( SyNr ) )->SDim };
    if( !Dim || ErrorCondition( DimPos >= 1 && DimPos <= Dim, ERR_BADDIMENSION ) ) return false;
    const TDFilter *DFilter = FilterNr == DOMC_EXPAND ? nullptr : FilterList->FindFilter( FilterNr );
@@ -3285,6 +3286,7 @@ int TGXFileObj::gdxSetTraceLevel( int N, const char *s )
 
 int TGXFileObj::gdxAcronymAdd( const char *AName, const char *Txt, int AIndx )
 {
+   if( ErrorCondition( AcronymList != nullptr, ERR_BADMODE ) ) return -1;
    for( int N {}; N < (int) AcronymList->size(); N++ )
    {
       const auto &obj = ( *AcronymList )[N];
@@ -3316,7 +3318,7 @@ int TGXFileObj::gdxAcronymName( double V, char *AName )
       AName[0] = '\0';
    else
    {
-      const int N { AcronymList->FindEntry( Indx ) };
+      const int N { AcronymList ? AcronymList->FindEntry( Indx ) : -1 };
       assignStrToBuf( N < 0 ? "UnknownAcronym"s + rtl::sysutils_p3::IntToStr( Indx ) : ( *AcronymList )[N].AcrName, AName, GMS_SSSIZE );
       return true;
    }
@@ -3603,7 +3605,7 @@ int TGXFileObj::gdxSymbIndxMaxLength( int SyNr, int *LengthInfo )
 int TGXFileObj::gdxSymbMaxLength() const
 {
    int acc {};
-   for( int N { 1 }; N <= NameList->Count(); N++ )
+   for( int N { 1 }; NameList && N <= NameList->Count(); N++ )
       acc = std::max<int>( acc, static_cast<int>( std::strlen( NameList->GetString( N ) ) ) );
    return acc;
 }
@@ -3645,7 +3647,7 @@ int TGXFileObj::gdxSymbolGetComment( int SyNr, int N, char *Txt )
 
 int TGXFileObj::gdxUELMaxLength() const
 {
-   return UELTable->GetMaxUELLength();
+   return UELTable ? UELTable->GetMaxUELLength() : 0;
 }
 
 int TGXFileObj::gdxUMFindUEL( const char *Uel, int &UelNr, int &UelMap )
-- 
2.43.0


From 2ca0a91b9584c33e8a356d14dc4476e19e3cb9f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:42 +0000
Subject: [PATCH 37/97] fix: raw keys that cannot be stored are refused

---
 src/gxfile.cpp | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index 1e5b63c..d692e16 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -1257,7 +1257,8 @@ bool TGXFileObj::DoWrite( const int *AElements, const double *AVals )
       debugStream << '\n';
    }
 
-   int FDim { FCurrentDim + 1 }, delta {};
+   int FDim { FCurrentDim + 1 };
+   int64_t delta {};
    for( int D {}; D < FCurrentDim; D++ )
    {
       if( WrBitMaps[D] && !accessBitMap( *WrBitMaps[D], AElements[D] ) )
@@ -1279,7 +1280,7 @@ bool TGXFileObj::DoWrite( const int *AElements, const double *AVals )
    }
    for( int D {}; D < FCurrentDim; D++ )
    {
-      delta = AElements[D] - LastElem[D];
+      delta = static_cast<int64_t>( AElements[D] ) - LastElem[D];
       if( delta )
       {
          FDim = D + 1;// plus one to match Delphi semantics
@@ -1304,7 +1305,22 @@ bool TGXFileObj::DoWrite( const int *AElements, const double *AVals )
          AddToErrorList( AElements, AVals );
          return false;
       }
-      if( FDim == FCurrentDim && delta <= DeltaForWrite )
+      const bool smallChange { FDim == FCurrentDim && delta <= DeltaForWrite };
+      for( int D { FDim - 1 }; D < FCurrentDim && !smallChange; D++ )
+      {
+         // keys outside of the announced bounds can only be stored as far as the element size allows
+         const bool isInt { ElemType[D] == TgdxElemSize::sz_integer };
+         const int64_t v { static_cast<int64_t>( AElements[D] ) - MinElem[D] },
+                 lower { isInt ? std::numeric_limits<int>::min() : 0 },
+                 upper { isInt ? std::numeric_limits<int>::max() : ElemType[D] == TgdxElemSize::sz_word ? 65535 : 255 };
+         if( v < lower || v > upper )
+         {
+            ReportError( ERR_BADELEMENTINDEX );
+            AddToErrorList( AElements, AVals );
+            return false;
+         }
+      }
+      if( smallChange )
       {// small change in last dimension
          assert(FCurrentDim >= 1 && FCurrentDim < 21);
          FFile->WriteByte( ui8(FCurrentDim + delta) );
-- 
2.43.0


From 407605d002d3d98f4b875f73eb40128b29c1c899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:42 +0000
Subject: [PATCH 38/97] fix: mapped reading ends after the last record

---
 src/gxfile.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index d692e16..3c451d0 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -2880,7 +2880,11 @@ int TGXFileObj::gdxDataReadMap( [[maybe_unused]] int RecNr, int *KeyInt, double
    if( fmode == fr_map_data )
    {
       DimFrst = 0;
-      if( !ReadPtr || !SortList->GetNextRecord( &*ReadPtr, KeyInt, Values ) ) return false;
+      if( !ReadPtr || !SortList->GetNextRecord( &*ReadPtr, KeyInt, Values ) )
+      {
+         gdxDataReadDone();
+         return false;
+      }
       // checking mapped values
       for( int D {}; D < FCurrentDim; D++ )
       {
@@ -2902,7 +2906,12 @@ int TGXFileObj::gdxDataReadMap( [[maybe_unused]] int RecNr, int *KeyInt, double
    int FIDim { FCurrentDim };
 
 again:
-   if( !DoRead( Values, DimFrst ) ) return false;
+   if( !DoRead( Values, DimFrst ) )
+   {
+      // another call must not take what follows the last record for data
+      gdxDataReadDone();
+      return false;
+   }
    if( FIDim < DimFrst ) DimFrst = FIDim;
    FIDim = FCurrentDim;
    if( DimFrst > 0 )
-- 
2.43.0


From 4667d5a4ca3cfe13799ecd016e3f89c5ba5b2c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:42 +0000
Subject: [PATCH 39/97] fix: no overflow in the size of a bit array

---
 src/gdlib/gmsobj.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gdlib/gmsobj.hpp b/src/gdlib/gmsobj.hpp
index 5f033c1..91029e2 100644
--- a/src/gdlib/gmsobj.hpp
+++ b/src/gdlib/gmsobj.hpp
@@ -350,7 +350,7 @@ public:
    {
       if( V > FHighIndex )
       {
-         if( int NewMemSize { ( V + 8 ) / 8 }; NewMemSize > FAllocated )
+         if( int NewMemSize { V / 8 + 1 }; NewMemSize > FAllocated )
          {
             int Delta {};
             do {
-- 
2.43.0


From 80e7c24b603a59ac3bf922b70617e7fb42e402c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:42 +0000
Subject: [PATCH 40/97] fix: clearing a bit leaves its neighbours alone

---
 src/gdlib/gmsobj.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gdlib/gmsobj.hpp b/src/gdlib/gmsobj.hpp
index 91029e2..6858bb0 100644
--- a/src/gdlib/gmsobj.hpp
+++ b/src/gdlib/gmsobj.hpp
@@ -394,7 +394,7 @@ public:
          GetBitMask( N, P, M );
          if( V ) PData[P] |= M;
          else
-            PData[P] &= !M;
+            PData[P] &= ~M;
       }
    }
 
-- 
2.43.0


From a9f6abfcb155bfdf59aa6ae8a9b1c324b3ea0b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:42 +0000
Subject: [PATCH 41/97] fix: the number of labels added by a mapped read does
 not outlive the file

---
 src/gxfile.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index 3c451d0..622f4ec 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -554,6 +554,7 @@ void TGXFileObj::ReleaseTables()
    FilterList = nullptr;
    AcronymList = nullptr;
    MapSetText.clear();
+   NrMappedAdded = 0;
 }
 
 int TGXFileObj::gdxClose()
@@ -1169,6 +1170,7 @@ int TGXFileObj::PrepareSymbolRead( const std::string_view Caller, int SyNr, cons
       // NOTE: Not covered by unit tests yet.
       SetError( ERR_OUT_OF_MEMORY );
       SortList = nullptr;
+      NrMappedAdded = 0;
       fmode = fr_init;
       return -1;
    }
-- 
2.43.0


From caea3ca99fd096d84ca677647129e4e6a2d8d3f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:46 +0000
Subject: [PATCH 42/97] fix: short strings never outgrow their buffer

---
 src/tools/library/short_string.cpp | 28 ++++++++++------------------
 1 file changed, 10 insertions(+), 18 deletions(-)

diff --git a/src/tools/library/short_string.cpp b/src/tools/library/short_string.cpp
index 57aade5..057a6b8 100644
--- a/src/tools/library/short_string.cpp
+++ b/src/tools/library/short_string.cpp
@@ -1,4 +1,5 @@
 // #include <cassert>
+#include <algorithm>
 #include <cstddef>
 #include <cstring>
 #include <ostream>
@@ -15,11 +16,8 @@ ShortString::ShortString() {
 }
 
 ShortString::ShortString(const char *s) {
-  const std::size_t s_length{std::strlen(s)};
-
-#if defined(ENABLE_ASSERTIONS)
-  assert(s_length < GMS_SSSIZE);
-#endif
+  // longer strings are shortened to what the buffer can hold
+  const std::size_t s_length{std::min<std::size_t>(std::strlen(s), GMS_SSSIZE - 1)};
 
   std::memcpy(buffer.data(), s, s_length);
   buffer[s_length] = '\0';
@@ -96,9 +94,9 @@ void ShortString::clear() {
 void ShortString::append(const char c) {
   const std::uint8_t length{this->length()};
 
-#if defined(ENABLE_ASSERTIONS)
-  assert(length + 1 < GMS_SSSIZE);
-#endif
+  if (length + 1 >= GMS_SSSIZE) {
+    return;
+  }
 
   buffer[length] = c;
   buffer[length + 1] = '\0';
@@ -106,11 +104,8 @@ void ShortString::append(const char c) {
 
 void ShortString::append(const char *s) {
   const std::uint8_t length{this->length()};
-  const std::size_t s_length{std::strlen(s)};
-
-#if defined(ENABLE_ASSERTIONS)
-  assert(length + s_length < GMS_SSSIZE);
-#endif
+  // longer strings are shortened to what the buffer can hold
+  const std::size_t s_length{std::min<std::size_t>(std::strlen(s), GMS_SSSIZE - 1 - length)};
 
   std::memcpy(buffer.data() + length, s, s_length);
   buffer[length + s_length] = '\0';
@@ -147,11 +142,8 @@ void ShortString::to_upper_case() {
 }
 
 ShortString &ShortString::operator=(const std::string &s) {
-  const std::size_t s_length{s.length()};
-
-#if defined(ENABLE_ASSERTIONS)
-  assert(s_length < GMS_SSSIZE);
-#endif
+  // longer strings are shortened to what the buffer can hold
+  const std::size_t s_length{std::min<std::size_t>(s.length(), GMS_SSSIZE - 1)};
 
   std::memcpy(buffer.data(), s.data(), s_length);
   buffer[s_length] = '\0';
-- 
2.43.0


From cc88c518c07289a5862296c08cc3f889aa5a2ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:46 +0000
Subject: [PATCH 43/97] fix: gdxdump writes all acronyms

---
 src/tools/gdxdump/gdxdump.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/gdxdump/gdxdump.cpp b/src/tools/gdxdump/gdxdump.cpp
index 827d7a6..d7012f3 100644
--- a/src/tools/gdxdump/gdxdump.cpp
+++ b/src/tools/gdxdump/gdxdump.cpp
@@ -989,7 +989,7 @@ void WriteAcronyms() {
   }
 
   fo << '\n';
-  for (int N{}; N < Cnt; N++) {
+  for (int N{1}; N <= Cnt; N++) {
     gdxAcronymGetInfo(PGX, N, sName.data(), sText.data(), &Indx);
     fo << "Acronym " << sName.data();
     if (!sText.empty()) {
-- 
2.43.0


From 36cbd95a5202df0ea97cfc9af29c03666cde3f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:46 +0000
Subject: [PATCH 44/97] fix: gdxdump SetText covers the last symbol

---
 src/tools/gdxdump/gdxdump.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/gdxdump/gdxdump.cpp b/src/tools/gdxdump/gdxdump.cpp
index d7012f3..90172ea 100644
--- a/src/tools/gdxdump/gdxdump.cpp
+++ b/src/tools/gdxdump/gdxdump.cpp
@@ -880,7 +880,7 @@ void WriteSetText() {
   // Now find the max textIdx stored for any set element
   mxTextIdx = 0;
   gdxSystemInfo(PGX, &nSyms, &idummy);
-  for (int iSym{}; iSym < nSyms; iSym++) {
+  for (int iSym{1}; iSym <= nSyms; iSym++) {
     gdxSymbolInfo(PGX, iSym, s.data(), &symDim, &symTyp);
     if (static_cast<gdxSyType>(symTyp) != dt_set) {
       continue;
-- 
2.43.0


From f89868a038d9d70d9212a6d2b93419686e48f4fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:46 +0000
Subject: [PATCH 45/97] fix: gdxdump CSV column names of repeated domains are
 distinct

---
 src/tools/gdxdump/gdxdump.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/gdxdump/gdxdump.cpp b/src/tools/gdxdump/gdxdump.cpp
index 90172ea..46fad81 100644
--- a/src/tools/gdxdump/gdxdump.cpp
+++ b/src/tools/gdxdump/gdxdump.cpp
@@ -582,7 +582,7 @@ void WriteSymbolCSV(const int SyNr) {
       }
       while (true) {
         Done = true;
-        for (int DD{}; DD < D - 1; DD++) {
+        for (int DD{}; DD < D; DD++) {
           if (s == DomSPtrs[DD]) {
             Done = false;
             break;
-- 
2.43.0


From a069e0bca3edae800873ba92f7a373b338124c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:46 +0000
Subject: [PATCH 46/97] fix: gdxdump CSV handles labels without text in the
 column dimension

---
 src/tools/gdxdump/gdxdump.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/tools/gdxdump/gdxdump.cpp b/src/tools/gdxdump/gdxdump.cpp
index 46fad81..39d1990 100644
--- a/src/tools/gdxdump/gdxdump.cpp
+++ b/src/tools/gdxdump/gdxdump.cpp
@@ -32,6 +32,7 @@
 #include <map>
 #include <memory>
 #include <string_view>
+#include <vector>
 
 #include "gdlib/dblutil.hpp"
 #include "gdlib/strutilx.hpp"
@@ -601,7 +602,7 @@ void WriteSymbolCSV(const int SyNr) {
   library::ShortString SyName, S;
   int iATyp, NRec, FDim, IDum, Col, ColCnt, NrSymb, NrUEL, HighIndex, Indx;
   gdxSyType ATyp;
-  std::unique_ptr<bool[]> CSVCols;
+  std::vector<bool> CSVCols;
   std::unique_ptr<int[]> CSVUels;
   gdxUelIndex_t Keys{};
   gdxValues_t Vals{};
@@ -690,14 +691,15 @@ void WriteSymbolCSV(const int SyNr) {
       fo << '\n';
     }
   } else {
-    CSVCols = std::make_unique<bool[]>(NrUEL);
-    // TODO: Check this, could be redundant
-    std::fill_n(CSVCols.get(), NrUEL, false);
     HighIndex = 0;
     ColCnt = 0;
     gdxDataReadRawStart(PGX, SyNr, &NRec);
     while (gdxDataReadRaw(PGX, Keys, Vals, &FDim) != 0) {
       Indx = Keys[ADim - 1];
+      // elements without a string representation lie beyond the last UEL
+      if (Indx > static_cast<int>(CSVCols.size())) {
+        CSVCols.resize(std::max(Indx, NrUEL));
+      }
       if (!CSVCols[Indx - 1]) {
         CSVCols[Indx - 1] = true;
         ColCnt++;
-- 
2.43.0


From 78c8f0b2f6461355924e9d87aad8eedb64fc41f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:46 +0000
Subject: [PATCH 47/97] fix: gdxdump quotes element texts containing quotes

---
 src/tools/gdxdump/gdxdump.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/gdxdump/gdxdump.cpp b/src/tools/gdxdump/gdxdump.cpp
index 39d1990..aa6116b 100644
--- a/src/tools/gdxdump/gdxdump.cpp
+++ b/src/tools/gdxdump/gdxdump.cpp
@@ -128,7 +128,7 @@ void WriteQText(const std::string &S, const bool checkParenthesis) {
 // Check if UEL associated text needs to be quoted
 void WriteQUELText(const std::string &S) {
   WriteQuotedCommon(S, [](const char c) {
-    return utils::in(c, ' ', ',', ';', '/', '$', '=', '*');
+    return utils::in(c, ' ', ',', ';', '/', '$', '=', '*', '\'', '\"');
   });
 }
 
-- 
2.43.0


From 03d227990038b25d66e0d53bb41f5a77e352924e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:46 +0000
Subject: [PATCH 48/97] fix: gdxdump comments begin on their own line

---
 src/tools/gdxdump/gdxdump.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/tools/gdxdump/gdxdump.cpp b/src/tools/gdxdump/gdxdump.cpp
index aa6116b..c4210b2 100644
--- a/src/tools/gdxdump/gdxdump.cpp
+++ b/src/tools/gdxdump/gdxdump.cpp
@@ -364,12 +364,16 @@ void WriteSymbol(const int SyNr) {
     LineCount++;
   };
 
-  auto WriteComments = [&]() {
+  auto WriteComments = [&](const bool atLineStart) {
     library::ShortString S;
     for (int N{1}; N <= std::numeric_limits<int>::max(); N++) {
       if (gdxSymbolGetComment(PGX, SyNr, N, S.data()) == 0) {
         break;
       }
+      // an asterisk marks a comment in the first column only
+      if (N == 1 && !atLineStart) {
+        fo << '\n';
+      }
       fo << "* " << S.data() << '\n';
     }
   };
@@ -484,10 +488,10 @@ void WriteSymbol(const int SyNr) {
   if (ACount == 0 && ShowData) {
     if (IsScalar) {
       fo << " / 0.0 /;\n";
-      WriteComments();
+      WriteComments(true);
     } else if (ShowHdr && ATyp != dt_alias) {
       fo << " / /;\n";
-      WriteComments();
+      WriteComments(true);
     }
   } else {
     if (ShowHdr && ShowData) {
@@ -496,7 +500,7 @@ void WriteSymbol(const int SyNr) {
         fo << '\n';
       }
     }
-    WriteComments();
+    WriteComments(!ShowHdr || (ShowData && ADim > 0));
     if (!ShowData) {
       if (ATyp != dt_alias) {
         if (ACount == 0) {
-- 
2.43.0


From 05cb131295d7a19b579e36ea661148b2a8932566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:46 +0000
Subject: [PATCH 49/97] fix: the decimal separator is applied to numbers in
 exponent notation

---
 src/gdlib/strutilx.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gdlib/strutilx.cpp b/src/gdlib/strutilx.cpp
index 9807e62..74bd67b 100644
--- a/src/gdlib/strutilx.cpp
+++ b/src/gdlib/strutilx.cpp
@@ -302,6 +302,7 @@ static uint8_t DblToStrSepCore(double V, const char DecimalSep, char *s)
    else
    {
       assert(k >= 0);
+      s[j] = DecimalSep;
       if( s[k] == '+' )
          s[k] = ' ';
       for( int i = k + 1; i < slen; i++ )
-- 
2.43.0


From e784299bdcd1ca5b15d1388c6740c5708d46c1ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:46 +0000
Subject: [PATCH 50/97] fix: gdxdiff finds the default record of every variable
 and equation type

---
 src/tools/gdxdiff/gdxdiff.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/tools/gdxdiff/gdxdiff.cpp b/src/tools/gdxdiff/gdxdiff.cpp
index e57c664..9ce3f73 100644
--- a/src/tools/gdxdiff/gdxdiff.cpp
+++ b/src/tools/gdxdiff/gdxdiff.cpp
@@ -571,12 +571,14 @@ void CompareSy(const int Sy1, const int Sy2) {
 #endif
 
   // Create default record for this type
-  if (ST == dt_var || ST == dt_equ) {
-    if (ST == dt_var) {
-      std::copy(std::begin(gmsDefRecVar[VarEquType]), std::end(gmsDefRecVar[VarEquType]), std::begin(DefValues));
-    } else {
-      std::copy(std::begin(gmsDefRecEqu[VarEquType]), std::end(gmsDefRecEqu[VarEquType]), std::begin(DefValues));
-    }
+  if (ST == dt_var) {
+    const int varType{VarEquType >= 0 && VarEquType < GMS_VARTYPE_MAX ? VarEquType : GMS_VARTYPE_UNKNOWN};
+    std::copy(std::begin(gmsDefRecVar[varType]), std::end(gmsDefRecVar[varType]), std::begin(DefValues));
+  } else if (ST == dt_equ) {
+    // the user information of an equation is its type plus an offset
+    const int offsetType{VarEquType - GMS_EQU_USERINFO_BASE};
+    const int equType{offsetType >= 0 && offsetType < GMS_EQUTYPE_MAX ? offsetType : GMS_EQUTYPE_E};
+    std::copy(std::begin(gmsDefRecEqu[equType]), std::end(gmsDefRecEqu[equType]), std::begin(DefValues));
   }
 
   if (Dim >= GMS_MAX_INDEX_DIM || (DiffOnly && Dim - 1 >= GMS_MAX_INDEX_DIM)) {
-- 
2.43.0


From 9c360b69a7cb8dbe66192b40b1c460d5fbecdb15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:46 +0000
Subject: [PATCH 51/97] fix: gdxdiff renames the list of compared files when
 the name is taken

---
 src/tools/gdxdiff/gdxdiff.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/gdxdiff/gdxdiff.cpp b/src/tools/gdxdiff/gdxdiff.cpp
index 9ce3f73..078a2ec 100644
--- a/src/tools/gdxdiff/gdxdiff.cpp
+++ b/src/tools/gdxdiff/gdxdiff.cpp
@@ -1103,7 +1103,7 @@ int main(const int argc, const char *argv[]) {
     do {
       ID = "FilesCompared";
       if (N > 0) {
-        ID += std::to_string('_') + std::to_string(N);
+        ID += "_" + std::to_string(N);
       }
       if (gdxFindSymbol(PGXDIF, ID.data(), &NN) == 0) {
         break;
-- 
2.43.0


From 387df9afcd916deb10d6713fdfa9ae2a3a19322e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:46 +0000
Subject: [PATCH 52/97] fix: gdxdiff DiffOnly refuses symbols that would exceed
 the maximum dimension

---
 src/tools/gdxdiff/gdxdiff.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/gdxdiff/gdxdiff.cpp b/src/tools/gdxdiff/gdxdiff.cpp
index 078a2ec..3599554 100644
--- a/src/tools/gdxdiff/gdxdiff.cpp
+++ b/src/tools/gdxdiff/gdxdiff.cpp
@@ -581,7 +581,7 @@ void CompareSy(const int Sy1, const int Sy2) {
     std::copy(std::begin(gmsDefRecEqu[equType]), std::end(gmsDefRecEqu[equType]), std::begin(DefValues));
   }
 
-  if (Dim >= GMS_MAX_INDEX_DIM || (DiffOnly && Dim - 1 >= GMS_MAX_INDEX_DIM)) {
+  if (Dim >= GMS_MAX_INDEX_DIM || (DiffOnly && (ST == dt_var || ST == dt_equ) && Dim + 1 >= GMS_MAX_INDEX_DIM)) {
     Status = StatusCode::sc_dim10;
   }
 
-- 
2.43.0


From 18b3a196351ba4763e76ed7372395ca5e4c175ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:47 +0000
Subject: [PATCH 53/97] fix: gdxdiff compares records using the label ins1

---
 src/tools/gdxdiff/gdxdiff.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tools/gdxdiff/gdxdiff.cpp b/src/tools/gdxdiff/gdxdiff.cpp
index 3599554..b9e1eb9 100644
--- a/src/tools/gdxdiff/gdxdiff.cpp
+++ b/src/tools/gdxdiff/gdxdiff.cpp
@@ -161,7 +161,7 @@ void RegisterDiffUELs() {
 
   gdxUELRegisterStrStart(PGXDIF);
   int d;
-  for (int N{}; N < maxUEL; N++) {
+  for (int N{1}; N <= maxUEL; N++) {
     gdxUELRegisterStr(PGXDIF, UELTable->GetString(N), &d);
   }
   gdxUELRegisterDone(PGXDIF);
@@ -216,7 +216,7 @@ void CompareSy(const int Sy1, const int Sy2) {
     RegisterDiffUELs();
     for (int D{}; D < Dim; D++) {
       // TODO: Improve this check (especially the else case)
-      if (Keys[D] < UELTable->Count()) {
+      if (Keys[D] <= UELTable->Count()) {
         std::strcpy(StrKeysPtrs[D], UELTable->GetString(Keys[D]));
       } else {
         std::snprintf(StrKeysPtrs[D], GMS_SSSIZE, "L__%d", Keys[D]);
@@ -1018,7 +1018,7 @@ int main(const int argc, const char *argv[]) {
   }
 
   UELTable = std::make_unique<gdlib::strhash::TXStrHashList<std::nullptr_t>>();
-  // UELTable->OneBased = true;
+  UELTable->OneBased = true;
   gdxStoreDomainSetsSet(PGXDIF, 0);
 
   UELTable->Add(c_ins1.data(), c_ins1.length());
-- 
2.43.0


From beb76b182553a8612b315c7dd65c5dc7fed27cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:49 +0000
Subject: [PATCH 54/97] fix: gdxmerge compares the names given to id and
 exclude without regard to case

---
 src/tools/gdxmerge/gdxmerge.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tools/gdxmerge/gdxmerge.cpp b/src/tools/gdxmerge/gdxmerge.cpp
index 1daf28b..1c9413f 100644
--- a/src/tools/gdxmerge/gdxmerge.cpp
+++ b/src/tools/gdxmerge/gdxmerge.cpp
@@ -23,6 +23,7 @@
  * SOFTWARE.
  */
 
+#include <algorithm>
 #include <cstring>
 #include <iomanip>
 #include <iostream>
@@ -124,7 +125,7 @@ int SymbolList::AddUEL(const library::ShortString &S) {
 
 int SymbolList::AddSymbol(const std::string &AName, const int ADim, const gdxSyType AType, const int ASubTyp) {
   auto is_in_list = [](const std::vector<std::string> &list, const std::string &value) {
-    return std::find(list.begin(), list.end(), value) != list.end();
+    return std::any_of(list.begin(), list.end(), [&](const std::string &item) { return gdlib::strutilx::StrUEqual(item, value); });
   };
 
   if ((!IncludeList.empty() && !is_in_list(IncludeList, AName)) ||
-- 
2.43.0


From d5cb3fcb2b9d0913ab3939a0747f9a4c3f1d886a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:49 +0000
Subject: [PATCH 55/97] fix: gdxmerge counts every input file once in big mode

---
 src/tools/gdxmerge/gdxmerge.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/tools/gdxmerge/gdxmerge.cpp b/src/tools/gdxmerge/gdxmerge.cpp
index 1c9413f..9fa5d6d 100644
--- a/src/tools/gdxmerge/gdxmerge.cpp
+++ b/src/tools/gdxmerge/gdxmerge.cpp
@@ -180,7 +180,10 @@ void SymbolList::AddPGXFile(const int FNr, const ProcessPass Pass) {
     library::printErrorMessage("\nError reading file, message: " + ErrMsg);
     return;
   }
-  InputFilesRead++;
+  // With big symbols every file is visited more than once
+  if (Pass == ProcessPass::RpDoAll || Pass == ProcessPass::RpScan) {
+    InputFilesRead++;
+  }
 
   ShareAcronyms(PGX);
 
-- 
2.43.0


From 3b4ae43f7a81740a73d880125aa4e99b1c9419b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:49 +0000
Subject: [PATCH 56/97] fix: gdxmerge leaves out only the unreadable file in
 big mode

---
 src/tools/gdxmerge/gdxmerge.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tools/gdxmerge/gdxmerge.cpp b/src/tools/gdxmerge/gdxmerge.cpp
index 9fa5d6d..9cadddd 100644
--- a/src/tools/gdxmerge/gdxmerge.cpp
+++ b/src/tools/gdxmerge/gdxmerge.cpp
@@ -178,6 +178,7 @@ void SymbolList::AddPGXFile(const int FNr, const ProcessPass Pass) {
   if (ErrNr != 0) {
     gdxErrorStr(PGX, ErrNr, ErrMsg.data());
     library::printErrorMessage("\nError reading file, message: " + ErrMsg);
+    gdxFree(&PGX);
     return;
   }
   // With big symbols every file is visited more than once
@@ -329,7 +330,8 @@ bool SymbolList::CollectBigOne(const int SyNr) {
     if (ErrNr != 0) {
       gdxErrorStr(PGX, ErrNr, ErrMsg.data());
       library::printErrorMessage("Error reading file, message: " + ErrMsg);
-      return false;
+      gdxFree(&PGX);
+      continue;
     }
 
     if (gdxFindSymbol(PGX, gdlib::gmsobj::TXHashedStringList<GAMSSymbol>::GetString(SyNr), &N) > 0) {
-- 
2.43.0


From 17cc4c8d4846f3e2331309e357c99553a3a0d4ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:49 +0000
Subject: [PATCH 57/97] fix: gdxmerge merges big symbols like the others

---
 src/tools/gdxmerge/gdxmerge.cpp | 43 ++++++++++++++++++++++++++++-----
 1 file changed, 37 insertions(+), 6 deletions(-)

diff --git a/src/tools/gdxmerge/gdxmerge.cpp b/src/tools/gdxmerge/gdxmerge.cpp
index 9cadddd..193bd65 100644
--- a/src/tools/gdxmerge/gdxmerge.cpp
+++ b/src/tools/gdxmerge/gdxmerge.cpp
@@ -299,7 +299,7 @@ void SymbolList::AddPGXFile(const int FNr, const ProcessPass Pass) {
 
 bool SymbolList::CollectBigOne(const int SyNr) {
   gdxHandle_t PGX;
-  int N, NrRecs, FDim, D, INode, ErrNr, FNr;
+  int N, NrRecs, FDim, D, INode, ErrNr, FNr, Dim, SyITyp, SySubTyp, DummyCount;
   GAMSSymbol *SyObj;
 
   gdxStrIndex_t IndxS{};
@@ -308,7 +308,7 @@ bool SymbolList::CollectBigOne(const int SyNr) {
 
   gdxUelIndex_t IndxI{};
   gdxValues_t Vals{};
-  library::ShortString Txt, ErrMsg, FileName, FileId;
+  library::ShortString Txt, ErrMsg, FileName, FileId, SyName, SyText;
 
   SyObj = gdlib::gmsobj::TXHashedStringList<GAMSSymbol>::GetObject(SyNr);
   if (!SyObj->SyData) {
@@ -335,13 +335,44 @@ bool SymbolList::CollectBigOne(const int SyNr) {
     }
 
     if (gdxFindSymbol(PGX, gdlib::gmsobj::TXHashedStringList<GAMSSymbol>::GetString(SyNr), &N) > 0) {
-      // We did this already in AddPGXFile:
-      // ShareAcronyms(PGX);
+      gdxSymbolInfo(PGX, N, SyName.data(), &Dim, &SyITyp);
+      gdxSymbolInfoX(PGX, N, &DummyCount, &SySubTyp, SyText.data());
+      const gdxSyType SyTyp{SyITyp == GMS_DT_ALIAS ? dt_set : gdxSyType(SyITyp)};
+
+      auto CheckError = [&](const bool Cnd, const std::string &Msg) -> bool {
+        if (!Cnd) {
+          FErrorCount++;
+          library::printErrorMessage("\n**** Error in file " + FileName);
+          library::printErrorMessage("     " + Msg + ": " + SyName);
+        }
+        return !Cnd;
+      };
+
+      // A dimension that is too large was reported already in AddPGXFile
+      if (Dim >= GMS_MAX_INDEX_DIM ||
+          CheckError(Dim + 1 == SyObj->SyDim, "Dimensions do not match") ||
+          CheckError(SyTyp == SyObj->SyTyp, "Types do not match") ||
+          ((SyTyp == dt_var || SyTyp == dt_equ) &&
+           CheckError(SySubTyp == SyObj->SySubTyp, "Var/Equ subtypes do not match"))) {
+        gdxClose(PGX);
+        gdxFree(&PGX);
+        continue;
+      }
+
+      if (SyObj->SyExplTxt.empty()) {
+        SyObj->SyExplTxt = SyText;
+      } else if (!SyText.empty()) {
+        CheckError(SyObj->SyExplTxt == SyText, "Explanatory text is different");
+      }
+
+      ShareAcronyms(PGX);
       IndxI[0] = AddUEL(FileId);
       gdxDataReadStrStart(PGX, N, &NrRecs);
       while (gdxDataReadStr(PGX, IndxSPtrs, Vals, &FDim) != 0) {
-        for (D = FDim - 1; D <= SyObj->SyDim; D++) {
-          IndxI[D + 1] = AddUEL(library::ShortString{IndxSPtrs[D]});
+        if (Dim > 0) {
+          for (D = FDim - 1; D < Dim; D++) {
+            IndxI[D + 1] = AddUEL(library::ShortString{IndxSPtrs[D]});
+          }
         }
         if (SyObj->SyTyp == dt_set && Vals[GMS_VAL_LEVEL] != 0) {
           gdxGetElemText(PGX, utils::round<int>(Vals[GMS_VAL_LEVEL]), Txt.data(), &INode);
-- 
2.43.0


From bda51dea28b62ed127030ecaf3900ead61b6133f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:49 +0000
Subject: [PATCH 58/97] fix: random string of the stream header computed
 without signed overflow

---
 src/gdlib/gmsstrm.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gdlib/gmsstrm.cpp b/src/gdlib/gmsstrm.cpp
index a0f2d52..2834364 100644
--- a/src/gdlib/gmsstrm.cpp
+++ b/src/gdlib/gmsstrm.cpp
@@ -472,7 +472,7 @@ bool TXFileStream::GetUsesPassWord() const
 
 std::string TXFileStream::RandString( int L )
 {
-   int Seed {};
+   uint32_t Seed {};// unsigned, the products exceed the range of an int
    auto RandCh = [&]() {
       Seed = ( Seed * 12347 + 1023 ) & 0x7FFFFFF;
       return static_cast<char>( Seed & 0xFF );
-- 
2.43.0


From a2af77bebf4444144a47527eabd6255d913926d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:49 +0000
Subject: [PATCH 59/97] fix: WriteGmsInteger and ReadGmsInteger handle the
 extreme values

---
 src/gdlib/gmsstrm.cpp | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/gdlib/gmsstrm.cpp b/src/gdlib/gmsstrm.cpp
index 2834364..781d82c 100644
--- a/src/gdlib/gmsstrm.cpp
+++ b/src/gdlib/gmsstrm.cpp
@@ -917,15 +917,16 @@ void TMiBufferedStream::WriteGmsInteger( int N )
 #endif
 
    uint8_t B { static_cast<uint8_t>( N >= 0 ? 0 : 128 ) };
-   if( N < 0 ) N = -N;
-   B |= N & 15;
-   N >>= 4;
+   // unsigned, the smallest integer has no positive counterpart
+   uint32_t U { N < 0 ? 0u - static_cast<uint32_t>( N ) : static_cast<uint32_t>( N ) };
+   B |= U & 15;
+   U >>= 4;
    int C {};
    std::array<uint8_t, 5> W {};
-   while( N )
+   while( U )
    {
-      W[++C] = ui8(N & 255);
-      N >>= 8;
+      W[++C] = ui8(U & 255);
+      U >>= 8;
    }
    W[0] = ui8(B | C << 4);
    Write( W.data(), C + 1 );
@@ -1025,17 +1026,17 @@ int TMiBufferedStream::ReadGmsInteger()
    std::array<uint8_t, 5> W {};
    W[0] = B & 15;
    const bool Neg = B >= 128;
-   global::delphitypes::Bounded<int, 0, 6> C { ( B >> 4 ) & 7 };
+   // no integer needs more than the four bytes following the first one
+   int C { std::min( ( B >> 4 ) & 7, static_cast<int>( W.size() ) - 1 ) };
    if( C > 0 ) Read( &W[1], C );
-   int res {};
+   uint32_t res {};
    while( C >= 1 )
    {
       res = ( res << 8 ) | W[C];
       --C;
    }
    res = ( res << 4 ) | W[0];
-   if( Neg ) res *= -1;
-   return res;
+   return static_cast<int>( Neg ? 0u - res : res );
 }
 
 double TMiBufferedStream::ReadGmsDouble()
-- 
2.43.0


From 221728dc915ec72e63306e3233864f757e0c66bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:49 +0000
Subject: [PATCH 60/97] fix: GetLastIOResult of a gzip stream without file
 stream

---
 src/gdlib/gmsstrm.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gdlib/gmsstrm.cpp b/src/gdlib/gmsstrm.cpp
index 781d82c..bdf402b 100644
--- a/src/gdlib/gmsstrm.cpp
+++ b/src/gdlib/gmsstrm.cpp
@@ -1323,6 +1323,6 @@ void TBinaryTextFileIO::ReWind()
 
 int TBinaryTextFileIO::GetLastIOResult()
 {
-   return FS->GetLastIOResult();
+   return FS ? FS->GetLastIOResult() : 0;
 }
 }// namespace gdlib::gmsstrm
-- 
2.43.0


From ef8c74d4f729769e517f411d67b25911a0a573e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:49 +0000
Subject: [PATCH 61/97] fix: buffered stream does not index past its buffer

---
 src/gdlib/gmsstrm.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/gdlib/gmsstrm.cpp b/src/gdlib/gmsstrm.cpp
index bdf402b..2a618b9 100644
--- a/src/gdlib/gmsstrm.cpp
+++ b/src/gdlib/gmsstrm.cpp
@@ -169,7 +169,7 @@ uint32_t TGZipInputStream::Read( void *buffer, uint32_t Count )
 
    if( Count <= NrLoaded - NrRead )
    {
-      std::memcpy( buffer, &Buf[NrRead], Count );
+      std::memcpy( buffer, Buf.data() + NrRead, Count );
       NrRead += Count;
       return Count;
    }
@@ -743,7 +743,7 @@ uint32_t TBufferedFileStream::Read( void *Buffer, uint32_t Count )
    if( NrWritten > 0 ) FlushBuffer();
    if( Count <= NrLoaded - NrRead )
    {
-      std::memcpy( Buffer, &BufPtr[NrRead], Count );
+      std::memcpy( Buffer, BufPtr.data() + NrRead, Count );
       NrRead += Count;
       return Count;
    }
@@ -777,7 +777,7 @@ uint32_t TBufferedFileStream::Write( const void *Buffer, uint32_t Count )
    }
    if( Count <= BufSize - NrWritten )
    {// the simple case
-      std::memcpy( &BufPtr[NrWritten], Buffer, Count );
+      std::memcpy( BufPtr.data() + NrWritten, Buffer, Count );
       NrWritten += Count;
       return Count;
    }
-- 
2.43.0


From d5c75c00f396eb8ec51f3e25e81201e3b7a0ae4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:49 +0000
Subject: [PATCH 62/97] fix: every character of a stream password takes part

---
 src/gdlib/gmsstrm.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gdlib/gmsstrm.cpp b/src/gdlib/gmsstrm.cpp
index 2a618b9..804afd0 100644
--- a/src/gdlib/gmsstrm.cpp
+++ b/src/gdlib/gmsstrm.cpp
@@ -537,12 +537,12 @@ TXFileStream::~TXFileStream()
 void TXFileStream::ApplyPassWord( const char *PR, char *PW, int Len, int64_t Offs ) const
 {
    const auto L = static_cast<int>( FPassWord.length() );
-   auto FPwNxt = static_cast<int>( Offs ) % L;
+   auto FPwNxt = static_cast<int>( Offs % L );
    for( int N {}; N < Len; N++ )
    {
       FPwNxt++;
       if( FPwNxt > L ) FPwNxt = 1;
-      PW[N] = static_cast<char>( PR[N] ^ FPassWord[FPwNxt] );
+      PW[N] = static_cast<char>( PR[N] ^ FPassWord[FPwNxt - 1] );
    }
 }
 
-- 
2.43.0


From 6442b40c8bea4aa802b218b7d0d1702b133ba93e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:49 +0000
Subject: [PATCH 63/97] fix: stream verification string may contain zero bytes

---
 src/gdlib/gmsstrm.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/gdlib/gmsstrm.cpp b/src/gdlib/gmsstrm.cpp
index 804afd0..0ab9232 100644
--- a/src/gdlib/gmsstrm.cpp
+++ b/src/gdlib/gmsstrm.cpp
@@ -1154,7 +1154,7 @@ TBinaryTextFileIO::TBinaryTextFileIO( const std::string &fn, const std::string &
       const std::string src = FS->ReadString();
       sstring targBuf {};
       FS->ApplyPassWord( src.c_str(), targBuf.data(), (int) src.length(), verify_offset );
-      if( TBufferedFileStream::RandString( static_cast<int>( src.length() ) ) != std::string(targBuf.data()) ) return;
+      if( TBufferedFileStream::RandString( static_cast<int>( src.length() ) ) != std::string( targBuf.data(), src.length() ) ) return;
    }
 
    FRewindPoint = FS->GetPosition();
@@ -1183,11 +1183,11 @@ TBinaryTextFileIO::TBinaryTextFileIO( const std::string &fn, const std::string &
       {
          FS->FlushBuffer();
          FS->SetPassWord( PassWord );
-         std::string src = gdlib::gmsstrm::TBufferedFileStream::RandString( (int) PassWord.length() );
+         std::string src = gdlib::gmsstrm::TBufferedFileStream::RandString( std::min( (int) PassWord.length(), 255 ) );
          sstring targBuf {};
          FS->ApplyPassWord( src.c_str(), targBuf.data(), (int) src.length(), verify_offset );
          FS->SetPassWord( "" );
-         FS->WriteString( targBuf.data() );
+         FS->WriteString( std::string_view { targBuf.data(), src.length() } );// may contain zero bytes
       }
       if( comp ) FS->SetCompression( true );
       else
-- 
2.43.0


From 2d2999b021e8c50256de4e75009692210591eb34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:49 +0000
Subject: [PATCH 64/97] fix: ReWind of a file with a password and no
 compression

---
 src/gdlib/gmsstrm.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gdlib/gmsstrm.cpp b/src/gdlib/gmsstrm.cpp
index 0ab9232..02ea1b6 100644
--- a/src/gdlib/gmsstrm.cpp
+++ b/src/gdlib/gmsstrm.cpp
@@ -1318,7 +1318,7 @@ void TBinaryTextFileIO::ReWind()
    assert( frw == fm_read && "TBinaryTextFileIO.ReWind1" );
    assert( FS && "TBinaryTextFileIO.ReWind2" );
    FS->SetPosition( FRewindPoint );
-   if( FS->GetCompression() ) FS->ReadString();// skip verification string
+   if( FMajorVersionRead ) FS->ReadString();// skip verification string
 }
 
 int TBinaryTextFileIO::GetLastIOResult()
-- 
2.43.0


From 13d2cd6882682ae74f4007c1a3d83b7caf5ec0dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:49 +0000
Subject: [PATCH 65/97] fix: size of a stream is its size

---
 src/gdlib/gmsstrm.cpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/gdlib/gmsstrm.cpp b/src/gdlib/gmsstrm.cpp
index 02ea1b6..a48c58f 100644
--- a/src/gdlib/gmsstrm.cpp
+++ b/src/gdlib/gmsstrm.cpp
@@ -483,13 +483,9 @@ std::string TXFileStream::RandString( int L )
 
 int64_t TXFileStream::GetSize()
 {
-#ifdef __IN_CPPMEX__
-   int64_t res;
+   int64_t res {};
    SetLastIOResult( p3FileGetSize( FS, res ) );
    return res;
-#else
-   return 0;
-#endif
 }
 
 int64_t TXFileStream::GetPosition()
-- 
2.43.0


From 9cc5ba99864c2bf5de5a52e7e09c7830bf8e9e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:49 +0000
Subject: [PATCH 66/97] fix: line limit when reading lines of gzip input

---
 src/gdlib/gmsstrm.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/gdlib/gmsstrm.cpp b/src/gdlib/gmsstrm.cpp
index a48c58f..4a53b62 100644
--- a/src/gdlib/gmsstrm.cpp
+++ b/src/gdlib/gmsstrm.cpp
@@ -187,7 +187,7 @@ uint32_t TGZipInputStream::Read( void *buffer, uint32_t Count )
 void TGZipInputStream::ReadLine( std::string &buffer, int MaxInp, char &LastChar )
 {
    buffer.clear();
-   while( !in<char>( LastChar, '\r', '\n', substChar ) || static_cast<int>( buffer.size() ) == MaxInp )
+   while( !in<char>( LastChar, '\r', '\n', substChar ) && static_cast<int>( buffer.size() ) != MaxInp )
    {
       buffer.push_back( LastChar );
       if( NrLoaded - NrRead >= 1 )
@@ -200,7 +200,7 @@ void TGZipInputStream::ReadLine( std::string &buffer, int MaxInp, char &LastChar
 void TGZipInputStream::ReadLine( std::vector<uint8_t> &buffer, int MaxInp, char &LastChar )
 {
    buffer.clear();
-   while( !in<char>( LastChar, '\r', '\n', substChar ) || static_cast<int>( buffer.size() ) == MaxInp )
+   while( !in<char>( LastChar, '\r', '\n', substChar ) && static_cast<int>( buffer.size() ) != MaxInp )
    {
       buffer.push_back( LastChar );
       if( NrLoaded - NrRead >= 1 )
@@ -213,7 +213,7 @@ void TGZipInputStream::ReadLine( std::vector<uint8_t> &buffer, int MaxInp, char
 void TGZipInputStream::ReadLine( char *buffer, int MaxInp, char &LastChar, int &Len )
 {
    Len = 0;
-   while( !in<char>( LastChar, '\r', '\n', substChar ) || static_cast<int>( Len ) == MaxInp )
+   while( !in<char>( LastChar, '\r', '\n', substChar ) && static_cast<int>( Len ) != MaxInp )
    {
       buffer[Len++] = LastChar;
       if( NrLoaded - NrRead >= 1 )
-- 
2.43.0


From 9196042a0d3cc8b986c9434acd2eede1b82355bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:50 +0000
Subject: [PATCH 67/97] fix: error of gzread is an end of input

---
 src/gdlib/gmsstrm.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gdlib/gmsstrm.cpp b/src/gdlib/gmsstrm.cpp
index 4a53b62..2155adb 100644
--- a/src/gdlib/gmsstrm.cpp
+++ b/src/gdlib/gmsstrm.cpp
@@ -162,7 +162,8 @@ TGZipInputStream::~TGZipInputStream()
 uint32_t TGZipInputStream::Read( void *buffer, uint32_t Count )
 {
    const auto FillBuffer = [&]() -> bool {
-      NrLoaded = gzread( pgz, Buf.data(), static_cast<int>( this->Buf.size() ) );
+      // a negative result reports damaged data
+      NrLoaded = static_cast<uint32_t>( std::max( 0, gzread( pgz, Buf.data(), static_cast<unsigned int>( this->Buf.size() ) ) ) );
       NrRead = 0;
       return NrLoaded > 0;
    };
-- 
2.43.0


From 571efc4b385d85edb8d7e45aa8407f8b4ae8f921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:49 +0000
Subject: [PATCH 68/97] fix: deleting from a one based list

---
 src/gdlib/gmsobj.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gdlib/gmsobj.hpp b/src/gdlib/gmsobj.hpp
index 6858bb0..f56a1dc 100644
--- a/src/gdlib/gmsobj.hpp
+++ b/src/gdlib/gmsobj.hpp
@@ -129,10 +129,10 @@ public:
    void Delete( int Index )
    {
       FreeItem( Index );
+      if( OneBased ) Index--;
       FCount--;
       if( Index < FCount )
       {
-         if( OneBased ) Index--;
          // overlap so use memmove instead of memcpy
          std::memmove( &FList[Index], &FList[Index + 1], ( FCount - Index ) * sizeof( T * ) );
       }
-- 
2.43.0


From 39ca1b3ebdff202d5e62ec0beda09065176d2a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:49 +0000
Subject: [PATCH 69/97] fix: names of a one based string list by constant
 access

---
 src/gdlib/gmsobj.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gdlib/gmsobj.hpp b/src/gdlib/gmsobj.hpp
index f56a1dc..f6f355c 100644
--- a/src/gdlib/gmsobj.hpp
+++ b/src/gdlib/gmsobj.hpp
@@ -574,7 +574,7 @@ public:
 
    [[nodiscard]] char *GetName( int Index ) const
    {
-      return FList[Index].FString;
+      return FList[Index - ( OneBased ? 1 : 0 )].FString;
    }
 
    char *operator[]( const int Index ) const
-- 
2.43.0


From 526e45e07179b7df1496f3dc9d1fbffd829be1af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:49 +0000
Subject: [PATCH 70/97] fix: IndexOf of an unsorted TXSortedStringList ends

---
 src/gdlib/gmsobj.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gdlib/gmsobj.hpp b/src/gdlib/gmsobj.hpp
index f6f355c..4924f3a 100644
--- a/src/gdlib/gmsobj.hpp
+++ b/src/gdlib/gmsobj.hpp
@@ -846,7 +846,7 @@ public:
    int IndexOf( const char *S, const size_t slen )
    {
       int res;
-      return !FSorted ? this->IndexOf( S, slen ) : !Find( S, slen, res ) ? -1 : res;
+      return !FSorted ? TXCustomStringList<T>::IndexOf( S ) : !Find( S, slen, res ) ? -1 : res;
    }
 
    void BeginUpdate()
-- 
2.43.0


From c47fa0d855bd41df49251bda96a917c435288c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:49 +0000
Subject: [PATCH 71/97] fix: TXStrPool compares by order

---
 src/gdlib/gmsobj.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gdlib/gmsobj.hpp b/src/gdlib/gmsobj.hpp
index 4924f3a..b0bec0a 100644
--- a/src/gdlib/gmsobj.hpp
+++ b/src/gdlib/gmsobj.hpp
@@ -789,7 +789,7 @@ public:
    {
       const char  *s1 { this->FList[Index1 - ( this->OneBased ? 1 : 0 )].FString },
                   *s2 { this->FList[Index2 - ( this->OneBased ? 1 : 0 )].FString };
-      return utils::sameTextPChar<false>( s1, s2 );
+      return utils::strCompare( s1, s2, false );
    }
 };
 
-- 
2.43.0


From 31125811df8721eb8c499771ec6d94fa0b8db34b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:49 +0000
Subject: [PATCH 72/97] fix: growing the table of a hashed string list frees
 the old one

---
 src/gdlib/gmsobj.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gdlib/gmsobj.hpp b/src/gdlib/gmsobj.hpp
index b0bec0a..80c0722 100644
--- a/src/gdlib/gmsobj.hpp
+++ b/src/gdlib/gmsobj.hpp
@@ -692,6 +692,7 @@ protected:
    {
       const int newSiz { newCount >= trigger ? getSCHashSize( newCount ) : 0 };
       if( newSiz == hashCount ) return;// no bump made
+      ClearHashList();
       hashCount = newSiz;
       int64_t i64 = hashCount * SCHASH_FACTOR_MAX;
       i64 = std::min<int64_t>( std::numeric_limits<int>::max(), i64 );
-- 
2.43.0


From c24bfe9faefd64d13dc50b8839d2c066ec11542f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:49 +0000
Subject: [PATCH 73/97] fix: size of the first batch is fixed once it is
 allocated

---
 src/gdlib/batchalloc.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gdlib/batchalloc.hpp b/src/gdlib/batchalloc.hpp
index a580ed7..e81aa84 100644
--- a/src/gdlib/batchalloc.hpp
+++ b/src/gdlib/batchalloc.hpp
@@ -76,6 +76,7 @@ public:
    // Use different buffer size for first batch
    // In case we know lots of data will be requested first
    void SetFirstBatchSize(size_t s) {
+      if( head ) return;// the first batch exists already
       if( const auto fbs = ( s + ( byteAlign - 1 ) ) & ~( byteAlign - 1 );
          fbs > batchSize && fbs < 0x10000000000)
          firstBatchSize = fbs;
-- 
2.43.0


From 979b93d4d96fdb2e156238851de93040b719e83d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:49 +0000
Subject: [PATCH 74/97] fix: adding to a sorted hash list

---
 src/gdlib/strhash.hpp | 23 +++++++----------------
 1 file changed, 7 insertions(+), 16 deletions(-)

diff --git a/src/gdlib/strhash.hpp b/src/gdlib/strhash.hpp
index 786b370..e6afac0 100644
--- a/src/gdlib/strhash.hpp
+++ b/src/gdlib/strhash.hpp
@@ -167,7 +167,7 @@ protected:
 
    char *GetSortedString( int N )
    {
-      if( FSorted ) Sort();
+      if( !FSorted ) Sort();
       return Buckets[( *SortMap )[N - ( OneBased ? 1 : 0 )]]->StrP;
    }
 
@@ -295,11 +295,8 @@ public:
       PBuck->NextBucket = nullptr;
       PBuck->StrNr = FCount;// before it was added!
       int res { FCount + ( OneBased ? 1 : 0 ) };
-      if( SortMap )
-      {
-         ( *SortMap )[FCount] = FCount;
-         FSorted = false;
-      }
+      SortMap = nullptr;
+      FSorted = false;
       FCount++;// ugly
 #ifdef TSH_BATCH_ALLOCS
       PBuck->StrP = reinterpret_cast<char *>( batchStrAllocator.GetBytes( slen + 1 ) );
@@ -333,11 +330,8 @@ public:
       ( *PHashTable )[HV] = PBuck;
       PBuck->StrNr = FCount;// before it was added! zero based
       int res { FCount + ( OneBased ? 1 : 0 ) };
-      if( SortMap )
-      {
-         ( *SortMap )[FCount] = FCount;
-         FSorted = false;
-      }
+      SortMap = nullptr;
+      FSorted = false;
       FCount++;// ugly
 #ifdef TSH_BATCH_ALLOCS
       PBuck->StrP = reinterpret_cast<char *>( batchStrAllocator.GetBytes( slen + 1 ) );
@@ -414,11 +408,8 @@ public:
    void RenameEntry( int N, const char *s )
    {
       N -= OneBased ? 1 : 0;
-      if( FSorted )
-      {
-         SortMap = nullptr;
-         FSorted = false;
-      }
+      SortMap = nullptr;
+      FSorted = false;
       if( PHashTable )
       {
          int HV0 { Hash( GetString( N + 1 ) ) }, HV1 { Hash( s ) };
-- 
2.43.0


From 94fc5717a114770a09bf38373ace6cdcf375bc09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:49 +0000
Subject: [PATCH 75/97] fix: renaming entries of a zero based hash list

---
 src/gdlib/strhash.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gdlib/strhash.hpp b/src/gdlib/strhash.hpp
index e6afac0..616501e 100644
--- a/src/gdlib/strhash.hpp
+++ b/src/gdlib/strhash.hpp
@@ -412,7 +412,7 @@ public:
       FSorted = false;
       if( PHashTable )
       {
-         int HV0 { Hash( GetString( N + 1 ) ) }, HV1 { Hash( s ) };
+         int HV0 { Hash( Buckets[N]->StrP ) }, HV1 { Hash( s ) };
          if( HV0 != HV1 )
          {
             PHashBucket<T> PrevBuck {}, PBuck;
@@ -426,7 +426,7 @@ public:
             ( *PHashTable )[HV1] = PBuck;
          }
       }
-      SetString( N + 1, s, std::strlen( s ) );
+      SetString( N + ( OneBased ? 1 : 0 ), s, std::strlen( s ) );
    }
 
    T *operator[]( const int N )
-- 
2.43.0


From 43f30fb074e9a609cd8336daaf161fb1f3684a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:50 +0000
Subject: [PATCH 76/97] fix: records may be added after reading sorted data

---
 src/gdlib/datastorage.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gdlib/datastorage.hpp b/src/gdlib/datastorage.hpp
index b3759e8..375e2ce 100644
--- a/src/gdlib/datastorage.hpp
+++ b/src/gdlib/datastorage.hpp
@@ -236,7 +236,7 @@ public:
          }
          FHead = R;
       }
-      FTail = nullptr;// what is the tail???
+      for( FTail = FHead; FTail->RecNext; ) FTail = FTail->RecNext;
 #if !defined( USE_GMSHEAP )
       delete[] Head;
       delete[] Tail;
-- 
2.43.0


From e18444659d0aa21455fef38116ae6d1f22ae92fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:50 +0000
Subject: [PATCH 77/97] fix: sorting records with a permutation

---
 src/gdlib/datastorage.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/gdlib/datastorage.hpp b/src/gdlib/datastorage.hpp
index 375e2ce..29b07ae 100644
--- a/src/gdlib/datastorage.hpp
+++ b/src/gdlib/datastorage.hpp
@@ -85,7 +85,7 @@ class TLinkedData final
    batchalloc::BatchAllocator<960, 8> batchAllocator;
 #endif
 
-   bool IsSorted()
+   bool IsSorted( const int *AMap )
    {
       RecType *R { FHead };
       auto *PrevKey { R->RecKeys };
@@ -95,7 +95,8 @@ class TLinkedData final
       {
          for( int D {}; D < FDimension; D++ )
          {
-            KD = R->RecKeys[D] - PrevKey[D];
+            const int K { AMap ? AMap[D] : D };
+            KD = R->RecKeys[K] - PrevKey[K];
             if( KD ) break;
          }
          if( KD < 0 ) return false;
@@ -199,7 +200,7 @@ public:
 
    void Sort( const int *AMap = nullptr )
    {
-      if( !FHead || IsSorted() ) return;
+      if( !FHead || IsSorted( AMap ) ) return;
       const int AllocCount = FMaxKey - FMinKey + 1;
       const int KeyBase { FMinKey };
 #if !defined( USE_GMSHEAP )
-- 
2.43.0


From d21565e7131aad9934040b1db0098c0e5e21d848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:02 +0000
Subject: [PATCH 78/97] fix: parsing of texts longer than 255 characters

---
 src/rtl/p3io.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/rtl/p3io.cpp b/src/rtl/p3io.cpp
index 11f1170..72a9d77 100644
--- a/src/rtl/p3io.cpp
+++ b/src/rtl/p3io.cpp
@@ -177,9 +177,7 @@ void P3_Val_dd(const char *s, double *d, int *code)
 
 void P3_Val_dd(const char *s, size_t slen, double *d, int *code)
 {
-   std::array<char, 256> buffer;
-   std::memcpy(buffer.data(), s, sizeof(char)*(slen+1));
-   buffer[slen] = '\0';
+   std::string buffer( s, slen );
 
    // skip over blanks
    // - Kylix 3 does not treat any other chars as whitespace
@@ -257,8 +255,7 @@ void P3_Val_i(const char *s, int *i, int *code)
  */
 void P3_Val_i( const char *s, size_t slen, int *i, int *code )
 {
-   std::array<char, 256> buffer;
-   std::memcpy( buffer.data(), s, sizeof( char ) * ( slen + 1 ) );
+   std::string buffer( s, slen );
 
    // skip over blanks
    // - Kylix 3 does not treat any other chars as whitespace
-- 
2.43.0


From c610477fdc3eb4e8297e4e87ede4d0dd83be2d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:03 +0000
Subject: [PATCH 79/97] fix: hexadecimal text of integers

---
 src/rtl/sysutils_p3.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/rtl/sysutils_p3.cpp b/src/rtl/sysutils_p3.cpp
index 392c73d..9a39350 100644
--- a/src/rtl/sysutils_p3.cpp
+++ b/src/rtl/sysutils_p3.cpp
@@ -888,17 +888,18 @@ void IntToStr( int64_t n, char *res, size_t &len )
 // if w > 32, w is treated as zero (as per Delphi 7)
 std::string IntToHex( int64_t v, int w )
 {
-   constexpr uint8_t MAXW {32};
+   constexpr int MAXW {32};
    static auto hex {"0123456789ABCDEF"};
    if(w > MAXW)
       w = 0;
    int i { MAXW-1 };
    std::array<char, MAXW> buf {};
+   auto u { static_cast<uint64_t>( v ) };
    do
    {
-      buf[i--] = hex[0xF & v];
-      v >>= 4;
-   } while(v || w + i > MAXW);
+      buf[i--] = hex[0xF & u];
+      u >>= 4;
+   } while(u || MAXW - 1 - i < w);
    return {buf.begin()+i+1, buf.end()};
 }
 
-- 
2.43.0


From 90cc8b4bc8cab57a894c4b96c355ed92c0c530a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:03 +0000
Subject: [PATCH 80/97] fix: width of the smallest integer

---
 src/gdlib/strutilx.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/gdlib/strutilx.cpp b/src/gdlib/strutilx.cpp
index 74bd67b..f490d5c 100644
--- a/src/gdlib/strutilx.cpp
+++ b/src/gdlib/strutilx.cpp
@@ -158,7 +158,6 @@ std::string ExcelColStr( int C )
 int IntegerWidth( int n )
 {
    int res = n >= 0 ? 0 : 1;
-   if( res ) n = -n;
    do {
       res++;
       n /= 10;
-- 
2.43.0


From 50224e4e8263cd8cc805421db2fe33c1e06a023a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:03 +0000
Subject: [PATCH 81/97] fix: spreadsheet column names

---
 src/gdlib/strutilx.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/gdlib/strutilx.cpp b/src/gdlib/strutilx.cpp
index f490d5c..5e56ab2 100644
--- a/src/gdlib/strutilx.cpp
+++ b/src/gdlib/strutilx.cpp
@@ -139,7 +139,7 @@ int StrExcelCol( const std::string &s )
    for( int i {}; i < static_cast<int>( s.length() ); i++ )
    {
       const int j { ord(toupper( s[i] )) - ord( 'A' ) };
-      if( j < 0 || j > 25 || res >= std::numeric_limits<int>::max() / 26 + 26 )
+      if( j < 0 || j > 25 || res > ( std::numeric_limits<int>::max() - j - 1 ) / 26 )
          return 0;
       res = res * 26 + j + 1;
    }
@@ -150,8 +150,8 @@ std::string ExcelColStr( int C )
 {
    if( C <= 0 ) return {};
    std::string res;
-   for( res.clear(); C; C /= 26 )
-      res += static_cast<char>( ord( 'A' ) + --C % 26 );
+   for( ; C; C /= 26 )
+      res.insert( res.begin(), static_cast<char>( ord( 'A' ) + --C % 26 ) );
    return res;
 }
 
-- 
2.43.0


From a47609c6cd0b9856d96e9f0a01bf552707c5b825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:03 +0000
Subject: [PATCH 82/97] fix: token extraction

---
 src/gdlib/strutilx.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/gdlib/strutilx.cpp b/src/gdlib/strutilx.cpp
index 5e56ab2..7360916 100644
--- a/src/gdlib/strutilx.cpp
+++ b/src/gdlib/strutilx.cpp
@@ -788,19 +788,19 @@ std::string ExtractToken( const std::string &s, int &p )
    if( p <= 0 ) return ""s;
    const auto L = static_cast<int>( s.length() );
    // skip leading blanks
-   while( p <= L && s[p] == ' ' ) p++;
+   while( p <= L && s[p - 1] == ' ' ) p++;
    if( p > L ) return ""s;
    char Stop;
-   if( !in( s[p], '\'', '\"' ) ) Stop = ' ';
+   if( !in( s[p - 1], '\'', '\"' ) ) Stop = ' ';
    else
    {
-      Stop = s[p];
+      Stop = s[p - 1];
       p++;
    }
    const int rs = p;
-   while( p <= L && s[p] != Stop ) p++;
+   while( p <= L && s[p - 1] != Stop ) p++;
    std::string res { s.substr( rs - 1, p - rs ) };
-   if( p <= L && s[p] == Stop ) p++;
+   if( p <= L && s[p - 1] == Stop ) p++;
    return res;
 }
 
-- 
2.43.0


From f98e9a17859a5c547680b15b524e9cf6015fff8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:03 +0000
Subject: [PATCH 83/97] fix: trimming of blank and empty texts

---
 src/gdlib/utils.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/gdlib/utils.cpp b/src/gdlib/utils.cpp
index 3030383..6f8dd88 100644
--- a/src/gdlib/utils.cpp
+++ b/src/gdlib/utils.cpp
@@ -73,7 +73,8 @@ void permutAssign( std::string &lhs, const std::string &rhs,
 // Shouldn't this operate on a std::string_view instead?
 void removeTrailingCarriageReturnOrLineFeed( std::string &s )
 {
-   if( const char lchar = s[s.length() - 1]; lchar == '\r' || lchar == '\n' )
+   if( s.empty() ) return;
+   if( const char lchar = s.back(); lchar == '\r' || lchar == '\n' )
       s.pop_back();
 }
 
@@ -117,6 +118,7 @@ std::string_view trim( const std::string_view s )
 {
    if( s.empty() ) return {};
    const auto firstNonBlank = s.find_first_not_of( " \t\n\r" );
+   if( firstNonBlank == std::string_view::npos ) return {};
    const auto lastNonBlank = s.find_last_not_of( " \t\n\r" );
    return s.substr( firstNonBlank, lastNonBlank - firstNonBlank + 1 );
 }
-- 
2.43.0


From a84e7e6111a58e90a9f159637b8fed5fe7af395f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:03 +0000
Subject: [PATCH 84/97] fix: character ranges up to 127

---
 src/gdlib/utils.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/gdlib/utils.hpp b/src/gdlib/utils.hpp
index 89da7f0..b20fbd2 100644
--- a/src/gdlib/utils.hpp
+++ b/src/gdlib/utils.hpp
@@ -229,8 +229,8 @@ inline void insertAllChars( charset &charset, const std::string_view chars )
 inline void charRangeInsert( charset &charset, const char lbIncl, const char ubIncl )
 {
    //for (char c : std::ranges::iota_view{ lbIncl, ubIncl + 1 })
-   for( char c = lbIncl; c <= ubIncl; c++ )
-      charset.insert( c );
+   for( int c = lbIncl; c <= ubIncl; c++ )
+      charset.insert( static_cast<char>( c ) );
 }
 
 template<class T>
@@ -304,9 +304,9 @@ bool in( const T &val,
 inline void charRangeInsertIntersecting( charset &charset, const char lbIncl, const char ubIncl, const class charset &other )
 {
    //for (char c : std::ranges::iota_view{ lbIncl, ubIncl + 1 })
-   for( char c = lbIncl; c <= ubIncl; c++ )
-      if( utils::in( c, other ) )
-         charset.insert( c );
+   for( int c = lbIncl; c <= ubIncl; c++ )
+      if( utils::in( static_cast<char>( c ), other ) )
+         charset.insert( static_cast<char>( c ) );
 }
 
 template<class T>
-- 
2.43.0


From 3c7550ee7d25a0a5f6564f56174dfbc9f3ba14d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:03 +0000
Subject: [PATCH 85/97] fix: copying a text as long as the buffer

---
 src/gdlib/utils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gdlib/utils.hpp b/src/gdlib/utils.hpp
index b20fbd2..a5769ab 100644
--- a/src/gdlib/utils.hpp
+++ b/src/gdlib/utils.hpp
@@ -704,7 +704,7 @@ int strCompare( const char *S1,
 
 inline void assignStrToBuf( const std::string &s, char *buf, const int outBufSize = 256 )
 {
-   if( static_cast<int>( s.length() ) > outBufSize ) return;
+   if( static_cast<int>( s.length() ) >= outBufSize ) return;
 #if defined( _WIN32 )
    std::memcpy( buf, s.c_str(), s.length() + 1 );
 #else
-- 
2.43.0


From e284ce3b089d2c8e9201919ba3b5fef6df3810f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:03 +0000
Subject: [PATCH 86/97] fix: comparison of texts of different length

---
 src/rtl/sysutils_p3.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rtl/sysutils_p3.cpp b/src/rtl/sysutils_p3.cpp
index 9a39350..8429d27 100644
--- a/src/rtl/sysutils_p3.cpp
+++ b/src/rtl/sysutils_p3.cpp
@@ -79,7 +79,7 @@ std::string LowerCase( const std::string &S )
 
 int CompareStr( const std::string &S1, const std::string &S2 )
 {
-   const auto l { std::max<size_t>( S1.length(), S2.length() ) };
+   const auto l { std::min<size_t>( S1.length(), S2.length() ) };
    for( size_t i {}; i < l; i++ )
       if( const int delta = S1[i] - S2[i] )
          return delta;
@@ -88,7 +88,7 @@ int CompareStr( const std::string &S1, const std::string &S2 )
 
 int CompareText( const std::string &S1, const std::string &S2 )
 {
-   const auto l { std::max<size_t>( S1.length(), S2.length() ) };
+   const auto l { std::min<size_t>( S1.length(), S2.length() ) };
    for( size_t i {}; i < l; i++ )
       if( const int delta = std::toupper( S1[i] ) - std::toupper( S2[i] ) )
          return delta;
-- 
2.43.0


From 41b0d4306247a7d64298fe040a360d626e05f30c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:03 +0000
Subject: [PATCH 87/97] fix: overflow when parsing the smallest integer

---
 src/rtl/sysutils_p3.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rtl/sysutils_p3.cpp b/src/rtl/sysutils_p3.cpp
index 8429d27..7ec426a 100644
--- a/src/rtl/sysutils_p3.cpp
+++ b/src/rtl/sysutils_p3.cpp
@@ -176,7 +176,7 @@ int64_t StrToInt64( const std::string_view s )
       hex { i < s.length() && s[i] == '$' };
    i += hex + negative;
 
-   int64_t result {};
+   uint64_t result {};// no overflow for the lowest number
    bool error {};
 
    if( hex )
@@ -211,7 +211,7 @@ int64_t StrToInt64( const std::string_view s )
 
    if( error )
       return std::numeric_limits<int64_t>::min();
-   return negative ? -result : result;
+   return static_cast<int64_t>( negative ? -result : result );
 }
 
 int FileAge( const std::string &FileName )
-- 
2.43.0


From acef78f475378dc80a1b2c1a395b637d93f0a3ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:03 +0000
Subject: [PATCH 88/97] fix: decimal text in a buffer

---
 src/gdlib/strutilx.cpp | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/src/gdlib/strutilx.cpp b/src/gdlib/strutilx.cpp
index 7360916..cc4f89f 100644
--- a/src/gdlib/strutilx.cpp
+++ b/src/gdlib/strutilx.cpp
@@ -361,16 +361,11 @@ uint8_t DblToStrSep(double V, const char DecimalSep, char* sout)
    uint8_t slen = DblToStrSepCore( V, DecimalSep, sout );
    // only with short strings
    int i {};
-   for( int l {}; l < slen; i++, l++ )
-   {
-      if( sout[l] == ' ' )
-      {
-         while( sout[++l] == ' ' && sout[l] != '\0' )
-            ;
-      }
-      sout[i] = sout[l];
-   }
-   return ui8(i - 1);
+   for( int l {}; l < slen; l++ )
+      if( sout[l] != ' ' )
+         sout[i++] = sout[l];
+   sout[i] = '\0';
+   return ui8(i);
 }
 
 std::string DblToStr( const double V )
-- 
2.43.0


From 9aebfbf492ab9458210b679900c078d9765a5fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:03 +0000
Subject: [PATCH 89/97] fix: decimal text of FloatToStr

---
 src/rtl/sysutils_p3.cpp | 31 ++++++++++++-------------------
 1 file changed, 12 insertions(+), 19 deletions(-)

diff --git a/src/rtl/sysutils_p3.cpp b/src/rtl/sysutils_p3.cpp
index 7ec426a..a112907 100644
--- a/src/rtl/sysutils_p3.cpp
+++ b/src/rtl/sysutils_p3.cpp
@@ -926,12 +926,12 @@ std::string FloatToStr( double v )
    if( v < 0.0 )
       v = -v;
    const int k = LastDelimiter( "+-"s, s );
-   int j = utils::pos( '.', s );
+   const int j = utils::indexOf( s, '.' );
    if( v >= 1e-4 && v < 1e15 )
    {
       int i, e;
       utils::val( s.substr( k, 5 ), e, i );
-      for( i = k - 1; i <= static_cast<int>( s.length() ); i++ )
+      for( i = k - 1; i < static_cast<int>( s.length() ); i++ )
          s[i] = '0';
       if( e >= 0 )
       {
@@ -940,13 +940,13 @@ std::string FloatToStr( double v )
             s[i - 1] = s[i];
          }
          s[j + e] = '.';
-         for( i = static_cast<int>( s.length() ); i >= j + e + 1; i-- )
+         for( i = static_cast<int>( s.length() ) - 1; i >= j + e + 1; i-- )
          {
+            if( s[i] != '0' )
+               break;
             s[i] = ' ';
             if( i == j + e + 1 )
                s[j + e] = ' ';
-            else
-               break;
          }
       }
       else
@@ -954,13 +954,12 @@ std::string FloatToStr( double v )
          s[j] = s[j - 1];
          s[j - 1] = '0';
          e = -e;
-         s.resize( k + e - 2 );
          for( i = k - 2; i >= j; i-- )
             s[i + e] = s[i];
          for( i = j + 1; i <= j + e - 1; i++ )
             s[i] = '0';
          s[j] = '.';
-         for( i = static_cast<int>( s.length() ); i >= j + e + 1; i-- )
+         for( i = static_cast<int>( s.length() ) - 1; i >= j + e + 1; i-- )
          {
             if( s[i] == '0' )
                s[i] = ' ';
@@ -978,7 +977,7 @@ std::string FloatToStr( double v )
          if( s[i] == '0' )
          {
             s[i] = ' ';
-            if( i == static_cast<int>( s.length() ) )
+            if( i == static_cast<int>( s.length() ) - 1 )
                s[k - 1] = ' ';
          }
          else
@@ -998,17 +997,11 @@ std::string FloatToStr( double v )
    }
 
    // only for short strings
-   j = 0;
-   std::array<char, 256> res {};
-   for( int i {}; i < static_cast<int>( s.length() ); i++ )
-   {
-      if( s[i] != ' ' )
-      {
-         j++;
-         res[j] = s[i];
-      }
-   }
-   return { res.data() };
+   std::string res;
+   for( const char c: s )
+      if( c != ' ' )
+         res += c;
+   return res;
 }
 
 double EncodeTime( const uint16_t hour, const uint16_t min, const uint16_t sec, const uint16_t msec )
-- 
2.43.0


From 17e12af9b72876832f281b2cdd6d536b2ecefc0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:03 +0000
Subject: [PATCH 90/97] fix: overflow of long exponents

---
 src/rtl/dtoaLoc.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rtl/dtoaLoc.c b/src/rtl/dtoaLoc.c
index 8617df6..ef8241f 100644
--- a/src/rtl/dtoaLoc.c
+++ b/src/rtl/dtoaLoc.c
@@ -1933,7 +1933,8 @@ strtodLoc (const char *s00, char **se, int *locErrno)
         L = c - '0';
         s1 = s;
         while((c = *++s) >= '0' && c <= '9')
-          L = 10*L + c - '0';
+          if (s - s1 <= 8) /* more digits are too large anyway */
+            L = 10*L + c - '0';
         if (s - s1 > 8 || L > 19999)
           /* Avoid confusion from exponents
            * so large that e might overflow.
-- 
2.43.0


From c40080f8f3310940205b529b31f530addd6dfb94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:21 +0000
Subject: [PATCH 91/97] fix: blanks in lines of parameter files

---
 src/tools/library/cmdpar.cpp | 19 ++-----------------
 1 file changed, 2 insertions(+), 17 deletions(-)

diff --git a/src/tools/library/cmdpar.cpp b/src/tools/library/cmdpar.cpp
index 1fcbe50..5428846 100644
--- a/src/tools/library/cmdpar.cpp
+++ b/src/tools/library/cmdpar.cpp
@@ -173,7 +173,6 @@ bool CmdParams::AddParameters(const int AInsP, const std::string &CmdLine, const
   };
 
   auto ExpandFiles = [](const std::string &Src, std::string &Dest) -> bool {
-    constexpr int MAXBUF{4};
     bool result{true};
     Dest.clear();
     int sp{};
@@ -231,24 +230,10 @@ bool CmdParams::AddParameters(const int AInsP, const std::string &CmdLine, const
       } else {
         std::string line;
         while (getline(fi, line)) {
-          std::vector<std::string> strings = library::splitString(line, ' ');
-
-          if (!strings.empty() && (strings.front().empty() || strings.front().front() == '*')) {
+          if (line.empty() || line.front() == '*') {
             continue;
           }
-
-          for (std::size_t k{}; k < strings.size(); k++) {
-            if (strings[k].empty()) {
-              break;
-            }
-            Dest.append(" " + strings[k]);
-          }
-
-          // TODO: Check whether this if is still necessary
-          if (!strings.empty() && strings.back().length() == 255) {
-            library::printErrorMessage("**** Input line longer than " + std::to_string(MAXBUF * 255) + " characters");
-            result = false;
-          }
+          Dest.append(" " + utils::trim(line));
         }
         fi.close();
       }
-- 
2.43.0


From 367aa41096f4008c1d38fdd59b0fab3647062592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:13 +0000
Subject: [PATCH 92/97] fix: text read as allocated buffer

---
 src/gdlib/gmsstrm.cpp | 2 +-
 src/gdlib/gmsstrm.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gdlib/gmsstrm.cpp b/src/gdlib/gmsstrm.cpp
index 2155adb..a70618f 100644
--- a/src/gdlib/gmsstrm.cpp
+++ b/src/gdlib/gmsstrm.cpp
@@ -422,7 +422,7 @@ std::string TXStream::ReadPChar()
    return ReadPChar(dummyLen);
 }
 
-void TXStream::ReadPChar( char *P, int &L )
+void TXStream::ReadPChar( char *&P, int &L )
 {
    if( Paranoid ) ParCheck( RWType::rw_pchar );
    L = ReadInteger();
diff --git a/src/gdlib/gmsstrm.hpp b/src/gdlib/gmsstrm.hpp
index d3b5ccf..476f150 100644
--- a/src/gdlib/gmsstrm.hpp
+++ b/src/gdlib/gmsstrm.hpp
@@ -197,7 +197,7 @@ public:
    virtual int64_t ReadInt64();
    bool ReadBool();
    char ReadChar();
-   void ReadPChar( char *P, int &L );
+   void ReadPChar( char *&P, int &L );
    [[nodiscard]] std::string ReadPChar( int &L );
    [[nodiscard]] std::string ReadPChar();
 
-- 
2.43.0


From 2e4b2e38174a6b061ffe9c8b74dd08ad75191e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:45 +0000
Subject: [PATCH 93/97] fix: load path is returned with its end

---
 generated/gdxcwrap.h            | 4 +++-
 src/templates/cwrap.template.j2 | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/generated/gdxcwrap.h b/generated/gdxcwrap.h
index 7d1973f..693b2eb 100644
--- a/generated/gdxcwrap.h
+++ b/generated/gdxcwrap.h
@@ -186,7 +186,9 @@ GDX_INLINE void GDX_CALLCONV doSetLoadPath( const char *s )
 GDX_INLINE void GDX_CALLCONV doGetLoadPath( char *s )
 {
    assert( gdx::DLLLoadPath.size() < 256 );
-   memcpy( s, gdx::DLLLoadPath.c_str(), gdx::DLLLoadPath.size() );
+   const size_t len { std::min<size_t>( gdx::DLLLoadPath.size(), 255 ) };
+   memcpy( s, gdx::DLLLoadPath.c_str(), len );
+   s[len] = '\0';
 }
 
 #ifndef NO_SET_LOAD_PATH_DEF
diff --git a/src/templates/cwrap.template.j2 b/src/templates/cwrap.template.j2
index 6f53d13..6e5d340 100644
--- a/src/templates/cwrap.template.j2
+++ b/src/templates/cwrap.template.j2
@@ -103,7 +103,9 @@ GDX_INLINE void GDX_CALLCONV doSetLoadPath( const char *s )
 GDX_INLINE void GDX_CALLCONV doGetLoadPath( char *s )
 {
    assert( gdx::DLLLoadPath.size() < 256 );
-   memcpy( s, gdx::DLLLoadPath.c_str(), gdx::DLLLoadPath.size() );
+   const size_t len { std::min<size_t>( gdx::DLLLoadPath.size(), 255 ) };
+   memcpy( s, gdx::DLLLoadPath.c_str(), len );
+   s[len] = '\0';
 }
 
 #ifndef NO_SET_LOAD_PATH_DEF
-- 
2.43.0


From 53fcdd9f4030effd76560f0fbc588c149881abdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:45 +0000
Subject: [PATCH 94/97] fix: refused calls through the length-prefixed
 interface

---
 generated/gdxcclib.cpp | 21 ++++++---------------
 1 file changed, 6 insertions(+), 15 deletions(-)

diff --git a/generated/gdxcclib.cpp b/generated/gdxcclib.cpp
index f142be0..fd29e92 100644
--- a/generated/gdxcclib.cpp
+++ b/generated/gdxcclib.cpp
@@ -1626,11 +1626,8 @@ GDX_API int GDX_CALLCONV D__gdxDataReadStr(TGXFileRec_t *TGXFile, char *KeyStr,
   gdxStrIndexPtrs_t KeyStr_pdim;
   GDXSTRINDEXPTRS_INIT(KeyStr_dim,KeyStr_pdim); /* assign pdim */
   KeyStr_sidim = gdxCurrentDim(TGXFile);
-  /*for(KeyStr_cnt=0;KeyStr_cnt<KeyStr_sidim;KeyStr_cnt++)
-  {
-    strncpy(KeyStr_pdim[KeyStr_cnt],(char *) KeyStr + KeyStr_cnt*256 + 1,(unsigned char) KeyStr[KeyStr_cnt*256]);
-    KeyStr_dim[KeyStr_cnt][(unsigned char) KeyStr[KeyStr_cnt*256]] = '\0';
-  }*/
+  for(KeyStr_cnt=0;KeyStr_cnt<KeyStr_sidim;KeyStr_cnt++)
+    KeyStr_dim[KeyStr_cnt][0] = '\0';
   gdxDataReadStr_result = gdxDataReadStr(TGXFile, KeyStr_pdim, Values, DimFrst);
         
   for(KeyStr_cnt=0;KeyStr_cnt<KeyStr_sidim;KeyStr_cnt++)
@@ -1651,11 +1648,8 @@ GDX_API int GDX_CALLCONV D__gdxDataSliceUELS(TGXFileRec_t *TGXFile, const int Sl
   gdxStrIndexPtrs_t KeyStr_pdim;
   GDXSTRINDEXPTRS_INIT(KeyStr_dim,KeyStr_pdim); /* assign pdim */
   KeyStr_sidim = gdxCurrentDim(TGXFile);
-  /*for(KeyStr_cnt=0;KeyStr_cnt<KeyStr_sidim;KeyStr_cnt++)
-  {
-    strncpy(KeyStr_pdim[KeyStr_cnt],(char *) KeyStr + KeyStr_cnt*256 + 1,(unsigned char) KeyStr[KeyStr_cnt*256]);
-    KeyStr_dim[KeyStr_cnt][(unsigned char) KeyStr[KeyStr_cnt*256]] = '\0';
-  }*/
+  for(KeyStr_cnt=0;KeyStr_cnt<KeyStr_sidim;KeyStr_cnt++)
+    KeyStr_dim[KeyStr_cnt][0] = '\0';
   gdxDataSliceUELS_result = gdxDataSliceUELS(TGXFile, SliceKeyInt, KeyStr_pdim);
         
   for(KeyStr_cnt=0;KeyStr_cnt<KeyStr_sidim;KeyStr_cnt++)
@@ -1931,11 +1925,8 @@ GDX_API int GDX_CALLCONV D__gdxSymbolGetDomainX(TGXFileRec_t *TGXFile, int SyNr,
   gdxStrIndexPtrs_t DomainIDs_pdim;
   GDXSTRINDEXPTRS_INIT(DomainIDs_dim,DomainIDs_pdim); /* assign pdim */
   DomainIDs_sidim = gdxSymbolDim(TGXFile, SyNr);
-  /*for(DomainIDs_cnt=0;DomainIDs_cnt<DomainIDs_sidim;DomainIDs_cnt++)
-  {
-    strncpy(DomainIDs_pdim[DomainIDs_cnt],(char *) DomainIDs + DomainIDs_cnt*256 + 1,(unsigned char) DomainIDs[DomainIDs_cnt*256]);
-    DomainIDs_dim[DomainIDs_cnt][(unsigned char) DomainIDs[DomainIDs_cnt*256]] = '\0';
-  }*/
+  for(DomainIDs_cnt=0;DomainIDs_cnt<DomainIDs_sidim;DomainIDs_cnt++)
+    DomainIDs_dim[DomainIDs_cnt][0] = '\0';
   gdxSymbolGetDomainX_result = gdxSymbolGetDomainX(TGXFile, SyNr, DomainIDs_pdim);
         
   for(DomainIDs_cnt=0;DomainIDs_cnt<DomainIDs_sidim;DomainIDs_cnt++)
-- 
2.43.0


From af8f7fb855541411a358c9d7df56559f672c0eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:45 +0000
Subject: [PATCH 95/97] fix: loader writes within its buffers

---
 generated/gdxcc.c | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/generated/gdxcc.c b/generated/gdxcc.c
index be8f778..d7c55d7 100644
--- a/generated/gdxcc.c
+++ b/generated/gdxcc.c
@@ -1762,13 +1762,14 @@ XLibraryLoad (const char *dllName, char *errBuf, int errBufSize)
 {
   char *errMsg;
   const char *symName;
+  char checkBuf[GMS_SSSIZE];            /* the checks of the library write up to this many bytes */
   int rc, cl;
 
   if (isLoaded)
     return 0;
   h = loadLib (dllName, &errMsg);
   if (NULL == h) {
-    if (NULL != errBuf) {
+    if (NULL != errBuf && errBufSize > 0) {
       int elen;
       char* ebuf;
       elen = errBufSize-1;  ebuf = errBuf;
@@ -1798,14 +1799,17 @@ XLibraryLoad (const char *dllName, char *errBuf, int errBufSize)
   LOADIT(XCheck, "C__XCheck");
   LOADIT(XAPIVersion, "C__XAPIVersion");
 
-  if (!XAPIVersion(11,errBuf,&cl))
+  if (!XAPIVersion(11,checkBuf,&cl)) {
+    if (errBuf && errBufSize > 0)
+      sprintf (errBuf, "%.*s", errBufSize-1, checkBuf);
     return 1;
+  }
 
   LOADIT_ERR_OK(gdxSetLoadPath, "C__gdxSetLoadPath");
   LOADIT_ERR_OK(gdxGetLoadPath, "C__gdxGetLoadPath");
 
 #define CheckAndLoad(f,nargs,prefix) \
-  if (!XCheck(#f,nargs,s,errBuf)) \
+  if (!XCheck(#f,nargs,s,checkBuf)) \
     f = &d_##f; \
   else { \
     LOADIT(f,prefix #f); \
@@ -1914,7 +1918,7 @@ XLibraryLoad (const char *dllName, char *errBuf, int errBufSize)
   if (errBuf && errBufSize>0) {
     int elen;
     char* ebuf;
-    elen = errBufSize;  ebuf = errBuf;
+    elen = errBufSize-1;  ebuf = errBuf;
     rc = sprintf (ebuf, "%.*s", elen, "Could not load symbol '");
     elen -= rc;  ebuf+= rc;
     rc = sprintf (ebuf, "%.*s", elen, symName);
@@ -1925,10 +1929,9 @@ XLibraryLoad (const char *dllName, char *errBuf, int errBufSize)
     /* elen -= rc;  ebuf+= rc; */
     errBuf[errBufSize-1] = '\0';
     /* printf ("%s\n", errBuf); */
-    return 2;
   }
 
- return 0;
+ return 2;
 
 } /* XLibraryLoad */
 
@@ -1952,12 +1955,12 @@ libloader(const char *dllPath, const char *dllName, char *msgBuf, int msgBufSize
 # error "GMS_DLL_SUFFIX expected but not defined"
 #endif
 
-  if (NULL != msgBuf) msgBuf[0] = '\0';
+  if (NULL != msgBuf && msgBufSize > 0) msgBuf[0] = '\0';
 
   if (! isLoaded) {
     if (NULL != dllPath && '\0' != *dllPath) {
-      strncpy(dllNameBuf, dllPath, sizeof(dllNameBuf)-1);
-      dllNameBuf[sizeof(dllNameBuf)-1] = '\0';
+      strncpy(dllNameBuf, dllPath, sizeof(dllNameBuf)-2); /* leave room for the delimiter */
+      dllNameBuf[sizeof(dllNameBuf)-2] = '\0';
 #if defined(_WIN32)
       if ('\\' != dllNameBuf[strlen(dllNameBuf)])
         strcat(dllNameBuf,"\\");
@@ -2015,6 +2018,11 @@ int gdxGetReadyL (const char *libName, char *msgBuf, int msgBufSize)
 {
   char dirName[1024],fName[1024];
   int rc;
+  if (strlen(libName) >= sizeof(dirName)) {
+    if (NULL != msgBuf && msgBufSize > 0)
+      sprintf (msgBuf, "%.*s", msgBufSize-1, "Name of the shared library is too long");
+    return 0;
+  }
   extractFileDirFileName (libName, dirName, fName);
   lock(libMutex);
   rc = libloader(dirName, fName, msgBuf, msgBufSize);
@@ -2143,17 +2151,17 @@ int  gdxCorrectLibraryVersion(char *msgBuf, int msgBufLen)
   if (msgBuf && msgBufLen) msgBuf[0] = '\0';
 
   if (! isLoaded) {
-    strncpy(msgBuf, "Library needs to be initialized first", msgBufLen);
+    if (msgBuf && msgBufLen > 0) sprintf (msgBuf, "%.*s", msgBufLen-1, "Library needs to be initialized first");
     return 0;
   }
 
   if (NULL == XAPIVersion) {
-    strncpy(msgBuf, "Function XAPIVersion not found", msgBufLen);
+    if (msgBuf && msgBufLen > 0) sprintf (msgBuf, "%.*s", msgBufLen-1, "Function XAPIVersion not found");
     return 0;
   }
 
   XAPIVersion(GDXAPIVERSION,localBuf,&cl);
-  strncpy(msgBuf, localBuf, msgBufLen);
+  if (msgBuf && msgBufLen > 0) sprintf (msgBuf, "%.*s", msgBufLen-1, localBuf);
 
   if (1 == cl)
     return 1;
-- 
2.43.0


From 5e4fff7107a2e6b46c7b9d8f11ce6b961300b046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:23 +0000
Subject: [PATCH 96/97] fix: gdxdump reports its output file on the console,
 not in the file

---
 src/tools/gdxdump/gdxdump.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/gdxdump/gdxdump.cpp b/src/tools/gdxdump/gdxdump.cpp
index c4210b2..12589c7 100644
--- a/src/tools/gdxdump/gdxdump.cpp
+++ b/src/tools/gdxdump/gdxdump.cpp
@@ -50,7 +50,7 @@ namespace gdxdump {
 
 using namespace std::literals::string_literals;
 
-std::ostream &fo{std::cout};
+std::ostream fo{std::cout.rdbuf()};
 std::ofstream OutputFile;
 gdxHandle_t PGX;
 char Delim, DecimalSep;
-- 
2.43.0


From ca8b1f9c9600b06c7ef609a453b1fc3634cfed8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:23 +0000
Subject: [PATCH 97/97] fix: the number of labels is forgotten with the file

---
 src/gxfile.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index 622f4ec..e46bfac 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -555,6 +555,7 @@ void TGXFileObj::ReleaseTables()
    AcronymList = nullptr;
    MapSetText.clear();
    NrMappedAdded = 0;
+   UelCntOrig = 0;
 }
 
 int TGXFileObj::gdxClose()
-- 
2.43.0

