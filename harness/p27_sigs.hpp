{"gdxAcronymAdd",3,{3,11,11,3}},
{"gdxAcronymCount",0,{3}},
{"gdxAcronymGetInfo",4,{3,3,12,12,4}},
{"gdxAcronymGetMapping",4,{3,3,4,4,4}},
{"gdxAcronymIndex",1,{3,13}},
{"gdxAcronymName",2,{3,13,12}},
{"gdxAcronymNextNr",1,{3,3}},
{"gdxAcronymSetInfo",4,{3,3,11,11,3}},
{"gdxAcronymValue",1,{13,3}},
{"gdxAddAlias",2,{3,11,11}},
{"gdxAddSetText",2,{3,11,4}},
{"gdxAutoConvert",1,{3,3}},
{"gdxClose",0,{3}},
{"gdxDataErrorCount",0,{3}},
{"gdxDataErrorRecord",3,{3,3,52,54}},
{"gdxDataErrorRecordX",3,{3,3,52,54}},
{"gdxDataReadDone",0,{3}},
{"gdxDataReadFilteredStart",3,{3,3,51,4}},
{"gdxDataReadMap",4,{3,3,52,54,4}},
{"gdxDataReadMapStart",2,{3,3,4}},
{"gdxDataReadRaw",3,{3,52,54,4}},
{"gdxDataReadRawFast",3,{3,3,59,4}},
{"gdxDataReadRawFastEx",4,{3,3,59,4,1}},
{"gdxDataReadRawFastFilt",3,{3,3,55,59}},
{"gdxDataReadRawStart",2,{3,3,4}},
{"gdxDataReadSlice",3,{3,55,4,59}},
{"gdxDataReadSliceStart",2,{3,3,52}},
{"gdxDataReadStr",3,{3,56,54,4}},
{"gdxDataReadStrStart",2,{3,3,4}},
{"gdxDataSliceUELS",2,{3,51,56}},
{"gdxDataWriteDone",0,{3}},
{"gdxDataWriteMap",2,{3,51,53}},
{"gdxDataWriteMapStart",5,{3,11,11,3,3,3}},
{"gdxDataWriteRaw",2,{3,51,53}},
{"gdxDataWriteRawStart",5,{3,11,11,3,3,3}},
{"gdxDataWriteRawStartKeyBounds",7,{3,11,11,3,3,3,51,51}},
{"gdxDataWriteStr",2,{3,55,53}},
{"gdxDataWriteStrStart",5,{3,11,11,3,3,3}},
{"gdxGetDLLVersion",1,{3,12}},
{"gdxErrorCount",0,{3}},
{"gdxErrorStr",2,{3,3,12}},
{"gdxFileInfo",2,{3,4,4}},
{"gdxFileVersion",2,{3,12,12}},
{"gdxFilterExists",1,{3,3}},
{"gdxFilterRegister",1,{3,3}},
{"gdxFilterRegisterDone",0,{3}},
{"gdxFilterRegisterStart",1,{3,3}},
{"gdxFindSymbol",2,{3,11,4}},
{"gdxGetElemText",3,{3,3,12,4}},
{"gdxGetLastError",0,{3}},
{"gdxGetMemoryUsed",0,{23}},
{"gdxGetSpecialValues",1,{3,58}},
{"gdxGetUEL",2,{3,3,12}},
{"gdxMapValue",2,{3,13,4}},
{"gdxOpenAppend",3,{3,11,11,4}},
{"gdxOpenRead",2,{3,11,4}},
{"gdxOpenReadEx",3,{3,11,3,4}},
{"gdxOpenWrite",3,{3,11,11,4}},
{"gdxOpenWriteEx",4,{3,11,11,3,4}},
{"gdxResetSpecialValues",0,{3}},
{"gdxSetHasText",1,{3,3}},
{"gdxSetReadSpecialValues",1,{3,57}},
{"gdxSetSpecialValues",1,{3,57}},
{"gdxSetTextNodeNr",2,{3,3,3}},
{"gdxSetTraceLevel",2,{3,3,11}},
{"gdxSymbIndxMaxLength",2,{3,3,52}},
{"gdxSymbMaxLength",0,{3}},
{"gdxSymbolAddComment",2,{3,3,11}},
{"gdxSymbolGetComment",3,{3,3,3,12}},
{"gdxSymbolGetDomain",2,{3,3,52}},
{"gdxSymbolGetDomainX",2,{3,3,56}},
{"gdxSymbolDim",1,{3,3}},
{"gdxSymbolInfo",4,{3,3,12,4,4}},
{"gdxSymbolInfoX",4,{3,3,4,4,12}},
{"gdxSymbolSetDomain",1,{3,55}},
{"gdxSymbolSetDomainX",2,{3,3,55}},
{"gdxSystemInfo",2,{3,4,4}},
{"gdxUELMaxLength",0,{3}},
{"gdxUELRegisterDone",0,{3}},
{"gdxUELRegisterMap",2,{3,3,11}},
{"gdxUELRegisterMapStart",0,{3}},
{"gdxUELRegisterRaw",1,{3,11}},
{"gdxUELRegisterRawStart",0,{3}},
{"gdxUELRegisterStr",2,{3,11,4}},
{"gdxUELRegisterStrStart",0,{3}},
{"gdxUMFindUEL",3,{3,11,4,4}},
{"gdxUMUelGet",3,{3,3,12,4}},
{"gdxUMUelInfo",2,{3,4,4}},
{"gdxGetDomainElements",6,{3,3,3,3,59,4,1}},
{"gdxCurrentDim",0,{3}},
{"gdxRenameUEL",2,{3,11,11}},
{"gdxStoreDomainSets",0,{15}},
{"gdxStoreDomainSetsSet",1,{0,15}},
{"gdxAllowBogusDomains",0,{15}},
{"gdxAllowBogusDomainsSet",1,{0,15}},
{"gdxMapAcronymsToNaN",0,{15}},
{"gdxMapAcronymsToNaNSet",1,{0,15}},