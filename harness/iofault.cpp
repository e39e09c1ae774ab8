#include "iofault.hpp"
#include <errno.h>
#include <fcntl.h>
#include <unistd.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
IoPlan *g_io;
static bool ours( int fd )
{
   if( !g_io || fd <= 2 ) return false;
   struct stat a, b;
   if( fstat( fd, &a ) || stat( g_io->target.c_str(), &b ) ) return false;
   return a.st_ino == b.st_ino && a.st_dev == b.st_dev && S_ISREG( a.st_mode );
}
static bool hit( long n, int kind ) { return g_io->kind == kind && g_io->failAt >= 0 && ( n == g_io->failAt || ( g_io->persistent && n > g_io->failAt ) ); }
static ssize_t rawWrite( int fd, const void *p, size_t n, int64_t off ) { return off < 0 ? syscall( SYS_write, fd, p, n ) : syscall( SYS_pwrite64, fd, p, n, off ); }
static ssize_t doWrite( int fd, const void *p, size_t n, int64_t off )
{
   if( !ours( fd ) ) return rawWrite( fd, p, n, off );
   long k = g_io->writes++;
   if( hit( k, 0 ) ) { g_io->injected++; errno = g_io->err; return -1; }
   size_t m = n;
   if( g_io->kind == 1 && g_io->failAt >= 0 )
   {
      if( k == g_io->failAt ) { m = n / 2; g_io->injected++; if( !m && g_io->persistent ) { errno = g_io->err; return -1; } if( !m ) m = n; }
      else if( k > g_io->failAt && g_io->persistent ) { g_io->injected++; errno = g_io->err; return -1; }
   }
   int64_t at = off >= 0 ? off : (int64_t) syscall( SYS_lseek, fd, 0, SEEK_CUR );
   ssize_t w = rawWrite( fd, p, m, off );
   if( g_io->record && w > 0 ) g_io->log.push_back( { at, Str( (const char *) p, (size_t) w ), false } );
   return w;
}
extern "C" {
ssize_t write( int fd, const void *p, size_t n ) { return doWrite( fd, p, n, -1 ); }
ssize_t pwrite( int fd, const void *p, size_t n, off_t o ) { return doWrite( fd, p, n, o ); }
ssize_t pwrite64( int fd, const void *p, size_t n, off_t o ) { return doWrite( fd, p, n, o ); }
ssize_t writev( int fd, const struct iovec *v, int c )
{
   Str s;
   for( int i = 0; i < c; i++ ) s.append( (const char *) v[i].iov_base, v[i].iov_len );
   return doWrite( fd, s.data(), s.size(), -1 );
}
static off_t seekImpl( int fd, off_t o, int wh )
{
   if( ours( fd ) )
   {
      long k = g_io->seeks++;
      if( hit( k, 2 ) ) { g_io->injected++; errno = g_io->err; return -1; }
   }
   return syscall( SYS_lseek, fd, o, wh );
}
off_t lseek( int fd, off_t o, int wh ) { return seekImpl( fd, o, wh ); }
off_t lseek64( int fd, off_t o, int wh ) { return seekImpl( fd, o, wh ); }
static int openImpl( const char *path, int fl, int mode )
{
   bool t = g_io && g_io->target == path;
   if( t )
   {
      long k = g_io->opens++;
      if( hit( k, 3 ) ) { g_io->injected++; errno = g_io->err; return -1; }
      if( g_io->record && ( fl & O_TRUNC ) ) g_io->log.push_back( { 0, Str(), true } );
   }
   return (int) syscall( SYS_openat, AT_FDCWD, path, fl, mode );
}
int open( const char *path, int fl, ... ) { va_list ap; va_start( ap, fl ); int m = va_arg( ap, int ); va_end( ap ); return openImpl( path, fl, m ); }
int open64( const char *path, int fl, ... ) { va_list ap; va_start( ap, fl ); int m = va_arg( ap, int ); va_end( ap ); return openImpl( path, fl | O_LARGEFILE, m ); }
int creat( const char *path, mode_t m ) { return openImpl( path, O_CREAT | O_WRONLY | O_TRUNC, (int) m ); }
int close( int fd )
{
   bool t = ours( fd ), h = false;
   if( t ) { long k = g_io->closes++; h = hit( k, 4 ); }
   int rc = (int) syscall( SYS_close, fd );
   if( h ) { g_io->injected++; errno = g_io->err; return -1; }
   return rc;
}
}
