// Model of files: a file system in memory and what was written to the standard streams. Linked as bitcode for the symbolic execution and, with
// fallback to the C library for everything the harness did not announce, natively.
#include <cstddef>
#include <cstdint>
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#ifdef SX_NATIVE
#include <cstdio>
#include <dlfcn.h>
#include <iostream>
#include <sstream>
#define REAL(name) ((decltype(&::name))dlsym( RTLD_NEXT, #name))
typedef FILE* Fp;
#else
typedef void* Fp;
extern "C" int vsnprintf( char* b, size_t cap, const char* fmt, va_list ap);
#endif
struct File { char name[ 300]; char* b; size_t n, cap; int kind; long limit; File* next; }; // kind: 0 does not exist, 1 file, 2 directory
struct Fh { File* f; size_t pos; int mode, err, eof; Fh* next; };
static File* g_files; static Fh* g_open; static int g_nopen; static bool g_on; static Fh g_std[ 2]; static File g_stdf[ 2];
static File* lookup( const char* name)
{
	for (File* f=g_files; f; f=f->next) if (strcmp( f->name, name) == 0) return f;
	return nullptr;
}
static File* create( const char* name)
{
	File* f = (File*)calloc( 1, sizeof(File)); if (strlen( name) >= sizeof(f->name)) abort();
	strcpy( f->name, name); f->limit = -1; f->next = g_files; g_files = f; return f;
}
static size_t append( File* f, const char* s, size_t n)
{
	if (f->limit >= 0 && f->n + n > (size_t)f->limit) n = (size_t)f->limit > f->n ? (size_t)f->limit - f->n : 0;
	if (f->n + n > f->cap) { size_t cap = (f->n + n) * 2 + 64; char* p = (char*)malloc( cap); if (f->n) memcpy( p, f->b, f->n); free( f->b); f->b = p; f->cap = cap; }
	if (n) memcpy( f->b + f->n, s, n);
	f->n += n; return n;
}
static Fh* handle( Fp fp);
extern "C" {
// ---- interface of the harness
void fm_put( const char* name, const char* data, size_t n) { File* f = lookup( name); if (!f) f = create( name); f->kind = 1; f->n = 0; append( f, data, n); }
void fm_dir( const char* name) { File* f = lookup( name); if (!f) f = create( name); f->kind = 2; }
void fm_none( const char* name) { File* f = lookup( name); if (!f) f = create( name); f->kind = 0; f->n = 0; }
void fm_limit( const char* name, long n) { File* f = lookup( name); if (!f) f = create( name); f->limit = n; }
const char* fm_get( const char* name, size_t* n) { File* f = lookup( name); if (!f || f->kind != 1) return nullptr; *n = f->n; return f->b ? f->b : ""; }
const char* fm_std( int k, size_t* n);
int fm_open() { return g_nopen; }
static void fm_reset()
{
	for (File* f=g_files; f;) { File* x = f->next; free( f->b); free( f); f = x; }
	g_files = nullptr; for (int k=0; k<2; ++k) { free( g_stdf[k].b); memset( &g_stdf[k], 0, sizeof(File)); memset( &g_std[k], 0, sizeof(Fh)); g_stdf[k].kind = 1; g_stdf[k].limit = -1; g_std[k].f = &g_stdf[k]; g_std[k].mode = 2; }
}
void fm_begin();
void fm_end();
}
static Fh* openFile( const char* name, const char* mode, int* ec)
{
	File* f = lookup( name);
	if (f && f->kind == 2 && mode[0] != 'r') { *ec = EISDIR; return nullptr; }
	if (mode[0] == 'r') { if (!f || f->kind == 0) { *ec = ENOENT; return nullptr; } }
	else
	{
		if (!f) { const char* s = strrchr( name, '/'); if (s || !*name) { *ec = ENOENT; return nullptr; } f = create( name); } // directories are not created
		if (f->limit == -2) { *ec = EACCES; return nullptr; }
		f->kind = 1; if (mode[0] == 'w') f->n = 0;
	}
	Fh* h = (Fh*)calloc( 1, sizeof(Fh)); h->f = f; h->mode = mode[0] == 'r' ? 1 : 2; h->next = g_open; g_open = h; ++g_nopen; return h;
}
static int closeFile( Fh* h) { for (Fh** p=&g_open; *p; p=&(*p)->next) if (*p == h) { *p = h->next; break; } --g_nopen; free( h); return 0; }
static size_t readFile( Fh* h, char* p, size_t n)
{
	if (h->f->kind == 2) { h->err = 1; errno = EISDIR; return 0; }
	if (h->mode != 1) { h->err = 1; errno = EBADF; return 0; }
	size_t r = h->f->n - h->pos; if (r >= n) r = n; else h->eof = 1;
	if (r) memcpy( p, h->f->b + h->pos, r);
	h->pos += r; return r;
}
static size_t writeFile( Fh* h, const char* p, size_t n)
{
	if (h->mode != 2) { h->err = 1; errno = EBADF; return 0; }
	size_t r = append( h->f, p, n); if (r < n) { h->err = 1; errno = ENOSPC; } return r;
}
static int getChar( Fh* h) { char c; return readFile( h, &c, 1) == 1 ? (unsigned char)c : -1; }
static int seekFile( Fh* h, long ofs, int whence)
{
	long p = whence == 0 ? ofs : whence == 1 ? (long)h->pos + ofs : (long)h->f->n + ofs;
	if (p < 0) { errno = EINVAL; return -1; }
	if (h->mode != 1 && (size_t)p != h->f->n) abort(); // not modelled: writing somewhere else than at the end
	if ((size_t)p > h->f->n && h->mode == 1) abort();
	h->pos = (size_t)p; h->eof = 0; return 0;
}
static long tellFile( Fh* h) { return h->mode == 1 ? (long)h->pos : (long)h->f->n; }
static char* getLine( char* s, int n, Fh* h) { int i = 0; while (i+1 < n) { int c = getChar( h); if (c < 0) break; s[ i++] = (char)c; if (c == '\n') break; } if (!i) return nullptr; s[ i] = 0; return s; }
#ifdef SX_NATIVE
static std::stringbuf g_cap[ 2]; static std::streambuf* g_old[ 2];
static Fh* handle( Fp fp)
{
	if (!g_on) return nullptr;
	if (fp == stdout) return &g_std[ 0];
	if (fp == stderr) return &g_std[ 1];
	for (Fh* h=g_open; h; h=h->next) if ((Fh*)fp == h) return h;
	return nullptr;
}
static void sync() { if (!g_old[0]) return; for (int k=0; k<2; ++k) { std::string s = g_cap[k].str(); g_cap[k].str( ""); if (!s.empty()) append( &g_stdf[k], s.data(), s.size()); } }
extern "C" {
const char* fm_std( int k, size_t* n) { sync(); *n = g_stdf[k].n; return g_stdf[k].b ? g_stdf[k].b : ""; }
void fm_begin() { fm_reset(); g_on = true; g_old[0] = std::cout.rdbuf( &g_cap[0]); g_old[1] = std::cerr.rdbuf( &g_cap[1]); }
void fm_end() { sync(); g_on = false; std::cout.rdbuf( g_old[0]); std::cerr.rdbuf( g_old[1]); g_old[0] = nullptr; }
FILE* fopen( const char* name, const char* mode) { if (!g_on) return REAL(fopen)( name, mode); int ec; Fh* h = openFile( name, mode, &ec); if (!h) errno = ec; return (FILE*)h; }
int fclose( FILE* f) { Fh* h = handle( f); return h ? closeFile( h) : REAL(fclose)( f); }
size_t fread( void* p, size_t s, size_t n, FILE* f) { Fh* h = handle( f); return h ? readFile( h, (char*)p, s*n) / (s ? s : 1) : REAL(fread)( p, s, n, f); }
size_t fwrite( const void* p, size_t s, size_t n, FILE* f) { Fh* h = handle( f); if (h) sync(); return h ? writeFile( h, (const char*)p, s*n) / (s ? s : 1) : REAL(fwrite)( p, s, n, f); }
int fputs( const char* s, FILE* f) { Fh* h = handle( f); if (!h) return REAL(fputs)( s, f); sync(); size_t n = strlen( s); return writeFile( h, s, n) == n ? 1 : -1; }
int fputc( int c, FILE* f) { Fh* h = handle( f); if (!h) return REAL(fputc)( c, f); sync(); char b = c; return writeFile( h, &b, 1) == 1 ? c : -1; }
int puts( const char* s) { Fh* h = handle( stdout); if (!h) return REAL(puts)( s); sync(); writeFile( h, s, strlen( s)); return writeFile( h, "\n", 1) == 1 ? 1 : -1; }
int fflush( FILE* f) { return f && handle( f) ? 0 : REAL(fflush)( f); }
int ferror( FILE* f) { Fh* h = handle( f); return h ? h->err : REAL(ferror)( f); }
int feof( FILE* f) { Fh* h = handle( f); return h ? h->eof : REAL(feof)( f); }
int fgetc( FILE* f) { Fh* h = handle( f); return h ? getChar( h) : REAL(fgetc)( f); }
int getc( FILE* f) { Fh* h = handle( f); return h ? getChar( h) : REAL(getc)( f); }
char* fgets( char* s, int n, FILE* f) { Fh* h = handle( f); return h ? getLine( s, n, h) : REAL(fgets)( s, n, f); }
int fseek( FILE* f, long ofs, int whence) { Fh* h = handle( f); return h ? seekFile( h, ofs, whence) : REAL(fseek)( f, ofs, whence); }
long ftell( FILE* f) { Fh* h = handle( f); return h ? tellFile( h) : REAL(ftell)( f); }
void rewind( FILE* f) { Fh* h = handle( f); if (h) { seekFile( h, 0, 0); h->err = 0; } else REAL(rewind)( f); }
void clearerr( FILE* f) { Fh* h = handle( f); if (h) h->err = h->eof = 0; else REAL(clearerr)( f); }
int vfprintf( FILE* f, const char* fmt, va_list ap) { Fh* h = handle( f); if (!h) return REAL(vfprintf)( f, fmt, ap); sync(); char m[ 4096]; int n = vsnprintf( m, sizeof(m), fmt, ap); size_t w = (size_t)n < sizeof(m) ? (size_t)n : sizeof(m)-1; return writeFile( h, m, w) == w ? n : -1; }
int fprintf( FILE* f, const char* fmt, ...) { va_list ap; va_start( ap, fmt); int r = vfprintf( f, fmt, ap); va_end( ap); return r; }
int remove( const char* name) { if (!g_on) return REAL(remove)( name); File* f = lookup( name); if (!f || f->kind == 0) { errno = ENOENT; return -1; } f->kind = 0; return 0; }
}
#else
static Fh* handle( Fp fp) { return (Fh*)fp; }
extern "C" {
Fp stdout = &g_std[ 0]; Fp stderr = &g_std[ 1]; Fp stdin = nullptr;
static void out( int k, const char* s, size_t n) { if (g_on) append( &g_stdf[ k], s, n); }
void fm_stream( int k, const char* s, size_t n) { out( k, s, n); }
const char* fm_std( int k, size_t* n) { *n = g_stdf[k].n; return g_stdf[k].b ? g_stdf[k].b : ""; }
void fm_begin() { fm_reset(); g_on = true; }
void fm_end() { g_on = false; }
static bool isstd( Fp f) { return f == &g_std[0] || f == &g_std[1]; }
Fp fopen( const char* name, const char* mode) { int ec = 0; Fh* h = openFile( name, mode, &ec); if (!h) errno = ec; return h; }
int fclose( Fp f) { return isstd( f) ? 0 : closeFile( (Fh*)f); }
size_t fread( void* p, size_t s, size_t n, Fp f) { return readFile( (Fh*)f, (char*)p, s*n) / (s ? s : 1); }
size_t fwrite( const void* p, size_t s, size_t n, Fp f) { if (isstd( f) && !g_on) return n; return writeFile( (Fh*)f, (const char*)p, s*n) / (s ? s : 1); }
int fputs( const char* s, Fp f) { size_t n = strlen( s); return fwrite( s, 1, n, f) == n ? 1 : -1; }
int fputc( int c, Fp f) { char b = c; return fwrite( &b, 1, 1, f) == 1 ? c : -1; }
int putc( int c, Fp f) { return fputc( c, f); }
int putchar( int c) { return fputc( c, stdout); }
int puts( const char* s) { fputs( s, stdout); return fputc( '\n', stdout); }
int fflush( Fp) { return 0; }
int ferror( Fp f) { return ((Fh*)f)->err; }
int feof( Fp f) { return ((Fh*)f)->eof; }
int vfprintf( Fp f, const char* fmt, va_list ap) { char m[ 4096]; int n = vsnprintf( m, sizeof(m), fmt, ap); size_t w = (size_t)n < sizeof(m) ? (size_t)n : sizeof(m)-1; return fwrite( m, 1, w, f) == w ? n : -1; }
int fprintf( Fp f, const char* fmt, ...) { va_list ap; va_start( ap, fmt); int r = vfprintf( f, fmt, ap); va_end( ap); return r; }
int printf( const char* fmt, ...) { va_list ap; va_start( ap, fmt); int r = vfprintf( stdout, fmt, ap); va_end( ap); return r; }
int vprintf( const char* fmt, va_list ap) { return vfprintf( stdout, fmt, ap); }
int fgetc( Fp f) { return getChar( (Fh*)f); }
int getc( Fp f) { return getChar( (Fh*)f); }
char* fgets( char* s, int n, Fp f) { return getLine( s, n, (Fh*)f); }
int fseek( Fp f, long ofs, int whence) { return seekFile( (Fh*)f, ofs, whence); }
long ftell( Fp f) { return tellFile( (Fh*)f); }
void rewind( Fp f) { seekFile( (Fh*)f, 0, 0); ((Fh*)f)->err = 0; }
void clearerr( Fp f) { ((Fh*)f)->err = ((Fh*)f)->eof = 0; }
void perror( const char*) {}
int remove( const char* name) { File* f = lookup( name); if (!f || f->kind == 0) { errno = ENOENT; return -1; } f->kind = 0; return 0; }
int unlink( const char* name) { return remove( name); }
char* __xpg_basename( char* s)
{
	if (!s || !*s) return (char*)".";
	size_t n = strlen( s); while (n > 1 && s[n-1] == '/') s[ --n] = 0;
	if (n == 1 && s[0] == '/') return s;
	char* p = strrchr( s, '/'); return p ? p+1 : s;
}
}
#endif
