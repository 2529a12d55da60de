// Model of std::ostringstream (layout of libstdc++, char buffer only; precision, width, fill, base, fixed/scientific and boolalpha are observed) for the symbolic execution
#include <cstddef>
#include <cstdlib>
#include <cstring>
#include <cstdio>
#include <locale>
#include <string>
#include <new>
struct Buf { void* vptr; char *ib, *ic, *ie, *ob, *oc, *oe; void* loc; int mode; char* sp; size_t sn; char sl[16]; };
struct Oss { void** vptr; Buf buf; };
static_assert( sizeof(Oss) == 112, "layout of std::ostringstream");
static void* vtable[ 8] = { (void*)(long)sizeof(Oss), nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr};
extern "C" void fm_stream( int k, const char* s, size_t n);
extern "C" { struct StdOut { void** vptr; char ios[ 264]; }; extern StdOut _ZSt4cout, _ZSt4cerr, _ZSt4clog; }
static void put( void* os, const char* s, size_t n)
{
	if (os == (void*)&_ZSt4cout) { fm_stream( 0, s, n); return; }
	if (os == (void*)&_ZSt4cerr || os == (void*)&_ZSt4clog) { fm_stream( 1, s, n); return; }
	Buf& b = ((Oss*)os)->buf; size_t len = b.oc - b.ob, cap = b.oe - b.ob;
	if (len + n > cap) { cap = (len+n)*2 + 64; char* p = (char*)malloc( cap); if (len) memcpy( p, b.ob, len); free( b.ob); b.ob = p; b.oc = p + len; b.oe = p + cap; }
	memcpy( b.oc, s, n); b.oc += n;
}
struct Ios { void** vptr; long precision; long width; unsigned flags; }; // head of std::ios_base
static Ios& ios( void* os) { return *(Ios*)((char*)os + (long)((void**)*(void***)os)[-3]); }
static char& fill( void* os) { return *((char*)&ios( os) + 224); }
static void padded( void* os, const char* s, size_t n)
{
	Ios& f = ios( os); size_t w = f.width > 0 ? (size_t)f.width : 0; f.width = 0; bool left = f.flags & 0x20; char c = fill( os);
	if (!left) for (size_t i=n; i<w; ++i) put( os, &c, 1);
	put( os, s, n);
	if (left) for (size_t i=n; i<w; ++i) put( os, &c, 1);
}
static std::ctype<char>* ctype() // for std::endl
{
	static char mem[ sizeof(std::ctype<char>)]; std::ctype<char>* c = (std::ctype<char>*)(void*)mem;
	if (!c->_M_widen_ok) { for (int i=0; i<256; ++i) c->_M_widen[ i] = (char)i; c->_M_widen_ok = 1; }
	return c;
}
static void initios( void* os) { ios( os).precision = 6; ios( os).flags = 0x1002; fill( os) = ' '; (&fill( os))[1] = 1; *(std::ctype<char>**)((char*)&ios( os) + 240) = ctype(); }
static void* num( void* os, const char* fmt, long v)
{
	char m[32]; unsigned b = ios( os).flags; const char* f = (b & 8) ? (b & 0x4000 ? "%lX" : "%lx") : fmt; if (b & 0x40) { int k = 31; unsigned long u = (unsigned long)v; do { m[--k] = '0' + (u & 7); u >>= 3; } while (u); padded( os, m+k, 31-k); return os; }
	int n = snprintf( m, sizeof(m), f, v); padded( os, m, n); return os;
}
static void setbuf_( Buf& b, const std::string* s) { size_t n = s->size(); b.ob = (char*)malloc( n+64); memcpy( b.ob, s->data(), n); b.oc = b.ob + n; b.oe = b.ob + n + 64; }
static int& state( void* is) { return ((int*)&ios( is))[ 8]; }
static long& gcount( void* is) { return ((long*)is)[ 1]; }
static int nextc( void* is, bool consume) // the position to read is kept in ic
{
	bool both = ((long*)*(void***)is)[ -3] == 128; Buf& b = *(Buf*)((char*)is + (both ? 24 : 16));
	size_t n = b.oc - b.ob, k = (size_t)b.ic; if (both && (size_t)b.ie > n) n = (size_t)b.ie;
	if (k >= n) return -1;
	if (consume) b.ic = (char*)(k+1);
	return (unsigned char)b.ob[ k];
}
extern "C" {
// used by inlined destructors
extern void* const _ZTTNSt7__cxx1119basic_ostringstreamIcSt11char_traitsIcESaIcEEE[ 4] = { vtable+3, vtable+3, vtable+3, vtable+3};
extern void* const _ZTVNSt7__cxx1115basic_stringbufIcSt11char_traitsIcESaIcEEE[ 16] = {};
extern void* const _ZTVSt15basic_streambufIcSt11char_traitsIcEE[ 16] = {};
void _ZNSt7__cxx1119basic_ostringstreamIcSt11char_traitsIcESaIcEEC1Ev( Oss* o) { memset( o, 0, sizeof(Oss) + 264); o->vptr = vtable + 3; o->buf.sp = o->buf.sl; initios( o); }
void _ZNSt7__cxx1119basic_ostringstreamIcSt11char_traitsIcESaIcEED1Ev( Oss* o) { free( o->buf.ob); o->buf.ob = nullptr; }
// std::cout, std::cerr
static void* stdvt[ 8] = { (void*)8l, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr};
StdOut _ZSt4cout = { stdvt + 3, {}}, _ZSt4cerr = { stdvt + 3, {}}, _ZSt4clog = { stdvt + 3, {}};
struct InitStd { InitStd() { initios( &_ZSt4cout); initios( &_ZSt4cerr); initios( &_ZSt4clog); } };
static InitStd g_initStd;
// std::stringstream: two bases, the one to write to behind the one to read from
static void* ssvt1[ 8] = { (void*)128l, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr};
extern void* const _ZTTNSt7__cxx1118basic_stringstreamIcSt11char_traitsIcESaIcEEE[ 10] = { ssvt1+3, ssvt1+3, ssvt1+3, vtable+3, vtable+3, vtable+3, vtable+3, vtable+3, vtable+3, vtable+3};
void _ZNSt7__cxx1118basic_stringstreamIcSt11char_traitsIcESaIcEEC1Ev( char* p) { memset( p, 0, 128+264); *(void***)p = ssvt1+3; Oss* o = (Oss*)(p+16); o->vptr = vtable + 3; o->buf.sp = o->buf.sl; initios( o); }
void _ZNSt7__cxx1118basic_stringstreamIcSt11char_traitsIcESaIcEED1Ev( char* p) { Oss* o = (Oss*)(p+16); free( o->buf.ob); o->buf.ob = nullptr; }
void _ZNKSt7__cxx1118basic_stringstreamIcSt11char_traitsIcESaIcEE3strEv( std::string* r, char* p) { Buf& b = ((Oss*)(p+16))->buf; if (b.oc > b.ob) new (r) std::string( b.ob, b.oc - b.ob); else new (r) std::string(); }
void* _ZSt4endlIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_( void* o) { put( o, "\n", 1); return o; }
void* _ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PKc( void* o, const char* s) { padded( o, s, strlen( s)); return o; }
void* _ZNSo5flushEv( void* o) { return o; }
void* _ZNSo5writeEPKcl( void* o, const char* s, long n) { put( o, s, n); return o; }
void* _ZNSolsEs( void* o, short v) { return num( o, ios( o).flags & 0x48 ? "%lu" : "%ld", ios( o).flags & 0x48 ? (long)(unsigned short)v : (long)v); }
void* _ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l( void* o, const char* s, long n) { padded( o, s, n); return o; }
void* _ZNSolsEi( void* o, int v) { return num( o, ios( o).flags & 0x48 ? "%lu" : "%ld", ios( o).flags & 0x48 ? (long)(unsigned)v : (long)v); }
void* _ZNSo9_M_insertIlEERSoT_( void* o, long v) { return num( o, "%ld", v); }
void* _ZNSo9_M_insertImEERSoT_( void* o, long v) { return num( o, "%lu", v); }
void* _ZNSo9_M_insertIxEERSoT_( void* o, long v) { return num( o, "%ld", v); }
void* _ZNSo9_M_insertIyEERSoT_( void* o, long v) { return num( o, "%lu", v); }
void* _ZNSo9_M_insertIbEERSoT_( void* o, bool v) { if (ios( o).flags & 1) padded( o, v ? "true" : "false", v ? 4 : 5); else num( o, "%ld", v); return o; }
void* _ZNSo9_M_insertIdEERSoT_( void* o, double v)
{
	char m[400]; Ios& f = ios( o); unsigned k = f.flags & 0x104; const char* fmt = k == 4 ? "%.*f" : k == 0x100 ? "%.*e" : "%.*g"; int n = snprintf( m, sizeof(m), fmt, (int)f.precision, v); padded( o, m, n); return o;
}
void* _ZNSo3putEc( void* o, char c) { put( o, &c, 1); return o; }
void _ZNSt9basic_iosIcSt11char_traitsIcEE5clearESt12_Ios_Iostate( void* p, int st) { ((int*)p)[ 8] = st; }
struct Pos { long off; long st; };
Pos _ZNSo5tellpEv( void* o) { if (o == (void*)&_ZSt4cout || o == (void*)&_ZSt4cerr || o == (void*)&_ZSt4clog) abort(); Buf& b = ((Oss*)o)->buf; return Pos{ b.oc - b.ob, 0}; }
// std::istringstream and reading from a std::stringstream
static void* isvt[ 8] = { (void*)120l, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr};
extern void* const _ZTTNSt7__cxx1119basic_istringstreamIcSt11char_traitsIcESaIcEEE[ 4] = { isvt+3, isvt+3, isvt+3, isvt+3};
void _ZNSt7__cxx1119basic_istringstreamIcSt11char_traitsIcESaIcEEC1Ev( char* p) { memset( p, 0, 120+264); *(void***)p = isvt+3; ((Buf*)(p+16))->sp = ((Buf*)(p+16))->sl; initios( p); }
void _ZNSt7__cxx1119basic_istringstreamIcSt11char_traitsIcESaIcEEC1ERKNS_12basic_stringIcS2_S3_EESt13_Ios_Openmode( char* p, const std::string* s, int) { _ZNSt7__cxx1119basic_istringstreamIcSt11char_traitsIcESaIcEEC1Ev( p); setbuf_( *(Buf*)(p+16), s); }
void _ZNSt7__cxx1119basic_istringstreamIcSt11char_traitsIcESaIcEED1Ev( char* p) { Buf& b = *(Buf*)(p+16); free( b.ob); b.ob = nullptr; }
void _ZNSt7__cxx1118basic_stringstreamIcSt11char_traitsIcESaIcEEC1ERKNS_12basic_stringIcS2_S3_EESt13_Ios_Openmode( char* p, const std::string* s, int) { _ZNSt7__cxx1118basic_stringstreamIcSt11char_traitsIcESaIcEEC1Ev( p); setbuf_( ((Oss*)(p+16))->buf, s); ((Oss*)(p+16))->buf.oc = ((Oss*)(p+16))->buf.ob; ((Oss*)(p+16))->buf.ie = (char*)s->size(); }
void* _ZSt7getlineIcSt11char_traitsIcESaIcEERSt13basic_istreamIT_T0_ES7_RNSt7__cxx1112basic_stringIS4_S5_T1_EES4_( void* is, std::string* s, char d)
{
	if (state( is)) { state( is) |= 4; return is; }
	s->clear(); bool got = false;
	for (;;) { int c = nextc( is, true); if (c < 0) { state( is) |= 2; break; } got = true; if ((char)c == d) return is; s->push_back( (char)c); }
	if (!got) state( is) |= 4;
	return is;
}
static bool skipws( void* is) { if (state( is)) { state( is) |= 4; return false; } for (;;) { int c = nextc( is, false); if (c < 0) { state( is) |= 6; return false; } if (c != ' ' && (c < 9 || c > 13)) return true; nextc( is, true); } }
void* _ZStrsIcSt11char_traitsIcESaIcEERSt13basic_istreamIT_T0_ES7_RNSt7__cxx1112basic_stringIS4_S5_T1_EE( void* is, std::string* s)
{
	if (!skipws( is)) return is;
	s->clear(); for (;;) { int c = nextc( is, false); if (c < 0) { state( is) |= 2; break; } if (c == ' ' || (c >= 9 && c <= 13)) break; s->push_back( (char)c); nextc( is, true); }
	return is;
}
void* _ZStrsIcSt11char_traitsIcEERSt13basic_istreamIT_T0_ES6_RS3_( void* is, char* r) { if (skipws( is)) *r = (char)nextc( is, true); return is; }
static void* readnum( void* is, long* r, long lo, long hi)
{
	if (!skipws( is)) return is;
	int c = nextc( is, false); bool neg = c == '-', any = false, over = false; if (c == '-' || c == '+') nextc( is, true);
	long v = 0;
	for (;;) { c = nextc( is, false); if (c < 0) { state( is) |= 2; break; } if (c < '0' || c > '9') break; nextc( is, true); any = true; if (__builtin_mul_overflow( v, 10l, &v) || __builtin_sub_overflow( v, (long)(c - '0'), &v)) over = true; }
	if (!any) { state( is) |= 4; *r = 0; return is; }
	if (!neg) { if (v == -v && v) over = true; v = -v; }
	if (over || v < lo || v > hi) { state( is) |= 4; *r = neg ? lo : hi; } else *r = v;
	return is;
}
void* _ZNSirsERi( void* is, int* r) { long v = *r; readnum( is, &v, -2147483648l, 2147483647l); *r = (int)v; return is; }
void* _ZNSi10_M_extractIlEERSiRT_( void* is, long* r) { return readnum( is, r, -9223372036854775807l-1, 9223372036854775807l); }
int _ZNSi4peekEv( void* is) { gcount( is) = 0; if (state( is)) { state( is) |= 4; return -1; } int c = nextc( is, false); if (c < 0) state( is) |= 2; return c; }
int _ZNSi3getEv( void* is) { gcount( is) = 0; if (state( is)) { state( is) |= 4; return -1; } int c = nextc( is, true); if (c < 0) state( is) |= 6; else gcount( is) = 1; return c; }
void* _ZNSi3getERc( void* is, char* r) { int c = _ZNSi3getEv( is); if (c >= 0) *r = (char)c; return is; }
void _ZNSt8ios_baseD2Ev( void*) {}
}
