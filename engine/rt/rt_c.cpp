// Model of the C library functions used by the code under test.
#include <cstddef>
#include <cstdint>
#include <cstdarg>
extern "C" {
void* malloc(size_t); void* memcpy(void*,const void*,size_t); size_t strlen(const char*);
int strcmp( const char* a, const char* b) { for (;;++a,++b) { unsigned char x=*a,y=*b; if (x!=y) return x<y?-1:1; if (!x) return 0; } }
int strncmp( const char* a, const char* b, size_t n) { for (;n;--n,++a,++b) { unsigned char x=*a,y=*b; if (x!=y) return x<y?-1:1; if (!x) return 0; } return 0; }
char* strchr( const char* s, int c) { for (;;++s) { if (*s==(char)c) return (char*)s; if (!*s) return 0; } }
char* strrchr( const char* s, int c) { const char* r=0; for (;;++s) { if (*s==(char)c) r=s; if (!*s) return (char*)r; } }
void* memchr( const void* p, int c, size_t n) { const unsigned char* s=(const unsigned char*)p; for (;n;--n,++s) if (*s==(unsigned char)c) return (void*)s; return 0; }
char* strstr( const char* h, const char* n) { if (!*n) return (char*)h; for (;*h;++h) { const char* a=h; const char* b=n; while (*b && *a==*b) {++a;++b;} if (!*b) return (char*)h; } return 0; }
char* strcpy( char* d, const char* s) { char* r=d; while ((*d++ = *s++)) {} return r; }
char* strcat( char* d, const char* s) { strcpy( d+strlen(d), s); return d; }
char* strncpy( char* d, const char* s, size_t n) { size_t i=0; for (; i<n && s[i]; ++i) d[i]=s[i]; for (; i<n; ++i) d[i]=0; return d; }
char* strdup( const char* s) { size_t n=strlen(s); char* r=(char*)malloc(n+1); memcpy(r,s,n+1); return r; }
int tolower( int c) { return c + ((((unsigned)(c-'A')) <= 25u) ? 32 : 0); }
int toupper( int c) { return c - ((((unsigned)(c-'a')) <= 25u) ? 32 : 0); }
int isspace( int c) { return (c==32) | ((unsigned)(c-9)<5u); }
int isdigit( int c) { return (unsigned)(c-'0')<10u; }
int isalpha( int c) { return (unsigned)((c|32)-'a')<26u; }
int isalnum( int c) { return isalpha(c)|isdigit(c); }
int isupper( int c) { return (unsigned)(c-'A')<26u; }
int islower( int c) { return (unsigned)(c-'a')<26u; }
int isblank( int c) { return (c==32)|(c==9); }
int isprint( int c) { return (unsigned)(c-32)<95u; }
int isgraph( int c) { return (unsigned)(c-33)<94u; }
int iscntrl( int c) { return ((unsigned)c<32u)|(c==127); }
int ispunct( int c) { return isgraph(c)&!isalnum(c); }
int isxdigit( int c) { return isdigit(c)|((unsigned)((c|32)-'a')<6u); }
size_t strnlen( const char* s, size_t n) { size_t i=0; while (i<n && s[i]) ++i; return i; }
char* strncat( char* d, const char* s, size_t n) { char* r=d; d+=strlen(d); for (;n && *s;--n) *d++=*s++; *d=0; return r; }
char* stpcpy( char* d, const char* s) { while ((*d = *s)) { ++d; ++s; } return d; }
char* strndup( const char* s, size_t n) { n=strnlen(s,n); char* r=(char*)malloc(n+1); memcpy(r,s,n); r[n]=0; return r; }
static bool inset( const char* set, char c) { for (;*set;++set) if (*set==c) return true; return false; }
size_t strspn( const char* s, const char* set) { size_t i=0; while (s[i] && inset(set,s[i])) ++i; return i; }
size_t strcspn( const char* s, const char* set) { size_t i=0; while (s[i] && !inset(set,s[i])) ++i; return i; }
char* strpbrk( const char* s, const char* set) { for (;*s;++s) if (inset(set,*s)) return (char*)s; return 0; }
char* strchrnul( const char* s, int c) { while (*s && *s!=(char)c) ++s; return (char*)s; }
void* memrchr( const void* p, int c, size_t n) { const unsigned char* s=(const unsigned char*)p; while (n--) if (s[n]==(unsigned char)c) return (void*)(s+n); return 0; }
void* rawmemchr( const void* p, int c) { const unsigned char* s=(const unsigned char*)p; for (;*s!=(unsigned char)c;++s) {} return (void*)s; }
void* memmem( const void* h, size_t hn, const void* n, size_t nn) { const char* a=(const char*)h; const char* b=(const char*)n; for (size_t i=0; i+nn<=hn; ++i) { size_t k=0; while (k<nn && a[i+k]==b[k]) ++k; if (k==nn) return (void*)(a+i); } return 0; }
void* memccpy( void* d, const void* s, int c, size_t n) { char* x=(char*)d; const char* y=(const char*)s; for (;n;--n) if ((unsigned char)(*x++=*y++)==(unsigned char)c) return x; return 0; }
void* mempcpy( void* d, const void* s, size_t n) { memcpy(d,s,n); return (char*)d+n; }
int strcasecmp( const char* a, const char* b) { for (;;++a,++b) { int x=tolower((unsigned char)*a),y=tolower((unsigned char)*b); if (x!=y) return x-y; if (!x) return 0; } }
int strncasecmp( const char* a, const char* b, size_t n) { for (;n;--n,++a,++b) { int x=tolower((unsigned char)*a),y=tolower((unsigned char)*b); if (x!=y) return x-y; if (!x) return 0; } return 0; }
int strcoll( const char* a, const char* b) { return strcmp(a,b); }
char* strtok_r( char* s, const char* sep, char** st) { if (!s) s=*st; s+=strspn(s,sep); if (!*s) { *st=s; return 0; } char* e=s+strcspn(s,sep); if (*e) *e++=0; *st=e; return s; }
static char* g_tok; char* strtok( char* s, const char* sep) { return strtok_r(s,sep,&g_tok); }
long labs( long x) { return x<0?-x:x; }
void qsort( void* p, size_t n, size_t w, int (*cmp)( const void*, const void*)) { char* b=(char*)p; for (size_t i=1; i<n; ++i) for (size_t j=i; j && cmp(b+(j-1)*w,b+j*w)>0; --j) for (size_t k=0; k<w; ++k) { char t=b[(j-1)*w+k]; b[(j-1)*w+k]=b[j*w+k]; b[j*w+k]=t; } }
char* getenv( const char*) { return 0; }
long time( long* t) { if (t) *t=0; return 0; }
int abs( int x) { return x<0?-x:x; }
const char* sx_strerror_txt = "system error";
char* strerror( int) { return (char*)sx_strerror_txt; }
static int g_errno; int* __errno_location() { return &g_errno; }
static long toint( const char* s, char** e, int base, bool sig) // no check of the range of long
{
	const char* p=s; while (isspace((unsigned char)*p)) ++p; int neg=0; if (*p=='-'||*p=='+') { neg=*p=='-'; ++p; }
	if ((base==0||base==16)&&*p=='0'&&(p[1]|32)=='x') { p+=2; base=16; } else if (base==0) base=*p=='0'?8:10;
	long r=0; const char* st=p; for (;;++p) { int d; if (*p>='0'&&*p<='9') d=*p-'0'; else if (isalpha((unsigned char)*p)) d=(*p|32)-'a'+10; else break; if (d>=base) break; r=r*base+d; }
	if (e) *e=(char*)(p==st?s:p); return neg?-r:r;
}
unsigned long strtoul( const char* s, char** e, int b) { return toint(s,e,b,false); }
unsigned long strtoull( const char* s, char** e, int b) { return toint(s,e,b,false); }
long strtoll( const char* s, char** e, int b) { return toint(s,e,b,true); }
long __isoc23_strtol( const char* s, char** e, int b) { return toint(s,e,b,true); }
long __isoc23_strtoll( const char* s, char** e, int b) { return toint(s,e,b,true); }
unsigned long __isoc23_strtoul( const char* s, char** e, int b) { return toint(s,e,b,false); }
unsigned long __isoc23_strtoull( const char* s, char** e, int b) { return toint(s,e,b,false); }
long strtol( const char* s, char** e, int base) { if (base!=10) return toint(s,e,base,true); const char* p=s; while (isspace((unsigned char)*p)) ++p; int neg=0; if (*p=='-'||*p=='+') { neg=*p=='-'; ++p; } long r=0; const char* st=p; if (base==0) base=10; for (; *p>='0'&&*p<='9'; ++p) r=r*base+(*p-'0'); if (e) *e=(char*)(p==st?s:p); return neg?-r:r; }
int atoi( const char* s) { return (int)strtol(s,0,10); }

struct Out { char* b; size_t cap, n; };
static inline void put( Out& o, char c) { if (o.n+1<o.cap) o.b[o.n]=c; ++o.n; }
static void putnum( Out& o, unsigned long v, int base, bool upper, bool neg, int width, bool zero, bool left)
{
	char t[32]; int k=0; do { unsigned d=(unsigned)(v%base); t[k++]=(char)(d<10?'0'+d:(upper?'A':'a')+d-10); v/=base; } while (v);
	int len=k+(neg?1:0);
	if (!zero && !left) for (;width>len;--width) put(o,' ');
	if (neg) put(o,'-');
	if (zero) for (;width>len;--width) put(o,'0');
	while (k) put(o,t[--k]);
	if (left) for (;width>len;--width) put(o,' ');
}
int sx_fmtd( char* b, size_t cap, int conv, int prec, double d);
static void putdouble( Out& o, char conv, double d, int prec, int width, bool left)
{
	char t[512]; int n=sx_fmtd(t,sizeof t,conv,prec,d);
	if (!left) for (;width>n;--width) put(o,' ');
	for (int i=0;i<n;++i) put(o,t[i]);
	if (left) for (;width>n;--width) put(o,' ');
}
int vsnprintf( char* b, size_t cap, const char* fmt, va_list ap)
{
	Out o; o.b=b; o.cap=cap; o.n=0;
	for (const char* p=fmt; *p; ++p)
	{
		if (*p!='%') { put(o,*p); continue; }
		++p; bool zero=false,left=false; int width=0,prec=-1,lng=0;
		for (;;++p) { if (*p=='0') zero=true; else if (*p=='-') left=true; else if (*p=='+'||*p==' '||*p=='#') {} else break; }
		if (*p=='*') { width=va_arg(ap,int); ++p; } else while (*p>='0'&&*p<='9') { width=width*10+(*p-'0'); ++p; }
		if (*p=='.') { ++p; prec=0; if (*p=='*') { prec=va_arg(ap,int); ++p; } else while (*p>='0'&&*p<='9') { prec=prec*10+(*p-'0'); ++p; } }
		while (*p=='l'||*p=='z'||*p=='h'||*p=='t'||*p=='j') { if (*p!='h') ++lng; ++p; }
		switch (*p)
		{
			case 'd': case 'i': { long v = lng ? va_arg(ap,long) : (long)va_arg(ap,int); bool neg=v<0; putnum(o,neg?0ul-(unsigned long)v:(unsigned long)v,10,false,neg,width,zero,left); break; }
			case 'o': { unsigned long v = lng ? va_arg(ap,unsigned long) : (unsigned long)va_arg(ap,unsigned); putnum(o,v,8,false,false,width,zero,left); break; }
			case 'u': case 'x': case 'X': { unsigned long v = lng ? va_arg(ap,unsigned long) : (unsigned long)va_arg(ap,unsigned); putnum(o,v,*p=='u'?10:16,*p=='X',false,width,zero,left); break; }
			case 'c': put(o,(char)va_arg(ap,int)); break;
			case 's': { const char* s=va_arg(ap,const char*); if (!s) s="(null)"; int n=0; if (prec>=0) { while (n<prec && s[n]) ++n; } else n=(int)strlen(s); if (!left) for (;width>n;--width) put(o,' '); for (int i=0;i<n;++i) put(o,s[i]); if (left) for (;width>n;--width) put(o,' '); break; }
			case 'p': put(o,'p'); (void)va_arg(ap,void*); break;
			case 'f': case 'g': case 'e': case 'F': case 'G': case 'E': case 'a': putdouble(o,*p,va_arg(ap,double),prec<0?(*p=='a'?-1:6):prec,width,left); break;
			case '%': put(o,'%'); break;
			default: put(o,*p);
		}
	}
	if (cap) b[o.n<cap?o.n:cap-1]=0;
	return (int)o.n;
}
int snprintf( char* b, size_t cap, const char* fmt, ...) { va_list ap; va_start(ap,fmt); int r=vsnprintf(b,cap,fmt,ap); va_end(ap); return r; }
int sprintf( char* b, const char* fmt, ...) { va_list ap; va_start(ap,fmt); int r=vsnprintf(b,1u<<20,fmt,ap); va_end(ap); return r; }
}
