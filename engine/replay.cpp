// Native counterpart of the engine intrinsics: runs a harness entry against the real code, with the
// symbolic inputs replaced by the bytes of a counterexample (or sample) file.
//   replay <entry> <vars-file> [args...]      vars-file: one "name=hexbytes" per line
// Exit: 0 the harness ran through, 1 an assertion failed, 77 the inputs violate an assumption, else a crash.
#include <cstdio>
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <string>
#include <map>
#include <vector>
#include <dlfcn.h>
#include <unistd.h>
#include <exception>
#include <csetjmp>
static std::map<std::string,std::vector<unsigned char>> g_vars; static std::map<std::string,int> g_count; static std::vector<long> g_args;
// printed with write, as a harness may redirect the standard streams of the program
static void say( const char* fmt, ...) { char b[ 4000]; va_list ap; va_start( ap, fmt); int n = vsnprintf( b, sizeof(b), fmt, ap); va_end( ap); if (n >= (int)sizeof(b)) n = sizeof(b)-1; for (int i=0; i<n;) { ssize_t k = write( 1, b+i, n-i); if (k <= 0) break; i += k; } }
extern "C" {
void sx_sym( void* p, size_t n, const char* name)
{
	int k = g_count[name]++; std::string nm = name; if (k) nm += "." + std::to_string(k);
	memset( p, 0, n); auto it = g_vars.find( nm); if (it != g_vars.end()) memcpy( p, it->second.data(), it->second.size() < n ? it->second.size() : n);
}
void sx_assume( bool c) { if (!c) { say("REPLAY: assumption not satisfied\n"); _exit(77); } }
void sx_assert( bool c, const char* msg) { if (!c) { say("REPLAY: assertion failed: %s\n", msg); _exit(1); } }
void sx_reach( const char* name) { say("REPLAY: reached %s\n", name); }
void sx_expect( const char*) {}
long sx_arg( int i) { return i < (int)g_args.size() ? g_args[i] : 0; }
uint64_t sx_concretize( uint64_t v) { return v; }
void sx_print( const char* msg, uint64_t v) { say("REPLAY: %s %lld\n", msg, (long long)v); }
bool sx_is_symbolic( uint64_t) { return false; }
void sx_note( const char* s) { say("REPLAY: note %s\n", s); }
uint64_t sx_heap_live() { return 0; }
static std::vector<jmp_buf*> g_jmp;
static void callNoThrow( void (*fn)( void*), void* arg) noexcept { fn( arg); }
int sx_trycall( void (*fn)( void*), void* arg) { jmp_buf b; volatile std::size_t n = g_jmp.size(); g_jmp.push_back( &b); int rc = setjmp( b); if (!rc) callNoThrow( fn, arg); g_jmp.resize( n); return rc; }
void sx_longjmp( int code) { if (g_jmp.empty()) { say("REPLAY: assertion failed: error outside of a protected call\n"); _exit(1); } longjmp( *g_jmp.back(), code); }
}
int main( int argc, char** argv)
{
	if (argc < 3) return 2;
	FILE* f = fopen( argv[2], "r"); if (!f) return 2;
	char* line = 0; size_t cap = 0;
	while (getline( &line, &cap, f) > 0) {
		std::string l = line; while (!l.empty() && (l.back()=='\n'||l.back()=='\r')) l.pop_back();
		size_t e = l.rfind('='); if (e == std::string::npos || l[0]=='#') continue;
		std::vector<unsigned char> b; for (size_t i=e+1; i+1<l.size(); i+=2) b.push_back( (unsigned char)strtoul( l.substr(i,2).c_str(), 0, 16));
		g_vars[ l.substr(0,e)] = b;
	}
	fclose( f); free( line);
	for (int i=3; i<argc; ++i) g_args.push_back( atol( argv[i]));
	void (*fn)() = (void(*)())dlsym( RTLD_DEFAULT, argv[1]);
	if (!fn) { fprintf(stderr,"no entry %s\n", argv[1]); return 2; }
	fn();
	say("REPLAY: completed\n");
	return 0;
}
