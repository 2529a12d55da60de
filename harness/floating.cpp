// Floating point numbers printed for LLVM: all doubles of a class of exponents
#include "binding.hpp"
static double bits( unsigned long v) { double d; std::memcpy( &d, &v, 8); return d; }
static unsigned long bitsOf( double d) { unsigned long v; std::memcpy( &v, &d, 8); return v; }
static float fbits( unsigned v) { float f; std::memcpy( &f, &v, 4); return f; }
static unsigned fbitsOf( float f) { unsigned v; std::memcpy( &v, &f, 4); return v; }
static bool eq( double a, double b) { return a == b || (a != a && b != b); }
// the number a hexadecimal constant of LLVM stands for
static unsigned long readHex( lua_State* L, int digits)
{
	sx_assert( lua_type( L, -1) == LUA_TSTRING, "a string is returned"); size_t n; const char* s = lua_tolstring( L, -1, &n); sx_assert( n >= 1 && n <= 16, "the number has 1 to 16 digits");
	unsigned long v = 0; bool hex = true; for (size_t i=0; i<n; ++i) { unsigned c = (unsigned char)s[i]; bool d = (c >= '0') & (c <= '9'), u = (c >= 'A') & (c <= 'F'); hex &= d | u; v = (v << 4) | (c - (d ? '0' : 'A'-10)) & 15; }
	sx_assert( hex, "only digits and upper case letters A to F"); return v;
}
static int call( lua_State* L, const char* fn, double x) { lua_getfield( L, 1, fn); lua_pushnumber( L, x); int rc = lua_pcall( L, 1, LUA_MULTRET, 0); sx_assert( rc == 0, "every number is accepted"); return lua_gettop( L); }
// a double: sign and exponent class from the arguments, the rest symbolic
static unsigned long number()
{
	unsigned long v; sx_sym( &v, 8, "number"); int lo = sx_arg(0), hi = sx_arg(1); unsigned e = (v >> 52) & 2047; sx_assume( e >= lo && e <= hi); return v;
}
static void bodyDouble( lua_State* L)
{
	unsigned long v = number(); int top = lua_gettop( L); int n = call( L, "llvm_double_tohex", bits( v)); sx_assert( n == top+1, "one result"); 
	unsigned long r = readHex( L, 16); sx_assert( eq( bits( r), bits( v)), "the constant is the number"); sx_assert( (bits(v) != bits(v)) | ((r >> 63) == (v >> 63)), "the constant has the sign of the number"); sx_reach("number"); sx_expect("number");
}
extern "C" void h_double() { withModule( bodyDouble); }
static void bodyFloat( lua_State* L)
{
	unsigned long v = number(); double x = bits( v); int top = lua_gettop( L); int n = call( L, "llvm_float_tohex", x); sx_assert( n == top+1, "one result");
	unsigned long r = readHex( L, 16); double d = bits( r);
	if (x != x) { sx_assert( d != d, "not a number stays not a number"); sx_reach("number"); return; }
	sx_assert( (r >> 63) == (v >> 63), "the constant has the sign of the number"); unsigned long a = r & ~(1ul<<63), m = v & ~(1ul<<63); unsigned e = a >> 52;
	if (e == 2047) { sx_assert( a == 2047ul << 52 && m >= bitsOf( 0x1.ffffffp127), "only numbers too big for a float are printed as infinite"); sx_reach("number"); return; }
	// exactly representable as float, what LLVM requires
	if (e >= 897) sx_assert( (a & 0x1fffffff) == 0 && e <= 1150, "the constant is a float");
	else { int s = 897 - e + 29; sx_assert( a == 0 || (e >= 874 && (a & ((1ul << (s > 52 ? 52 : s))-1)) == 0), "the constant is a float"); }
	// nothing closer: the distance to the number is at most half of the distance to the next float
	unsigned fb = fbitsOf( (float)bits( a)); double y = bits( m), at = bits( a), up = fbits( fb+1), dn = fb ? fbits( fb-1) : 0.0; if (fb == 0x7f7fffff) up = 0x1p128;
	sx_assert( y <= (at + up)/2 && (fb == 0 || y >= (at + dn)/2), "no other float is closer to the number"); sx_reach("number");
}
extern "C" void h_float() { withModule( bodyFloat); sx_expect("number"); }
// Numbers are required
static void bodyArguments( lua_State* L)
{
	const char* F[] = {"llvm_float_tohex","llvm_double_tohex"}; lua_settop( L, 1); lua_getfield( L, 1, F[ sx_pick( "function", 2)]); int n = sx_pick( "nargs", 3), t = n ? sx_pick( "type", 6) : 0;
	for (int i=0; i<n; ++i) switch (i ? 5 : t) { case 0: lua_pushnil( L); break; case 1: lua_pushboolean( L, 1); break; case 2: lua_createtable( L, 0, 0); break; case 3: lua_pushstring( L, "x"); break; case 4: lua_pushstring( L, "1"); break; default: lua_pushnumber( L, 1.5); }
	bool ok = n == 1 && t == 5; int rc = lua_pcall( L, n, LUA_MULTRET, 0); if (t != 4 || n != 1) sx_assert( (rc == 0) == ok, "one number is expected"); sx_assert( lua_gettop( L) == 2 && lua_type( L, 2) == LUA_TSTRING, "the result is a string or an error message"); sx_reach( ok ? "result" : "error"); sx_expect("result"); sx_expect("error");
}
extern "C" void h_arguments() { withModule( bodyArguments); }
