// mewa.tostring: values printed as Lua and read again
#include "sx.h"
#include "luatext.hpp"
#include "lua_serialize.hpp"
#include "error.hpp"
#include <cmath>
extern "C" void lm_order( lua_State* L, int order) __attribute__((weak));
static const double NUM[] = {0, 1, 2, 3, -1, -7, 12, 1000000, 2147483648.0, -2147483649.0, 4294967297.0, 9007199254740992.0, 9223372036854775808.0, 1e300, 0.1, -0.25, 1.5, 3.14159265358979, 2.0000000000000004, 1234567.875, 1e-7, 1e15, 999999999999999.0, 123456789.123};
static const char* WORD[] = {"end","nil","x1","_","and","goto","a b"};
static void pushText( lua_State* L, int maxlen)
{
	int n = sx_pick( "length", maxlen+1); char b[8]; for (int i=0; i<n; ++i) b[i] = (char)sx_u8( "byte", 0, 255); lua_pushlstring( L, b, n);
}
static int entries, textlen, mode;
static void build( lua_State* L, int depth)
{
	lua_checkstack( L, 10);
	switch (sx_pick( "kind", depth ? 4 : 3))
	{
		case 0: if (mode == 0 || mode == 3) lua_pushnumber( L, NUM[ sx_pick( "number", mode == 3 ? 4 : sizeof(NUM)/sizeof(*NUM))]); else lua_pushinteger( L, 7); break;
		case 1: if (mode == 1) pushText( L, textlen); else lua_pushstring( L, "t"); break;
		case 2: lua_pushboolean( L, sx_pick( "bool", 2)); break;
		case 3:
		{
			lua_createtable( L, 0, 0); int n = sx_pick( "entries", entries+1); 
			for (int i=1; i<=n; ++i)
			{
				switch (sx_pick( "key", 4))
				{
					case 0: lua_pushinteger( L, i); break;
					case 1: if (mode == 0 || mode == 3) lua_pushnumber( L, NUM[ sx_pick( "index", mode == 3 ? 6 : sizeof(NUM)/sizeof(*NUM))]); else lua_pushinteger( L, i+1); break;
					case 2: if (mode == 1) pushText( L, textlen); else lua_pushstring( L, i == 1 ? "k" : "b"); break;
					case 3: lua_pushstring( L, WORD[ sx_pick( "word", mode == 1 || mode == 2 ? 7 : 1)]); break;
				}
				build( L, depth-1); lua_rawset( L, -3);
			}
		}
	}
}
static void elidedTable( lua_State* L, bool) { lua_pushlightuserdata( L, (void*)&entries); }
// b may have elided tables: those at level max (0: none)
static bool same( lua_State* L, int a, int b, int level, int max)
{
	lua_checkstack( L, 10);
	if (lua_type( L, a) == LUA_TTABLE && max && level >= max) return lua_islightuserdata( L, b);
	if (lua_type( L, a) != lua_type( L, b)) return false;
	if (lua_type( L, a) != LUA_TTABLE) return lua_rawequal( L, a, b);
	int na = 0, nb = 0, top = lua_gettop( L); bool rt = true;
	lua_pushnil( L); while (lua_next( L, b)) { ++nb; lua_pop( L, 1); }
	lua_pushnil( L); while (rt && lua_next( L, a)) { ++na; lua_pushvalue( L, -2); lua_rawget( L, b); rt = same( L, top+2, top+3, level+1, max); lua_pop( L, 2); }
	lua_settop( L, top); return rt && na == nb;
}
static void check( lua_State* L, int max)
{
	int top = lua_gettop( L); bool ind = sx_pick( "indent", 2); std::string text = mewa::luaToString( L, top, ind, max); sx_assert( lua_gettop( L) == top, "the stack is balanced");
	LuaText rd( text, L); if (max) rd.elided = elidedTable; bool ok = rd.all(); sx_assert( ok, ok ? "" : rd.err);
	sx_assert( lua_gettop( L) == top+1 && same( L, top, top+1, 1, max), "the text printed is the value"); sx_reach("same"); sx_expect("same"); lua_settop( L, top);
}
static void (*theBody)( lua_State* L);
static int protectedBody( lua_State* L) { theBody( L); return 0; }
static void guarded( void (*body)( lua_State* L))
{
	theBody = body; lua_State* L = luaL_newstate(); lua_pushcclosure( L, protectedBody, 0); int rc = lua_pcall( L, 0, 0, 0); sx_assert( rc == 0, "printing a value does not fail"); lua_close( L);
}
static int depth, maxDepth;
// arg0 mode: 0 numbers, 1 texts, 2 shapes and words, 3 keys of numbers and two iteration orders; arg1 nesting, arg2 entries of a table, arg3 length of texts, arg4 maximal depth (0 no limit)
extern "C" void h_print()
{
	mode = sx_arg(0); depth = sx_arg(1); entries = sx_arg(2); textlen = sx_arg(3); maxDepth = sx_arg(4);
	guarded( []( lua_State* L) { build( L, depth); int max = maxDepth ? 1 + sx_pick( "depth", maxDepth) : 0; check( L, max); });
}
// the same table whatever the order its elements are stored
extern "C" void h_order()
{
	mode = 2; entries = sx_arg(0);
	guarded( []( lua_State* L) {
		lua_checkstack( L, 20); lua_createtable( L, 0, 0); static const char* K[] = {"b","a","B","ab","","z"}; static const double D[] = {1,2,-3,1.5,100,0}; int n = entries; bool used[12] = {};
		for (int i=0; i<n; ++i) { int k = sx_pick( "key", 12); sx_assume( !used[k]); used[k] = true; if (k < 6) lua_pushstring( L, K[k]); else lua_pushnumber( L, D[k-6]); lua_pushinteger( L, k); lua_rawset( L, -3); }
		std::string t = mewa::luaToString( L, -1, false, 0);
		lua_createtable( L, 0, 0); for (int k=0; k<12; ++k) if (used[k]) { if (k < 6) lua_pushstring( L, K[k]); else lua_pushnumber( L, D[k-6]); lua_pushinteger( L, k); lua_rawset( L, -3); }
		if (lm_order) lm_order( L, sx_pick( "order", 2));
		std::string u = mewa::luaToString( L, -1, false, 0); sx_assert( t == u, "the text does not depend on the order of insertion"); sx_reach("order"); sx_expect("order");
	});
}
// nested tables: no more of the Lua stack is used than asked for
extern "C" void h_nest()
{
	guarded( []( lua_State* L) {
		int n = sx_arg(0); lua_checkstack( L, 10); lua_createtable( L, 0, 0); for (int i=1; i<n; ++i) { lua_createtable( L, 0, 0); lua_insert( L, -2); if (sx_arg(1)) { lua_setfield( L, -2, "k"); } else lua_rawseti( L, -2, 1); }
		std::string t = mewa::luaToString( L, -1, false, 0); sx_assert( t.size() == (std::size_t)(sx_arg(1) ? 2*n + 4*(n-1) : 2*n), "every table is printed"); sx_reach("nested"); sx_expect("nested");
	});
}
