// Access to the Lua module of mewa from a harness: everything runs in a protected call, the module is at 1, the type database at 2
#pragma once
#include "sx.h"
#include <cstring>
#include <string>
#include <vector>
extern "C" {
#include <lua.h>
#include <lauxlib.h>
int luaopen_mewa( lua_State* ls);
void lm_order( lua_State* L, int order) __attribute__((weak));
}
typedef void (*Body)( lua_State* L);
static Body theBody;
static int protectedBody( lua_State* L)
{
	lua_checkstack( L, 100); lua_pushcclosure( L, luaopen_mewa, 0); lua_call( L, 0, 1); sx_assert( lua_istable( L, 1), "the module is a table");
	lua_getfield( L, 1, "typedb"); lua_call( L, 0, 1); sx_assert( lua_gettop( L) == 2 && lua_isuserdata( L, 2), "a type database is created");
	theBody( L); return 0;
}
static void withModule( Body body)
{
	theBody = body; lua_State* L = luaL_newstate(); lua_pushcclosure( L, protectedBody, 0);
	int rc = lua_pcall( L, 0, 0, 0);
	if (rc) { const char* m = lua_tostring( L, -1); if (m) sx_assert( false, m); }
	sx_assert( rc == 0, "no error is raised where no error is expected"); lua_close( L); sx_reach("done"); sx_expect("done");
}
// arguments are on top of the stack: calls the method of the type database, returns the number of results or -1 with the message on the stack
static int method( lua_State* L, const char* name, int nargs, int obj = 2)
{
	int base = lua_gettop( L) - nargs; lua_getfield( L, obj, name); sx_assert( lua_isfunction( L, -1), "the method exists"); lua_insert( L, base+1); lua_pushvalue( L, obj); lua_insert( L, base+2);
	int rc = lua_pcall( L, nargs+1, LUA_MULTRET, 0);
	if (rc) { sx_assert( lua_gettop( L) == base+1 && lua_type( L, -1) == LUA_TSTRING, "an error is a message"); return -1; }
	int n = lua_gettop( L) - base; sx_assert( n >= 0, "no value of the caller is removed"); return n;
}
static void pushScope( lua_State* L, int from, int to) { lua_createtable( L, 2, 0); lua_pushinteger( L, from); lua_rawseti( L, -2, 1); lua_pushinteger( L, to); lua_rawseti( L, -2, 2); }
static void getScope( lua_State* L, int idx, int& from, int& to)
{
	sx_assert( lua_istable( L, idx) && lua_rawlen( L, idx) == 2, "a scope is a pair"); lua_rawgeti( L, idx, 1); from = lua_tointeger( L, -1); lua_pop( L, 1); lua_rawgeti( L, idx, 2); to = lua_tointeger( L, -1); lua_pop( L, 1);
}
static void setScope( lua_State* L, int from, int to) { pushScope( L, from, to); int n = method( L, "scope", 1); sx_assert( n == 2, "the scope can be set"); lua_pop( L, 2); }
static void setStep( lua_State* L, int step) { lua_pushinteger( L, step); int n = method( L, "step", 1); sx_assert( n == 1, "the step can be set"); lua_pop( L, 1); }
static int defType( lua_State* L, int ctx, const char* name) { lua_pushinteger( L, ctx); lua_pushstring( L, name); int n = method( L, "def_type", 2); sx_assert( n == 1 && lua_isnumber( L, -1), "a type can be defined"); int r = lua_tointeger( L, -1); lua_pop( L, 1); return r; }
