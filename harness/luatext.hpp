// Reader of Lua table constructors as printed by the code under test: pushes the value on the Lua stack
#pragma once
#include "sx.h"
#include <cstring>
#include <cstdlib>
#include <string>
extern "C" {
#include <lua.h>
#include <lauxlib.h>
}
static int dummyFunction( lua_State*) { return 0; }
struct LuaText
{
	const char* s; const char* e; lua_State* L; const char* err = nullptr; void (*elided)( lua_State* L, bool) = nullptr; lua_CFunction member = dummyFunction;
	LuaText( const std::string& t, lua_State* L_) :s(t.data()),e(t.data()+t.size()),L(L_) {}
	static bool al( unsigned char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_'; }
	static bool di( unsigned char c) { return c >= '0' && c <= '9'; }
	static bool reserved( const std::string& k)
	{
		static const char* R[] = {"and","break","do","else","elseif","end","false","for","function","goto","if","in","local","nil","not","or","repeat","return","then","true","until","while"};
		for (const char* r : R) if (k == r) return true;
		return false;
	}
	bool fail( const char* m) { if (!err) err = m; return false; }
	void ws() { while (s < e && (*s == ' ' || *s == '\t' || *s == '\n' || *s == '\r')) ++s; }
	bool ch( char c) { ws(); if (s < e && *s == c) { ++s; return true; } return false; }
	std::string ident() { std::string r; while (s < e && (al( *s) || di( *s))) r += *s++; return r; }
	bool str( std::string& r)
	{
		char q = *s++;
		for (;;)
		{
			if (s == e || *s == '\n' || *s == '\r') return fail( "a string in the output ends in its line");
			if (*s == q) { ++s; return true; }
			if (*s == '\\')
			{
				if (++s == e) return fail( "a string in the output ends");
				if (di( *s)) { int v = 0; for (int k=0; k<3 && s < e && di( *s); ++k) v = v*10 + *s++ - '0'; if (v > 255) return fail( "a decimal escape is a byte"); r += (char)v; }
				else if (*s == 'x')
				{
					int v = 0; ++s; for (int k=0; k<2; ++k, ++s) { if (s == e || !((*s >= '0' && *s <= '9') || ((*s|32) >= 'a' && (*s|32) <= 'f'))) return fail( "a hexadecimal escape has two digits"); v = v*16 + (*s <= '9' ? *s - '0' : (*s|32) - 'a' + 10); } r += (char)v;
				}
				else
				{
					static const char* F = "abfnrtv\\\"'\n"; static const char* T = "\a\b\f\n\r\t\v\\\"'\n"; int k = 0; while (F[k] && F[k] != *s) ++k;
					if (!F[k]) return fail( "escapes in strings of the output are escapes of Lua"); r += T[k]; ++s;
				}
			}
			else r += *s++;
		}
	}
	bool value( const std::string& key)
	{
		lua_checkstack( L, 10); ws(); if (s == e) return fail( "a value is printed");
		if (*s == '{') return table();
		if (*s == '"' || *s == '\'') { std::string r; if (!str( r)) return false; lua_pushlstring( L, r.data(), r.size()); return true; }
		if (*s == '-' || di( *s))
		{
			std::string n; if (*s == '-') n += *s++; if (s == e || !di( *s)) return fail( "a number has digits"); bool in = true;
			while (s < e && di( *s)) n += *s++;
			if (s < e && *s == '.') { in = false; n += *s++; while (s < e && di( *s)) n += *s++; }
			if (s < e && (*s|32) == 'e') { in = false; n += *s++; if (s < e && (*s == '-' || *s == '+')) n += *s++; if (s == e || !di( *s)) return fail( "an exponent has digits"); while (s < e && di( *s)) n += *s++; }
			if (s < e && al( *s)) return fail( "a number is well formed"); double d = std::strtod( n.c_str(), nullptr); if (in && d > -1e15 && d < 1e15) lua_pushinteger( L, (long)d); else lua_pushnumber( L, d); return true;
		}
		if (elided && *s == '.') { for (int k=0; k<3; ++k) if (s == e || *s++ != '.') return fail( "an elided table is three dots"); elided( L, true); return true; }
		if (al( *s))
		{
			std::string id = ident(); if (id == "true" || id == "false") { lua_pushboolean( L, id == "true"); return true; } if (id == "nil") { lua_pushnil( L); return true; }
			if (id != "typesystem") { if (key == "proc" || key == "obj") return fail( "only members of the typesystem are referred to"); lua_pushnil( L); return true; }
			while (s < e && *s == '.') { ++s; if (ident().empty()) return fail( "a member has a name"); }
			if (key == "obj") lua_createtable( L, 0, 0); else lua_pushcclosure( L, member, 0); return true;
		}
		return fail( "the output consists of values");
	}
	bool table()
	{
		++s; lua_createtable( L, 0, 0); int n = 0;
		for (;;)
		{
			if (ch( '}')) return true;
			std::string key;
			if (ch( '[')) { if (!value( "")) return false; if (!ch( ']') || !ch( '=')) return fail( "a key is followed by a value"); if (!value( "")) return false; lua_rawset( L, -3); }
			else if (al( *s)) { const char* b = s; std::string k = ident(); if (ch( '=')) { if (reserved( k)) return fail( "a name of a member is not a reserved word"); if (!value( k)) return false; lua_pushlstring( L, k.data(), k.size()); lua_insert( L, -2); lua_rawset( L, -3); } else { s = b; if (!value( "")) return false; lua_rawseti( L, -2, ++n); } }
			else { if (!value( "")) return false; lua_rawseti( L, -2, ++n); }
			if (ch( ',') || ch( ';')) continue;
			if (!ch( '}')) return fail( "values of a table are separated by commas"); return true;
		}
	}
	bool all() { if (!value( "")) return false; ws(); return s == e || fail( "nothing follows the table printed"); }
};
