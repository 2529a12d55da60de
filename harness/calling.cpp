// The methods of the type database called from Lua: what the arguments mean, what is refused, what is returned
#include "binding.hpp"
#include "typedb.hpp"
#include "scope.hpp"
#include <cmath>
#include <climits>
#include <limits>
using namespace mewa; typedef TypeDatabase TD;
static TD* db; static Scope cur( 0, INT_MAX); static int stp, nctor; static const int CT = 3, CX = 4; // 3: constructors by number, 4: list of contexts
struct Fn { const char* name; const char* spec; int min; };
static const Fn FN[] = {
	{"scope","Ct",0},{"step","t",0},{"this_instance","S",1},{"get_instance","S",1},{"set_instance","Sv",2},			// 0-4
	{"def_type","nScP",2},{"def_type_as","nSu",3},{"this_type","nST",2},{"this_types","nS",2},{"def_reduction","nucuw",4},	// 5-9
	{"reduction_tagmask","uuu",0},{"get_reduction","num",2},{"get_reductions","umm",1},{"derive_type","nummi",2},{"resolve_type","XSm",2}, // 10-14
	{"type_name","n",1},{"type_string","ns",1},{"type_context","n",1},{"type_parameters","u",1},{"type_nof_parameters","u",1},	// 15-19
	{"type_constructor","n",1},{"type_scope","u",1},{"get_type","nST",2},{"get_types","nS",2},{"instance_tree","S",1},{"type_tree","",0},{"reduction_tree","",0}}; // 20-26
enum { Fscope, Fstep, Fthis_instance, Fget_instance, Fset_instance, Fdef_type, Fdef_type_as, Fthis_type, Fthis_types, Fdef_reduction, Ftagmask, Fget_reduction, Fget_reductions, Fderive, Fresolve, Fname, Fstring, Fcontext, Fparameters, Fnofparameters, Fconstructor, Ftypescope, Fget_type, Fget_types, Finstance_tree, Ftype_tree, Freduction_tree, NFN };
static bool integer( lua_State* L, int i, double lo, double hi, long& r)
{
	if (lua_type( L, i) != LUA_TNUMBER) return false; double d = lua_tonumber( L, i), f = std::floor( d);
	sx_assume( (d == f) | !(d - f < 1e-15)); // numbers that near to an integer may be rounded
	if (!((d == f) & (d >= lo) & (d <= hi))) return false; r = (long)d; return true;
}
static int ctor( lua_State* L, int i) { if (lua_isnoneornil( L, i)) return 0; lua_pushvalue( L, i); lua_rawseti( L, CT, ++nctor); return nctor; }
static bool sameCtor( lua_State* L, int i, int id) { if (id <= 0) return lua_isnil( L, i); int t = i < 0 ? lua_gettop( L)+1+i : i; lua_rawgeti( L, CT, id); bool r = lua_rawequal( L, -1, t); lua_pop( L, 1); return r; }
static bool array( lua_State* L, int i, int& n)
{
	if (!lua_istable( L, i)) return false; n = 0; long k, mx = 0; int top = lua_gettop( L); bool ok = true;
	lua_pushnil( L); while (ok && lua_next( L, i)) { ok = integer( L, top+1, 1, INT_MAX, k); if (ok && k > mx) mx = k; ++n; lua_settop( L, top+1); }
	lua_settop( L, top); return ok && mx == n;
}
static bool typeMember( lua_State* L, int i, int& t) { lua_pushstring( L, "type"); lua_rawget( L, i); long v; bool ok = integer( L, lua_gettop( L), 0, INT_MAX, v); lua_pop( L, 1); if (ok) t = v; return ok; }
static bool pairs( lua_State* L, int i, std::vector<TD::TypeConstructorPair>& r)
{
	int n; if (!array( L, i, n)) return false; int top = lua_gettop( L);
	for (int k=1; k<=n; ++k)
	{
		lua_settop( L, top); lua_rawgeti( L, i, k); int e = top+1; long v; int t = -1, c = 0;
		if (lua_istable( L, e))
		{
			lua_pushnil( L);
			while (lua_next( L, e))
			{
				bool isT = false, isC = false; long key;
				if (lua_type( L, e+1) == LUA_TNUMBER) { if (!integer( L, e+1, 1, 2, key)) return false; isT = key == 1; isC = key == 2; }
				else if (lua_type( L, e+1) == LUA_TSTRING) { std::string s( lua_tostring( L, e+1)); isT = s == "type"; isC = s == "constructor"; }
				else return false;
				if (isT) { if (!integer( L, e+2, 0, INT_MAX, v)) return false; t = v; } if (isC) c = ctor( L, e+2);
				lua_settop( L, e+1);
			}
			if (t < 0) return false;
		}
		else { if (!integer( L, e, 0, INT_MAX, v)) return false; t = v; }
		r.push_back( TD::TypeConstructorPair( t, c));
	}
	lua_settop( L, top); return true;
}
static bool types( lua_State* L, int i, std::pmr::vector<int>& r)
{
	int n; if (!array( L, i, n)) return false; int top = lua_gettop( L);
	for (int k=1; k<=n; ++k)
	{
		lua_settop( L, top); lua_rawgeti( L, i, k); int t; long v;
		if (lua_istable( L, top+1)) { if (!typeMember( L, top+1, t)) return false; } else { if (!integer( L, top+1, 0, INT_MAX, v)) return false; t = v; }
		r.push_back( t);
	}
	lua_settop( L, top); return true;
}
struct Args { bool ok = true; int n = 0; long v[6] = {}; bool has[6] = {}; int c[6] = {}; double w = 0; std::string s[6]; std::vector<TD::TypeConstructorPair> p; std::pmr::vector<int> t; bool list = false; Scope sc{0,0}; };
static void decode( lua_State* L, const Fn& f, int base, int nargs, Args& a)
{
	int max = std::strlen( f.spec); a.n = nargs; if (f.name == FN[Ftagmask].name) max = 9; if (nargs < f.min || nargs > max) { a.ok = false; return; }
	for (int k=0; k<nargs && a.ok; ++k)
	{
		int i = base+1+k, ty = lua_type( L, i), top = lua_gettop( L); bool nil = ty == LUA_TNIL; a.has[k] = !nil;
		switch (f.name == FN[Ftagmask].name ? 'u' : f.spec[k])
		{
			case 'S': a.ok = ty == LUA_TSTRING; if (a.ok) a.s[k] = std::string( lua_tostring( L, i), lua_rawlen( L, i)); break;
			case 's': if (nil) break; a.ok = ty == LUA_TSTRING; if (a.ok) { a.s[k] = lua_tostring( L, i); } break;
			case 'n': case 't': a.ok = integer( L, i, 0, INT_MAX, a.v[k]); break;
			case 'u': a.ok = integer( L, i, 1, INT_MAX, a.v[k]); break;
			case 'm': if (!nil) a.ok = integer( L, i, 0, 4294967295.0, a.v[k]); break;
			case 'i': if (!nil) a.ok = integer( L, i, INT_MIN, INT_MAX, a.v[k]); break;
			case 'w': if (!nil) { a.ok = ty == LUA_TNUMBER; if (a.ok) a.w = lua_tonumber( L, i); } break;
			case 'v': if (nil) { a.ok = false; break; } // fall through
			case 'c': a.c[k] = ctor( L, i); break;
			case 'P': if (!nil) a.ok = pairs( L, i, a.p); break;
			case 'T': if (!nil) a.ok = types( L, i, a.t); break;
			case 'X':
				if (ty == LUA_TTABLE) { lua_rawgeti( L, i, 1); a.list = !lua_isnil( L, -1); lua_pop( L, 1); }
				if (a.list) { a.ok = types( L, i, a.t); lua_pushvalue( L, i); lua_replace( L, CX); }
				else if (ty == LUA_TTABLE) { int t; a.ok = typeMember( L, i, t); if (a.ok) a.v[k] = t; }
				else a.ok = integer( L, i, 0, INT_MAX, a.v[k]);
				break;
			case 'C':
			{
				if (ty != LUA_TTABLE) { a.ok = false; break; } long b[2] = {0,INT_MAX}, key; lua_pushnil( L);
				while (a.ok && lua_next( L, i)) { a.ok = integer( L, top+1, 1, 2, key); if (a.ok) a.ok = integer( L, top+2, INT_MIN, INT_MAX, b[key-1]); lua_settop( L, top+1); }
				if (a.ok && b[1] < 0) b[1] += (long)INT_MAX+1;
				if (a.ok && (b[0] < 0 || b[1] < 0 || b[0] > b[1])) a.ok = false;
				if (a.ok) a.sc = Scope( b[0], b[1]);
				break;
			}
		}
		lua_settop( L, top);
	}
}
#define IS(c,m) sx_assert( c, m)
static bool eqTypes( lua_State* L, int i, const std::pmr::vector<int>& l)
{
	if (!lua_istable( L, i) || lua_rawlen( L, i) != l.size()) return false; bool ok = true;
	for (std::size_t k=0; k<l.size(); ++k) { lua_rawgeti( L, i, k+1); ok = ok && lua_type( L, -1) == LUA_TNUMBER && lua_tonumber( L, -1) == l[k]; lua_pop( L, 1); } return ok;
}
static bool eqPair( lua_State* L, int type, int constructor) // element on top of the stack
{
	if (!lua_istable( L, -1)) return false; lua_getfield( L, -1, "type"); lua_getfield( L, -2, "constructor"); bool ok = lua_type( L, -2) == LUA_TNUMBER && lua_tonumber( L, -2) == type && sameCtor( L, -1, constructor); lua_pop( L, 2); return ok;
}
template <class LIST> static bool eqPairs( lua_State* L, int i, const LIST& l, int skip = 0)
{
	if (!lua_istable( L, i) || lua_rawlen( L, i) != l.size()+skip) return false; bool ok = true;
	for (std::size_t k=0; k<l.size(); ++k) { lua_rawgeti( L, i, k+1+skip); ok = ok && eqPair( L, l[k].type, l[k].constructor); lua_pop( L, 1); } return ok;
}
static bool eqNum( lua_State* L, int i, double d) { return lua_type( L, i) == LUA_TNUMBER && lua_tonumber( L, i) == d; }
static bool eqStr( lua_State* L, int i, std::string_view s) { return lua_type( L, i) == LUA_TSTRING && lua_rawlen( L, i) == s.size() && 0 == std::memcmp( lua_tostring( L, i), s.data(), s.size()); }
static bool mirror( lua_State* L, int fn, const Args& a, int b, int n) // executes the call on the other database and compares the results n at b+1; false if it is refused
{
	int r = b+1; bool none = n == 0 || (n == 1 && lua_isnil( L, r));
	try
	{
		TD::ResultBuffer buf; TagMask all = TagMask::matchAll(), nothing = TagMask::matchNothing();
		switch (fn)
		{
			case Fscope: if (n < 0) return true; IS( n == 2, "scope returns two values"); { int f, t; getScope( L, r, f, t); IS( f == cur.start() && t == cur.end() && eqNum( L, r+1, stp), "the scope and step returned are the ones before the call"); }
				if (a.n) { cur = a.sc; stp = a.n > 1 ? a.v[1] : a.sc.end()-1; } return true;
			case Fstep: if (n < 0) return true; IS( n == 1 && eqNum( L, r, stp), "the step returned is the one before the call"); if (a.n) stp = a.v[0]; return true;
			case Fthis_instance: case Fget_instance: { int h = fn == Fthis_instance ? db->getObjectInstanceOfScope( a.s[0], cur) : db->getObjectInstance( a.s[0], stp); if (n >= 0) IS( h <= 0 ? none : (n == 1 && sameCtor( L, r, h)), "the instance is the one set"); return true; }
			case Fset_instance: db->setObjectInstance( a.s[0], cur, a.c[1]); if (n >= 0) IS( n == 0, "set_instance returns nothing"); return true;
			case Fdef_type: { int h = db->defineType( cur, a.v[0], a.s[1], a.c[2], TD::TypeConstructorPairList( a.p.size(), a.p.data())); if (n >= 0) IS( n == 1 && eqNum( L, r, h), "def_type returns the handle or -1"); return true; }
			case Fdef_type_as: { int h = db->defineTypeAs( cur, a.v[0], a.s[1], a.v[2]); if (n >= 0) IS( n == 1 && eqNum( L, r, h ? h : -1), "def_type_as returns the handle or -1"); return true; }
			case Fthis_type: case Fget_type: { int h = db->getType( cur, a.v[0], a.s[1], a.t); if (n >= 0) IS( h ? (n == 1 && eqNum( L, r, h)) : none, "this_type returns the handle or nil"); return true; }
			case Fthis_types: case Fget_types: { auto l = db->getTypes( cur, a.v[0], a.s[1], buf); if (n >= 0) IS( n == 1 && eqTypes( L, r, l.types), "this_types returns the list of types"); return true; }
			case Fdef_reduction: db->defineReduction( cur, a.v[0], a.v[1], a.c[2], a.v[3], (float)a.w); if (n >= 0) IS( n == 0, "def_reduction returns nothing"); return true;
			case Ftagmask: { TagMask m; for (int k=0; k<a.n; ++k) m |= (int)a.v[k]; if (n >= 0) IS( n == 1 && eqNum( L, r, m.mask()), "the mask is the set of the tags"); return true; }
			case Fget_reduction: { auto x = db->getReduction( stp, a.v[0], a.v[1], a.has[2] ? TagMask( a.v[2]) : all); if (n < 0) return true;
				if (!x.defined()) IS( none, "no reduction is nil"); else IS( n >= 1 && n <= 2 && eqNum( L, r, x.weight) && (n == 1 ? x.constructor == 0 : sameCtor( L, r+1, x.constructor)), "get_reduction returns weight and constructor"); return true; }
			case Fget_reductions: { auto x = db->getReductions( stp, a.v[0], a.has[1] ? TagMask( a.v[1]) : all, a.has[2] ? TagMask( a.v[2]) : nothing, buf); if (n < 0) return true;
				IS( n == 1 && eqPairs( L, r, x.reductions), "get_reductions returns the types and constructors"); 
				for (std::size_t k=0; k<x.reductions.size(); ++k) { lua_rawgeti( L, r, k+1); lua_getfield( L, -1, "weight"); lua_getfield( L, -2, "count"); IS( eqNum( L, -2, x.reductions[k].weight) && lua_type( L, -1) == LUA_TBOOLEAN && lua_toboolean( L, -1) == x.reductions[k].count, "get_reductions returns the weights and counts"); lua_pop( L, 3); sx_reach("reductions"); } return true; }
			case Fderive: { auto x = db->deriveType( stp, a.v[0], a.v[1], a.has[2] ? TagMask( a.v[2]) : all, a.has[3] ? TagMask( a.v[3]) : nothing, a.has[4] ? a.v[4] : 1, buf); if (n < 0) return true;
				if (!x.defined) IS( none, "no path is nil");
				else { IS( n >= 2 && eqPairs( L, r, x.reductions) && eqNum( L, r+1, x.weightsum), "derive_type returns the path and its weight"); if (x.conflictPath.empty()) IS( n == 2 || (n == 3 && lua_isnil( L, r+2)), "there is no conflict"); else { IS( n == 3 && eqTypes( L, r+2, x.conflictPath), "the conflict is returned"); sx_reach("conflict"); } sx_reach("derived"); } return true; }
			case Fresolve: { TagMask m = a.has[2] ? TagMask( a.v[2]) : all; auto x = a.list ? db->resolveType( stp, a.t, a.s[1], m, buf) : db->resolveType( stp, (int)a.v[0], a.s[1], m, buf); if (n < 0) return true;
				if (x.rootIndex < 0) IS( none, "not resolved is nil");
				else if (x.conflictType >= 0) { int two[2] = {x.contextType, x.conflictType}; std::pmr::vector<int> l( two, two+2); IS( n == 1 && eqTypes( L, r, l), "two contexts are returned in case of a conflict"); sx_reach("conflict"); }
				else
				{
					int skip = 0; if (a.list) { lua_rawgeti( L, CX, x.rootIndex); if (lua_istable( L, -1)) { skip = 1; lua_rawgeti( L, r+1, 1); IS( lua_rawequal( L, -1, -2), "the first element is the context resolved from"); lua_pop( L, 1); } lua_pop( L, 1); }
					IS( n == 3 && eqNum( L, r, x.contextType) && eqPairs( L, r+1, x.reductions, skip) && eqTypes( L, r+2, x.items), "resolve_type returns context, path and candidates"); sx_reach("resolved");
				}
				return true; }
			case Fname: { auto s = db->typeName( a.v[0]); if (n >= 0) IS( n == 1 && eqStr( L, r, s), "type_name returns the name"); return true; }
			case Fstring: { auto s = db->typeToString( a.v[0], a.has[1] ? a.s[1].c_str() : " ", buf); if (n >= 0) IS( n == 1 && eqStr( L, r, s), "type_string returns the text"); return true; }
			case Fcontext: { int c = db->typeContext( a.v[0]); if (n >= 0) IS( n == 1 && eqNum( L, r, c), "type_context returns the context"); return true; }
			case Fparameters: { auto p = db->typeParameters( a.v[0]); if (n >= 0) IS( n == 1 && eqPairs( L, r, p), "type_parameters returns the parameters"); return true; }
			case Fnofparameters: { auto p = db->typeParameters( a.v[0]); if (n >= 0) IS( n == 1 && eqNum( L, r, p.size()), "type_nof_parameters returns their number"); return true; }
			case Fconstructor: { int c = db->typeConstructor( a.v[0]); if (n >= 0) IS( c ? (n == 1 && sameCtor( L, r, c)) : none, "type_constructor returns the constructor"); return true; }
			case Ftypescope: { Scope s = db->typeScope( a.v[0]); if (n < 0) return true; IS( n == 1, "type_scope returns a scope"); int f, t; getScope( L, r, f, t); IS( f == s.start() && t == s.end(), "type_scope returns the scope"); return true; }
			default: if (n >= 0) IS( n == 1 && lua_isuserdata( L, r), "a tree is returned"); return true;
		}
	}
	catch (const std::exception&) { return false; }
}
// arguments are on top of the stack; true if the call is accepted
static bool call( lua_State* L, int fn, int nargs)
{
	int base = lua_gettop( L)-nargs; Args a; decode( L, FN[fn], base, nargs, a); lua_settop( L, base+nargs);
	int n = method( L, FN[fn].name, nargs); 
	if (!a.ok) { IS( n < 0, "arguments that are not as documented are refused"); sx_reach("refused"); }
	else { bool m = mirror( L, fn, a, base, n); IS( m == (n >= 0), "arguments as documented are refused if and only if the type database refuses them"); if (n >= 0) sx_reach("accepted"); }
	lua_settop( L, base); return n >= 0;
}
static void num( lua_State* L, double d) { lua_pushnumber( L, d); }
static void str( lua_State* L, const char* s) { lua_pushstring( L, s); }
static void str( lua_State* L, std::string_view s) { lua_pushlstring( L, s.data(), s.size()); }
#define ZNAME std::string_view( "c\0d", 3)
static int noop( lua_State*) { return 0; }
static void ctorValue( lua_State* L, int k) { if (k == 0) lua_pushnil( L); else if (k == 1) str( L, "c"); else if (k == 2) lua_createtable( L, 0, 0); else if (k == 3) lua_pushcclosure( L, noop, 0); else lua_pushboolean( L, 0); }
static int ntypes;
static void history( lua_State* L, int variant)
{
	auto scope = [&]( int a, int b) { pushScope( L, a, b); call( L, Fscope, 1); };
	auto type = [&]( int ctx, std::string_view nm, int c, int par) { num( L, ctx); str( L, nm); ctorValue( L, c); int n = 3; if (par) { lua_createtable( L, 0, 0); lua_createtable( L, 0, 0); num( L, par); lua_rawseti( L, -2, 1); str( L, "p"); lua_rawseti( L, -2, 2); lua_rawseti( L, -2, 1); n = 4; } if (call( L, Fdef_type, n)) ++ntypes; };
	auto redu = [&]( int to, int from, int c, int tag, double w) { num( L, to); num( L, from); ctorValue( L, c); num( L, tag); num( L, w); call( L, Fdef_reduction, 5); };
	auto inst = [&]( std::string_view nm, int c) { str( L, nm); ctorValue( L, c); call( L, Fset_instance, 2); };
	static const int SC[][2] = {{0,1000},{1,10},{20,30}}; int s = variant ? sx_pick( "scope", 3) : 1;
	scope( 0, 1000); type( 0, "a", 1, 0); type( 0, "b", 2, 0); type( 0, ZNAME, 0, 0); type( 1, "m", 3, 2); type( 1, "m", 1, 3); inst( "x", 2);
	redu( 2, 1, 1, 1, 0.25); redu( 3, 2, 0, 2, 0.5);
	scope( SC[s][0], SC[s][1]); type( 2, "m", 1, 1); inst( "x", 4); inst( std::string_view( "x\0y", 3), 1); redu( 3, 1, 2, 3, 0.75); redu( 1, 2, 0, 1, 1.0);
	if (variant) { switch (sx_pick( "more", 4)) { case 1: type( 3, "m", 3, 0); break; case 2: num( L, 3); str( L, "m"); num( L, 1); call( L, Fdef_type_as, 3); break; case 3: num( L, 2); str( L, "m"); num( L, 3); call( L, Fdef_type_as, 3); break; } }
	num( L, 5); call( L, Fstep, 1);
}
static void nth( lua_State* L, int k, int v) { num( L, v); lua_rawseti( L, -2, k); }
static void tab( lua_State* L) { lua_createtable( L, 0, 0); }
// a valid argument; choices are open if vary
static void good( lua_State* L, char spec, bool vary)
{
	switch (spec)
	{
		case 'S': { static const std::string_view N[] = {"m","x",ZNAME,"zz"}; str( L, N[ vary ? sx_pick( "name", 4) : 0]); break; }
		case 's': if (vary && sx_pick( "separator", 2)) lua_pushnil( L); else str( L, "::"); break;
		case 'n': case 'u': num( L, vary ? sx_pick( "handle", 8) : spec == 'n' ? 1 : 2); break;
		case 't': num( L, vary ? sx_int( "step", 0, INT_MAX) : 7); break;
		case 'm': { int k = vary ? sx_pick( "mask", 6) : 1; if (k == 0) lua_pushnil( L); else num( L, k == 5 ? 4294967295.0 : k == 4 ? 0 : 1 << (k-1)); break; }
		case 'i': { int k = vary ? sx_pick( "count", 5) : 1; if (k == 0) lua_pushnil( L); else num( L, k-2); break; }
		case 'w': { static const double W[] = {0.5, 0, -1, 1e300, 0.1}; int k = vary ? sx_pick( "weight", 6) : 0; if (k == 5) lua_pushnil( L); else num( L, W[k]); break; }
		case 'c': ctorValue( L, vary ? sx_pick( "constructor", 5) : 1); break;
		case 'v': ctorValue( L, 1 + (vary ? sx_pick( "instance", 4) : 0)); break;
		case 'C': { tab( L); int k = vary ? sx_pick( "scope", 4) : 2; if (k & 1) nth( L, 1, sx_int( "from", -2, INT_MAX)); if (k & 2) nth( L, 2, k == 2 && !vary ? 100 : sx_int( "to", INT_MIN, INT_MAX)); break; }
		case 'P': case 'T': case 'X':
		{
			int k = vary ? sx_pick( "list", 9) : 2;
			if (k == 0) { if (spec == 'X') num( L, sx_pick( "handle", 8)); else lua_pushnil( L); break; } tab( L);
			if (k == 2 || k == 3) nth( L, 1, 1); if (k == 3) nth( L, 2, 2);
			if (k == 4) { tab( L); nth( L, 1, 2); str( L, "q"); lua_rawseti( L, -2, 2); lua_rawseti( L, -2, 1); }
			if (k >= 5 && k <= 7) { tab( L); num( L, k == 7 ? 9 : 2); lua_setfield( L, -2, "type"); ctorValue( L, k == 6 ? 0 : 2); lua_setfield( L, -2, "constructor"); lua_rawseti( L, -2, 1); if (k == 6) { tab( L); num( L, 3); lua_setfield( L, -2, "type"); lua_rawseti( L, -2, 2); } if (k == 5) nth( L, 2, 3); }
			if (k == 8) { num( L, sx_pick( "handle", 8)); lua_setfield( L, -2, "type"); }
			break;
		}
	}
}
enum { NODD = 58 };
static void odd( lua_State* L, int k)
{
	static const double D[] = {-1, 0, 3, 1.5, -0.5, 1e300, -1e300, 2147483647.0, 2147483648.0, -2147483648.0, 4294967295.0, 4294967296.0, 33}; const int ND = sizeof(D)/sizeof(*D);
	if (k < ND) { num( L, D[k]); return; } k -= ND; // 13
	switch (k) {
		case 0: num( L, std::numeric_limits<double>::quiet_NaN()); return; case 1: num( L, std::numeric_limits<double>::infinity()); return;
		case 2: lua_pushnil( L); return; case 3: lua_pushboolean( L, 1); return; case 4: lua_pushboolean( L, 0); return; case 5: str( L, ""); return; case 6: str( L, "1"); return; case 7: lua_pushlstring( L, "m\0n", 3); return;
		case 8: lua_pushcclosure( L, noop, 0); return; case 9: lua_pushvalue( L, 2); return; case 10: lua_pushlightuserdata( L, &ntypes); return; }
	tab( L); auto sub = [&]() { lua_rawseti( L, -2, 1); };
	switch (k) {
		case 11: return; case 12: nth( L, 0, 1); return; case 13: nth( L, 2, 1); return; case 14: nth( L, -1, 1); return; case 15: nth( L, 1, 1); nth( L, 3, 1); return; case 16: nth( L, 1, 2); nth( L, 2, 1); return; case 17: nth( L, 1, 0); nth( L, 2, 0); return;
		case 18: nth( L, 1, -1); nth( L, 2, 5); return; case 19: nth( L, 1, 5); nth( L, 2, -3); return; case 20: nth( L, 1, 1); nth( L, 2, 5); nth( L, 3, 7); return;
		case 21: str( L, "1"); sub(); return; case 22: lua_pushboolean( L, 1); sub(); return; case 23: tab( L); sub(); return;
		case 24: tab( L); str( L, "1"); lua_setfield( L, -2, "type"); sub(); return; case 25: tab( L); num( L, -1); lua_setfield( L, -2, "type"); sub(); return; case 26: tab( L); num( L, 1e10); lua_setfield( L, -2, "type"); sub(); return; case 27: tab( L); num( L, 1.5); lua_setfield( L, -2, "type"); sub(); return;
		case 28: tab( L); nth( L, 1, 1); nth( L, 2, 5); nth( L, 3, 5); sub(); return; case 29: tab( L); nth( L, 1, 1); str( L, "z"); lua_setfield( L, -2, "other"); sub(); return;
		case 30: num( L, 1.5); num( L, 1); lua_rawset( L, -3); return; case 31: num( L, 1e300); num( L, 1); lua_rawset( L, -3); return; case 32: lua_pushboolean( L, 1); num( L, 1); lua_rawset( L, -3); return; case 33: nth( L, 1, 1); num( L, 1); lua_setfield( L, -2, "x"); return;
		case 34: num( L, 1); lua_setfield( L, -2, "type"); return; case 35: str( L, "1"); lua_setfield( L, -2, "type"); return; case 36: num( L, -1); lua_setfield( L, -2, "type"); return;
		case 37: tab( L); lua_pushboolean( L, 1); num( L, 1); lua_rawset( L, -3); sub(); return; case 38: tab( L); num( L, 1.5); num( L, 1); lua_rawset( L, -3); sub(); return; case 39: tab( L); str( L, "c"); lua_setfield( L, -2, "constructor"); sub(); return;
		case 40: num( L, 1.5); sub(); return; case 41: num( L, -1); sub(); return; case 42: num( L, 1e10); sub(); return; case 43: num( L, std::numeric_limits<double>::quiet_NaN()); sub(); return; case 44: num( L, 99); sub(); return;
	}
}
static void probe( lua_State* L)
{
	call( L, Fscope, 0); num( L, 1); call( L, Fget_reductions, 1); num( L, 2); call( L, Fget_reductions, 1); num( L, 1); str( L, "m"); call( L, Fthis_types, 2); num( L, 2); str( L, "m"); call( L, Fthis_types, 2); str( L, "x"); call( L, Fget_instance, 1); str( L, "x"); call( L, Fthis_instance, 1); num( L, 1); str( L, "m"); call( L, Fresolve, 2);
}
static void start( lua_State* L, int variant) { db = new TD(); lua_createtable( L, 0, 0); lua_pushnil( L); sx_assert( lua_gettop( L) == CX, "stack"); history( L, variant); }
// arg0 function, arg1 0 fixed history, arg2 set of arguments varied
extern "C" void h_results()
{
	withModule( []( lua_State* L) {
		start( L, sx_arg(1)); int fn = sx_arg(0), max = std::strlen( FN[fn].spec), n = FN[fn].min + sx_pick( "arguments", max - FN[fn].min + 1);
		if (fn != Fscope && fn != Fstep && sx_arg(1)) { num( L, sx_int( "query", 0, INT_MAX)); call( L, Fstep, 1); }
		for (int k=0; k<n; ++k) good( L, FN[fn].spec[k], (sx_arg(2) >> k) & 1); bool ok = call( L, fn, n); if (ok) sx_reach("ok"); sx_expect("ok"); sx_expect("accepted"); probe( L);
		if (fn == Fderive) sx_expect("derived"); if (fn == Fresolve) sx_expect("resolved"); if (fn == Fget_reductions) sx_expect("reductions");
	});
}
// arg0 function: every number of arguments, one of them odd
extern "C" void h_refused()
{
	withModule( []( lua_State* L) {
		start( L, 0); int fn = sx_arg(0), max = std::strlen( FN[fn].spec), n = sx_pick( "arguments", max + 2);
		int o = n ? sx_pick( "odd", n) : -1; for (int k=0; k<n; ++k) if (k == o) { int w = sx_pick( "which", NODD); sx_assume( fn > Fstep || w != 15); odd( L, w); } else good( L, k < max ? FN[fn].spec[k] : 'n', false);
		call( L, fn, n); probe( L); sx_expect("refused");
	});
}
// arg0 function, arg1 argument: any number, arg2 0 the number itself, 1-2 in a list at this place, 3 as type in a list
extern "C" void h_numbers()
{
	withModule( []( lua_State* L) {
		start( L, 0); int fn = sx_arg(0), n = std::strlen( FN[fn].spec), o = sx_arg(1), in = sx_arg(2); double d; sx_sym( &d, sizeof d, "number");
		for (int k=0; k<n; ++k) if (k != o) good( L, FN[fn].spec[k], false); else if (!in) num( L, d); else { tab( L); if (in <= 2) { num( L, d); lua_rawseti( L, -2, in); if (in == 2) nth( L, 1, 3); } else { tab( L); num( L, d); lua_setfield( L, -2, "type"); lua_rawseti( L, -2, 1); } }
		call( L, fn, n); probe( L); sx_expect("refused"); sx_expect("accepted");
	});
}
// a method called on something that is no type database
extern "C" void h_self()
{
	withModule( []( lua_State* L) {
		start( L, 0); int fn = sx_pick( "function", NFN), w = sx_pick( "which", 4), n = std::strlen( FN[fn].spec); sx_assume( fn != Ftagmask); str( L, "x"); lua_pushvalue( L, 2); lua_insert( L, -2); 
		lua_settop( L, CX); lua_getfield( L, 2, FN[fn].name); if (w == 0) lua_pushnil( L); else if (w == 1) tab( L); else if (w == 2) lua_pushlightuserdata( L, &ntypes); else { lua_getfield( L, 2, "type_tree"); lua_pushvalue( L, 2); lua_call( L, 1, 1); }
		for (int k=0; k<n; ++k) good( L, FN[fn].spec[k], false);
		int rc = lua_pcall( L, n+1, LUA_MULTRET, 0); IS( rc != 0 && lua_gettop( L) == CX+1 && lua_type( L, -1) == LUA_TSTRING, "a method called on something else is refused"); lua_settop( L, CX); probe( L);
	});
}
// many definitions with long names and lists; arg0 number of types, arg1 kind of query
extern "C" void h_large()
{
	withModule( []( lua_State* L) {
		db = new TD(); lua_createtable( L, 0, 0); lua_pushnil( L); int N = sx_arg(0); lua_checkstack( L, 40);
		auto scope = [&]( int a, int b) { pushScope( L, a, b); sx_assert( call( L, Fscope, 1), "a scope is accepted"); };
		auto name = []( int i) { std::string s( 1 + i*11, 'a'); for (std::size_t k=0; k<s.size(); ++k) s[k] = 'a' + (k*7+i)%26; return s; };
		auto param = [&]( int k, int t) { if (k % 3 == 0) num( L, t); else if (k % 3 == 1) { tab( L); nth( L, 1, t); str( L, "p"); lua_rawseti( L, -2, 2); } else { tab( L); num( L, t); lua_setfield( L, -2, "type"); ctorValue( L, 1 + k%4); lua_setfield( L, -2, "constructor"); } lua_rawseti( L, -2, k+1); };
		scope( 0, 1000);
		for (int i=1; i<=N; ++i) { num( L, i > 3 && i%4 == 0 ? i-1 : 0); str( L, std::string_view( name( i))); ctorValue( L, i%5); sx_assert( call( L, Fdef_type, 3), "a type is defined"); }
		for (int i=1; i<N; ++i) { num( L, i+1); num( L, i); ctorValue( L, i%4); num( L, 1 + i%3); num( L, 0.25); sx_assert( call( L, Fdef_reduction, 5), "a reduction is defined"); }
		for (int i=3; i<=N; i+=2) { num( L, i); num( L, 1); ctorValue( L, 1); num( L, 30 + i%3); num( L, 0.25*i); sx_assert( call( L, Fdef_reduction, 5), "a reduction is defined"); }
		for (int i=0; i<N; ++i)
		{
			num( L, i%2 ? N : 0); str( L, "f"); ctorValue( L, 1); tab( L); for (int k=0; k<i; ++k) param( k, 1 + (k*i)%N); sx_assert( call( L, Fdef_type, 4), "an overload is defined");
			scope( 10+i*2, 500-i*3); str( L, i%3 ? std::string_view( "x") : std::string_view( name( 9))); ctorValue( L, 1 + i%4); sx_assert( call( L, Fset_instance, 2), "an object is set");
			num( L, 1); str( L, "g"); ctorValue( L, 2); call( L, Fdef_type, 3); scope( 0, 1000);
		}
		num( L, sx_arg(1) == 0 ? sx_int( "step", 0, 1200) : 40); call( L, Fstep, 1); int q = sx_arg(1), M = 2*N; bool ok = true;
		switch (q)
		{
			case 0: str( L, sx_pick( "name", 2) ? std::string_view( "x") : std::string_view( name( 9))); ok = call( L, Fget_instance, 1); num( L, 1); str( L, "g"); call( L, Fresolve, 2); break;
			case 1: num( L, 1 + sx_pick( "to", N)); num( L, 1 + sx_pick( "from", N)); { static const double MASK[] = {7, 1, 4294967295.0, 0xE0000000}; num( L, MASK[ sx_pick( "mask", 4)]); } num( L, sx_pick( "count", 2) ? 1 : 0); num( L, sx_pick( "limit", 4) - 1); ok = call( L, Fderive, 5); break;
			case 2: { int n = sx_pick( "contexts", N), r = sx_pick( "rotate", 3); tab( L); for (int k=0; k<=n; ++k) { int t = 1 + (k + r*3)%N; if (r == 2) { tab( L); num( L, t); lua_setfield( L, -2, "type"); lua_rawseti( L, -2, k+1); } else nth( L, k+1, t); } str( L, sx_pick( "name", 2) ? std::string_view( "f") : std::string_view( name( 4))); num( L, 7); ok = call( L, Fresolve, 3); break; }
			case 3: { int t = 1 + sx_pick( "handle", M); num( L, t); ok = call( L, Fparameters, 1); num( L, t); call( L, Fnofparameters, 1); num( L, t); call( L, Fname, 1); num( L, t); str( L, std::string_view( name( sx_pick( "separator", 8)))); call( L, Fstring, 2); num( L, t); call( L, Fconstructor, 1); num( L, t); call( L, Fcontext, 1); break; }
			case 4: { int i = sx_pick( "overload", N), c = sx_pick( "change", 3); num( L, i%2 ? N : 0); str( L, "f"); tab( L); for (int k=0; k<i - (c == 1 && i); ++k) nth( L, k+1, 1 + (k*i + (c == 2 && k == i-1))%N); ok = call( L, Fthis_type, 3); num( L, i%2 ? N : 0); str( L, "f"); call( L, Fthis_types, 2); num( L, i%2 ? N : 0); str( L, "f"); call( L, Fresolve, 2); break; }
			case 5: num( L, 1 + sx_pick( "from", N)); if (sx_pick( "selected", 2)) num( L, 1u << (29 + sx_pick( "tag", 3))); else lua_pushnil( L); num( L, 4294967295.0); ok = call( L, Fget_reductions, 3); break;
		}
		sx_assert( ok, "the call is accepted"); sx_reach("large"); sx_expect("large"); if (q == 1) sx_expect("derived"); if (q == 2) sx_expect("resolved"); if (q == 5) sx_expect("reductions");
	});
}
