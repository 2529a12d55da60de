// Iteration over the introspection trees from Lua
#include "binding.hpp"
#include "typedb.hpp"
using namespace mewa;
struct Rec { int depth, from, to; std::vector<int> items; bool operator==( const Rec& o) const { return depth == o.depth && from == o.from && to == o.to && items == o.items; } };
static std::vector<Rec> viaLua, viaApi; static int kind; static TypeDatabase* td;
static const int SC[][2] = {{0,1000},{1,10},{20,30},{40,50},{2,5},{6,9},{21,29},{22,23},{1,3},{41,42}};
static const char* TREE[] = {"instance_tree","type_tree","reduction_tree"};
static int iterate( lua_State* L, int fn, int max) // calls the iterator at fn, returns true if there is a value
{
	(void)max; lua_pushvalue( L, fn); lua_pushnil( L); lua_pushnil( L); int top = lua_gettop( L)-3; int rc = lua_pcall( L, 2, LUA_MULTRET, 0); sx_assert( rc == 0, "an iterator does not fail");
	int n = lua_gettop( L)-top; sx_assert( n <= 1, "an iterator returns one value"); if (n == 1 && lua_isnil( L, -1)) { lua_pop( L, 1); return 0; } return n;
}
static void node( lua_State* L, int depth, int limit)
{
	int top = lua_gettop( L); sx_assert( lua_isuserdata( L, top), "a node is an object"); lua_checkstack( L, 20);
	Rec r; r.depth = depth; int n = method( L, "scope", 0, top); sx_assert( n == 1, "a node has a scope"); getScope( L, -1, r.from, r.to); lua_settop( L, top);
	if (kind == 0)
	{
		n = method( L, "instance", 0, top); sx_assert( n == 1, "a node has an instance"); if (!lua_isnil( L, -1)) r.items.push_back( lua_tointeger( L, -1)); lua_settop( L, top);
	}
	else
	{
		n = method( L, "list", 0, top); sx_assert( n == 1, "a node has a list"); int fn = lua_gettop( L);
		for (int i=0; iterate( L, fn, 0); ++i)
		{
			sx_assert( i < 12, "the list of a node ends"); if (i >= 12) return;
			if (kind == 1) r.items.push_back( lua_tointeger( L, -1));
			else { static const char* F[] = {"to","from","tag","constructor","weight"}; for (const char* f : F) { lua_getfield( L, -1, f); r.items.push_back( lua_isnil( L, -1) ? -1 : (int)(lua_tonumber( L, -1) * 4)); lua_pop( L, 1); } }
			lua_pop( L, 1); sx_reach("item");
		}
		lua_settop( L, top);
	}
	viaLua.push_back( r);
	n = method( L, "chld", 0, top); sx_assert( n == 1, "a node has children"); int fn = lua_gettop( L);
	for (int i=0; iterate( L, fn, 0); ++i) { sx_assert( i < limit, "every child is visited once"); if (i >= limit) return; node( L, depth+1, limit); lua_settop( L, fn); sx_reach("child"); }
	lua_settop( L, top-1);
}
template <class T, class F> static void walk( const T& tree, std::size_t idx, int depth, F items)
{
	for (std::size_t i = idx; i; i = tree[i].next()) { Rec r; r.depth = depth; r.from = tree[i].item().scope.start(); r.to = tree[i].item().scope.end(); items( tree[i].item().value, r.items); viaApi.push_back( r); if (tree[i].chld()) walk( tree, tree[i].chld(), depth+1, items); }
}
static int ndefs; static bool large;
static void body( lua_State* L)
{
	int types[3]; setScope( L, 0, 1000); TypeDatabase db; td = &db; Scope s0( 0, 1000); for (int i=0; i<3; ++i) { const char* nm[] = {"a","b","c"}; types[i] = defType( L, 0, nm[i]); sx_assert( types[i] == db.defineType( s0, 0, nm[i], 0, TypeDatabase::TypeConstructorPairList( 0, nullptr)), "the handles are the same"); }
	if (large)
	{
		// a tree of scopes: chains and many siblings, in one of three orders; items in every scope
		int order = sx_pick( "order", 3), shape = sx_pick( "shape", 2); lua_checkstack( L, 30);
		for (int k=0; k<ndefs; ++k)
		{
			int i = order == 0 ? k : order == 1 ? ndefs-1-k : (k*2 < ndefs ? k*2 : ndefs-1 - (k*2-ndefs)/2*2 - (ndefs%2 ? 1 : 0)); if (order == 2) { int ev = (ndefs+1)/2; i = k < ev ? 2*k : 2*(k-ev)+1; }
			int a = shape ? 1+i : (i/2)*10+1+(i%2), b = shape ? 900-i : (i/2)*10+9-(i%2); setScope( L, a, b); Scope sc( a, b);
			for (int r=0; r<=i%3; ++r)
			{
				if (kind == 0) { lua_pushstring( L, "x"); lua_pushinteger( L, 100+i+r); method( L, "set_instance", 2); db.setObjectInstance( "x", sc, 100+i+r); }
				else if (kind == 1) { std::string nm( 1+i, 'p'+r); int t = defType( L, types[r], nm.c_str()); sx_assert( t == db.defineType( sc, types[r], nm, 0, TypeDatabase::TypeConstructorPairList( 0, nullptr)), "the handles are the same"); }
				else { lua_pushinteger( L, types[r%2]); lua_pushinteger( L, types[2]); lua_pushinteger( L, 50+i); lua_pushinteger( L, 1 + (i+r)%32); lua_pushnumber( L, i+0.25); db.defineReduction( sc, types[r%2], types[2], 50+i, 1 + (i+r)%32, i+0.25); int n = method( L, "def_reduction", 5); sx_assert( n == 0, "a reduction is defined"); }
			}
		}
	}
	else for (int i=0; i<ndefs; ++i)
	{
		int s = sx_pick( "scope", sx_arg(2)); setScope( L, SC[s][0], SC[s][1]); Scope sc( SC[s][0], SC[s][1]);
		if (kind == 0) { lua_pushstring( L, "x"); lua_pushinteger( L, 100+i); int n = method( L, "set_instance", 2); sx_assert( n == 0, "an instance is set"); db.setObjectInstance( "x", sc, 100+i); }
		else if (kind == 1) { int ctx = sx_pick( "context", 2) ? types[0] : 0; std::string nm( 1, 'p'+i); int t = defType( L, ctx, nm.c_str()); sx_assert( t == db.defineType( sc, ctx, nm, 0, TypeDatabase::TypeConstructorPairList( 0, nullptr)), "the handles are the same"); }
		else
		{
			int to = sx_pick( "to", 2), from = 2; lua_pushinteger( L, types[to]); lua_pushinteger( L, types[from]); static const int TAG[] = {32,1,31,17,16}; if (i == 1) lua_pushnil( L); else lua_pushinteger( L, 50+i); lua_pushinteger( L, TAG[i]); lua_pushnumber( L, i+0.25);
			bool err = false; try { db.defineReduction( sc, types[to], types[from], i == 1 ? 0 : 50+i, TAG[i], i+0.25); } catch (...) { err = true; }
			int n = method( L, "def_reduction", 5); sx_assert( err == (n == -1), "an error is raised if the definition is refused"); if (n < 0) { sx_assume( false); }
		}
	}
	auto val = []( int v, std::vector<int>& r) { if (v > 0) r.push_back( v); };
	if (kind == 0) { auto t = db.getObjectInstanceTree( "x"); walk( t, 1, 0, val); }
	else if (kind == 1) { auto t = db.getTypeDefinitionTree(); walk( t, 1, 0, []( const auto& v, std::vector<int>& r) { for (int x : v) r.push_back( x); }); }
	else { auto t = db.getReductionDefinitionTree(); walk( t, 1, 0, []( const auto& v, std::vector<int>& r) { for (auto const& x : v) { r.push_back( x.toType*4); r.push_back( x.fromType*4); r.push_back( x.tag*4); r.push_back( x.constructor ? x.constructor*4 : -1); r.push_back( (int)(x.weight*4)); } }); }
	int top = lua_gettop( L); if (kind == 0) lua_pushstring( L, "x"); int n = method( L, TREE[kind], kind == 0); sx_assert( n == 1, "there is a tree"); 
	node( L, 0, large ? 60 : 8); sx_assert( lua_gettop( L) == top, "the stack is balanced");
	sx_assert( viaLua == viaApi, "iteration visits every node of the tree once, in order, with its scope and items"); sx_reach("tree"); sx_expect("child");
}
// arg0 kind of tree, arg1 number of definitions, arg2 number of scopes
extern "C" void h_iterate() { kind = sx_arg(0); ndefs = sx_arg(1); withModule( body); }
// arg0 kind of tree, arg1 number of scopes
extern "C" void h_iterate_large() { kind = sx_arg(0); ndefs = sx_arg(1); large = true; withModule( body); }
