#include "scopes.hpp"
typedef TypeDatabase::TypeConstructorPairList PL;
static const PL NOPARAM( 0, nullptr);
// checks the shape of a scope tree: every expected scope exactly once, below the innermost scope enclosing it; fn(item,k): contents of scope k
template <class TREE, class F>
static void checkTree( const TREE& tree, const Sc* u, int n, F content)
{
	// parents
	int seen[8]; for (int k=0; k<8; ++k) seen[k] = 0;
	struct Fr { std::size_t idx; int k; } st[32]; int sp = 0; int count = 0;
	// the root is node 1
	sx_assert( tree[1].item().scope.start() == 0 && tree[1].item().scope.end() == INF, "the root of the tree is the global scope");
	sx_assert( tree[1].next() == 0, "the root has no siblings");
	Sc root = {0,INF};
	for (int k=0; k<n; ++k) if (same( u[k], root)) { seen[k] = 1; content( tree[1].item(), k); }
	if (tree[1].chld()) st[sp++] = {tree[1].chld(), -1};
	while (sp)
	{
		Fr f = st[--sp];
		sx_assert( ++count <= n, "the tree has a node per scope");
		auto const& nd = tree[ f.idx];
		Sc s = {nd.item().scope.start(), nd.item().scope.end()};
		int me = -1;
		for (int k=0; k<n; ++k) if (same( u[k], s)) me = k;
		me = (int)sx_concretize( me);
		sx_assert( me >= 0, "every node of the tree is a scope with definitions");
		sx_assert( ++seen[me] == 1, "every scope is in the tree once");
		int par = -1; // expected parent: the smallest of the scopes properly enclosing
		for (int k=0; k<n; ++k) if (k != me && !same( u[k], root) && inside( s, u[k]) && (par == -1 || inside( u[k], u[par]))) par = k;
		par = (int)sx_concretize( par);
		sx_assert( par == f.k, "the parent in the tree is the innermost enclosing scope");
		content( nd.item(), me);
		if (nd.next()) st[sp++] = {nd.next(), f.k};
		if (nd.chld()) st[sp++] = {nd.chld(), me};
	}
	for (int k=0; k<n; ++k) sx_assert( seen[k] == 1, "every scope with definitions is in the tree");
	if (n > 1) sx_reach("tree");
}
static int uniq( const Sc* d, int n, Sc* u, int* where)
{
	int c = 0;
	for (int i=0; i<n; ++i) { int k=0; while (k<c && !same( u[k], d[i])) ++k; k = (int)sx_concretize( k); if (k==c) u[c++] = d[i]; where[i] = k; }
	return c;
}
extern "C" void h_tree_instances()
{
	int N = sx_arg(0);
	TypeDatabase db( 2048); Sc d[6], u[6]; int w[6];
	db.setObjectInstance( "other", Scope( 1, 2), 99);
	for (int i=0; i<N; ++i) { d[i] = anyScope( d, i); db.setObjectInstance( "x", Scope( d[i].s, d[i].e), i+1); }
	int n = uniq( d, N, u, w);
	auto tree = db.getObjectInstanceTree( "x");
	checkTree( tree, u, n, [&]( const ScopeHierarchyTreeNode<int>& item, int k){
		int v = -1; for (int i=0; i<N; ++i) if (w[i] == k) v = i+1;
		sx_assert( item.value == v, "a node of the tree has the instance last set in its scope");
	});
	auto tn = db.getObjectInstanceTree( "undefined");
	sx_assert( tn[1].chld() == 0 && tn[1].item().value == -1, "the tree of an unknown name is empty");
	sx_expect("tree");
}
extern "C" void h_tree_types()
{
	int N = sx_arg(0), NN = sx_arg(1);
	TypeDatabase db( 2048); Sc d[6], u[6]; int w[6], h[6]; const char* names[2] = {"f","g"};
	for (int i=0; i<N; ++i) { d[i] = anyScope( d, i); h[i] = db.defineType( Scope( d[i].s, d[i].e), 0, names[ NN > 1 ? sx_pick( "name", NN) : 0], 0, NOPARAM); }
	int n = uniq( d, N, u, w);
	auto tree = db.getTypeDefinitionTree();
	checkTree( tree, u, n, [&]( const ScopeHierarchyTreeNode<TypeDatabase::TypeDefinitionList>& item, int k){
		std::size_t c = 0;
		for (int i=0; i<N; ++i) if (w[i] == k && h[i] > 0) { ++c; int f = 0; for (int x : item.value) f += (x == h[i]); sx_assert( f == 1, "a node of the tree lists the types defined in its scope"); }
		sx_assert( item.value.size() == c, "a node of the tree lists nothing but the types defined in its scope");
	});
	sx_expect("tree");
}
extern "C" void h_tree_reductions()
{
	int N = sx_arg(0);
	TypeDatabase db( 2048); Sc d[6], u[6]; int w[6], from[6], to[6], tag[6];
	Scope all( 0, INF);
	int t[3] = {db.defineType( all, 0, "A", 0, NOPARAM), db.defineType( all, 0, "B", 0, NOPARAM), db.defineType( all, 0, "C", 0, NOPARAM)};
	for (int i=0; i<N; ++i)
	{
		d[i] = anyScope( d, i); from[i] = sx_pick( "from", 2); to[i] = sx_pick( "to", 2); to[i] = to[i] == from[i] ? 2 : to[i];
		tag[i] = i ? i : 32; // no duplicates
		db.defineReduction( Scope( d[i].s, d[i].e), t[ to[i]], t[ from[i]], 10+i, tag[i], 0.25f * i);
	}
	int n = uniq( d, N, u, w);
	auto tree = db.getReductionDefinitionTree();
	checkTree( tree, u, n, [&]( const ScopeHierarchyTreeNode<TypeDatabase::ReductionDefinitionList>& item, int k){
		std::size_t c = 0;
		for (int i=0; i<N; ++i) if (w[i] == k)
		{
			++c; int f = 0;
			for (auto const& x : item.value) f += (x.toType == t[to[i]] && x.fromType == t[from[i]] && x.constructor == 10+i && x.tag == tag[i] && x.weight == 0.25f*i);
			sx_assert( f == 1, "a node of the tree lists the reductions defined in its scope with all attributes");
		}
		sx_assert( item.value.size() == c, "a node of the tree lists nothing but the reductions of its scope");
	});
	sx_expect("tree");
}
// a tree of N scopes of any shape (parent of each among the earlier ones), with arbitrary bounds properly inside the parent and behind the earlier
// siblings, defined in one of four orders
extern "C" void h_tree_shapes()
{
	int N = sx_arg(0);
	Sc d[8]; int par[8]; int last[8];
	for (int i=0; i<N; ++i)
	{
		par[i] = i ? sx_pick( "parent", i+1)-1 : -1; last[i] = -1;
		sx_sym( &d[i].s, 4, "start"); sx_sym( &d[i].e, 4, "end"); sx_assume( (d[i].s > 0) & (d[i].s < d[i].e) & (d[i].e < INF));
		if (par[i] >= 0) sx_assume( (d[i].s > d[par[i]].s) & (d[i].e < d[par[i]].e));
		for (int j=i-1; j>=0; --j) if (par[j] == par[i]) { sx_assume( d[i].s > d[j].e); break; }
	}
	int order = sx_pick( "order", 4);
	TypeDatabase db( 2048); int val[8];
	for (int k=0; k<N; ++k)
	{
		int i = order == 0 ? k : order == 1 ? N-1-k : order == 2 ? (k*2 < N ? k*2 : (k*2-N)|1) : (k+N/2) % N;
		if (order == 2) { int evens = (N+1)/2; i = k < evens ? k*2 : (k-evens)*2+1; }
		val[i] = k+1; db.setObjectInstance( "x", Scope( d[i].s, d[i].e), k+1);
	}
	auto tree = db.getObjectInstanceTree( "x");
	int count = 0; std::size_t idx[8]; // node of every scope
	for (int i=0; i<N; ++i)
	{
		std::size_t at = par[i] < 0 ? 1 : idx[ par[i]]; int found = 0, guard = 0; idx[i] = 1;
		for (std::size_t c = tree[at].chld(); c && guard <= N; c = tree[c].next(), ++guard) { Sc s = {tree[c].item().scope.start(), tree[c].item().scope.end()}; if ((bool)same( s, d[i])) { ++found; idx[i] = c; sx_assert( tree[c].item().value == val[i], "a node of the tree has the instance set in its scope"); } }
		sx_assert( guard <= N && found == 1, "a scope is exactly once among the children of the innermost scope enclosing it");
		++count;
	}
	int total = 0; auto ti = tree.begin(); auto te = tree.end();
	for (; ti != te && total <= N+1; ++ti) ++total;
	sx_assert( total == N+1, "the traversal of the tree visits every node once");
	int step = anyStep(); int exp = -1; for (int i=0; i<N; ++i) exp = holds( d[i], step) ? val[i] : exp;
	sx_assert( db.getObjectInstance( "x", step) == exp, "the instance visible is the one of the innermost scope");
	sx_reach("shape"); sx_expect("shape");
}
