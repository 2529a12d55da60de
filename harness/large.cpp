// Big structures of the type database, fixed in shape but not in the order of their definition, and arbitrary queries on them.
#include "scopes.hpp"
#include <cstring>
typedef TypeDatabase::TypeConstructorPair P;
typedef TypeDatabase::TypeConstructorPairList PL;
typedef TypeDatabase::TypeList TL;
static const Scope ALL( 0, INF);
static const PL NOPARAM( 0, nullptr);
static const int MAXS = 64;
// shape 0: binary tree, 1: a chain of scopes nested in each other, 2: many disjoint scopes with one inside of each, 3: touching scopes, some with the same start or end as their parent
static int world( int shape, int n, Sc* d)
{
	if (shape == 0)
	{
		d[0] = {10,10 + 16*MAXS};
		for (int i=1; i<n; ++i) { Sc p = d[(i-1)/2]; int m = (p.s + p.e) / 2; d[i] = (i & 1) ? Sc{p.s+1,m} : Sc{m+1,p.e-1}; }
	}
	else if (shape == 1) for (int i=0; i<n; ++i) d[i] = {i*3 + 1, 1000 - i*5};
	else if (shape == 2) for (int i=0; i<n; ++i) { int k = (i/2)*10; d[i] = (i & 1) ? Sc{k+3,k+6} : Sc{k+1,k+9}; }
	else for (int i=0; i<n; ++i) { int k = (i/3)*12; d[i] = i%3 == 0 ? Sc{k,k+12} : i%3 == 1 ? Sc{k,k+6} : Sc{k+6,k+12}; }
	return n;
}
// the k-th to define in one of six orders
static int nth( int order, int k, int n)
{
	switch (order)
	{
		case 0: return k;
		case 1: return n-1-k;
		case 2: { int ev = (n+1)/2; return k < ev ? 2*k : 2*(k-ev)+1; }
		case 3: { int ev = (n+1)/2; return k < n-ev ? 2*k+1 : 2*(k-(n-ev)); }
		case 4: return (k & 1) ? n-1-k/2 : k/2;
		default: return (k + n/2) % n;
	}
}
static int innermost( const Sc* d, int n, int step)	// index of the innermost scope that holds the step or -1
{
	int b = -1; Sc best = {0,INF};
	for (int i=0; i<n; ++i) { bool c = holds( d[i], step) & inside( d[i], best); b = c?i:b; best.s = c?d[i].s:best.s; best.e = c?d[i].e:best.e; }
	return b;
}
static void longName( char* buf, int len, int k) { for (int i=0; i<len; ++i) buf[i] = 'a' + (i*7+k)%26; buf[len] = 0; }
extern "C" void h_large_instances()
{
	int shape = sx_arg(0), n = sx_arg(1); Sc d[MAXS]; world( shape, n, d);
	TypeDatabase db( sx_arg(2));
	int order = sx_pick( "order", 6), qn = sx_pick( "name", 4);
	char nm[4][200]; for (int k=0; k<4; ++k) longName( nm[k], k*61+1, k);
	int val[4][MAXS]; for (int q=0; q<4; ++q) for (int i=0; i<n; ++i) val[q][i] = -1;
	for (int k=0; k<n; ++k)
	{
		int i = nth( order, k, n);
		for (int q=0; q<4; ++q) if (q == 0 || (i % (q+1)) == 0) { val[q][i] = 1000*q + k + 1; db.setObjectInstance( std::string_view( nm[q]), Scope( d[i].s, d[i].e), val[q][i]); }
	}
	for (int i=0; i<n; i+=5) { val[0][i] = 5000 + i; db.setObjectInstance( std::string_view( nm[0]), Scope( d[i].s, d[i].e), val[0][i]); }
	int step = anyStep();
	Sc f[MAXS]; int v[MAXS], c = 0; for (int i=0; i<n; ++i) if (val[qn][i] > 0) { f[c] = d[i]; v[c++] = val[qn][i]; }
	int got = db.getObjectInstance( std::string_view( nm[qn]), step);
	int exp = -1; Sc best = {0,INF};
	for (int i=0; i<c; ++i) { bool h = holds( f[i], step) & inside( f[i], best); exp = h?v[i]:exp; best.s = h?f[i].s:best.s; best.e = h?f[i].e:best.e; }
	sx_assert( got == exp, "among many scopes the instance visible is the one of the innermost scope enclosing the step");
	int q = sx_pick( "scope", n);
	sx_assert( db.getObjectInstanceOfScope( std::string_view( nm[qn]), Scope( d[q].s, d[q].e)) == val[qn][q], "the instance of one of many scopes is the one last set in it");
	if (got > 0) sx_reach("visible"); else sx_reach("invisible");
	sx_expect("visible"); sx_expect("invisible");
}
// a name defined in many scopes, and the tree of the definitions
extern "C" void h_large_trees()
{
	int shape = sx_arg(0), n = sx_arg(1); Sc d[MAXS]; world( shape, n, d);
	TypeDatabase db( sx_arg(2));
	int order = sx_pick( "order", 6); int h[MAXS];
	int a = db.defineType( ALL, 0, "A", 0, NOPARAM), b = db.defineType( ALL, 0, "B", 0, NOPARAM);
	for (int k=0; k<n; ++k) { int i = nth( order, k, n); h[i] = db.defineType( Scope( d[i].s, d[i].e), 0, "t", i, NOPARAM); db.setObjectInstance( "x", Scope( d[i].s, d[i].e), i+1); db.defineReduction( Scope( d[i].s, d[i].e), a, b, i, 1 + i%32, 0.5f); }
	auto check = [&]( auto const& tree, auto value) {
		int count = 0;
		struct Fr { std::size_t idx; int k; } st[2*MAXS]; int sp = 0; if (tree[1].chld()) st[sp++] = {tree[1].chld(),-1};
		bool seen[MAXS]; for (int i=0; i<n; ++i) seen[i] = false;
		while (sp)
		{
			Fr f = st[--sp]; auto const& nd = tree[ f.idx]; Sc s = {nd.item().scope.start(),nd.item().scope.end()};
			int me = -1; for (int i=0; i<n; ++i) if (same( d[i], s)) me = i;
			sx_assert( me >= 0 && !seen[me], "every node of a big tree is another scope with definitions"); if (me < 0 || seen[me]) return;
			seen[me] = true; ++count;
			int par = -1; for (int i=0; i<n; ++i) if (i != me && inside( s, d[i]) && (par < 0 || inside( d[i], d[par]))) par = i;
			sx_assert( par == f.k, "every scope is below the innermost one enclosing it");
			sx_assert( value( nd.item().value, me), "a node of a big tree has what was defined in its scope");
			if (nd.next()) st[sp++] = {nd.next(),f.k};
			if (nd.chld()) st[sp++] = {nd.chld(),me};
		}
		sx_assert( count == n, "every scope with definitions is in the tree"); };
	switch (sx_pick( "tree", 3))
	{
		case 0: check( db.getObjectInstanceTree( "x"), [&]( int v, int k){ return v == k+1; }); break;
		case 1: { auto tree = db.getTypeDefinitionTree(); sx_assert( tree[1].item().value.size() == 2, "the root has the types defined globally"); check( tree, [&]( auto const& v, int k){ return v.size() == 1 && *v.begin() == h[k]; }); break; }
		default: check( db.getReductionDefinitionTree(), [&]( auto const& v, int k){ return v.size() == 1 && v.begin()->constructor == k && v.begin()->tag == 1 + k%32 && v.begin()->toType == a && v.begin()->fromType == b; });
	}
	int step = anyStep(); sx_assume( step < INF);
	int in = innermost( d, n, step);
	TypeDatabase::ResultBuffer rb;
	auto r = db.resolveType( step, 0, "t", TagMask::matchAll(), rb);
	in = (int)sx_concretize( in);
	if (in < 0) { sx_assert( r.contextType == -1 && r.items.empty(), "a name is not resolved outside of the many scopes that define it"); sx_reach("outside"); }
	else { sx_assert( r.contextType == 0 && r.items.size() == 1 && r.items[0] == h[in], "a name defined in many scopes resolves to the definition of the innermost one"); sx_reach("inside"); }
	auto g = db.getReduction( step, a, b, TagMask::matchAll());
	sx_assert( g.defined() == (in >= 0) && (in < 0 || g.constructor == in), "a reduction defined in many scopes is the one of the innermost scope");
	sx_expect("inside"); sx_expect("outside");
}
// many overloads of a name with longer and longer lists of parameters, in two scopes and two contexts
extern "C" void h_large_overloads()
{
	int n = sx_arg(0); TypeDatabase db( sx_arg(1)); int t[4]; const char* tn[4] = {"A","B","C","D"};
	for (int i=0; i<4; ++i) t[i] = db.defineType( ALL, 0, tn[i], 0, NOPARAM);
	Sc sc[2] = {{0,INF},{5,50}}; int h[2][2][MAXS]; int par[MAXS][8], len[MAXS];
	int rev = sx_pick( "reversed", 2);
	for (int k=0; k<n; ++k)
	{
		int i = rev ? n-1-k : k; len[i] = 0; for (int x = i; x; x = (x-1)/3) par[i][ len[i]++] = t[(x-1)%3];	// all lists over 3 types in the order of their length
		for (int s=0; s<2; ++s) for (int c=0; c<2; ++c)
		{
			P p[8]; for (int j=0; j<len[i]; ++j) { p[j].type = par[i][j]; p[j].constructor = 100*i + j; }
			h[s][c][i] = -2; if (s && i%2) continue;
			h[s][c][i] = db.defineType( Scope( sc[s].s, sc[s].e), c ? t[3] : 0, "f", 1000*s + 100*c + i, PL( len[i], p));
			sx_assert( h[s][c][i] > 0, "one more overload of a name is defined");
		}
	}
	int s = sx_pick( "scope", 2), c = sx_pick( "context", 2), L = sx_pick( "length", 4); int q[4]; for (int j=0; j<L; ++j) sx_sym( q+j, 4, "parameter");
	int got = db.getType( Scope( sc[s].s, sc[s].e), c ? t[3] : 0, "f", TL( L, q));
	int exp = 0;
	for (int i=0; i<n; ++i) if (len[i] == L && h[s][c][i] > 0) { bool m = true; for (int j=0; j<L; ++j) m &= (par[i][j] == q[j]); exp = m ? h[s][c][i] : exp; }
	sx_assert( got == exp, "among many overloads the one with exactly these parameters is found"); if (got > 0) sx_reach("found"); else sx_reach("missing");
	int i = sx_pick( "overload", n); if (h[s][c][i] > 0)
	{
		PL pl = db.typeParameters( h[s][c][i]); bool ok = pl.size() == (std::size_t)len[i]; for (int j=0; j<len[i] && ok; ++j) ok = pl[j].type == par[i][j] && pl[j].constructor == 100*i + j;
		sx_assert( ok && db.typeConstructor( h[s][c][i]) == 1000*s + 100*c + i && db.typeContext( h[s][c][i]) == (c ? t[3] : 0), "each of many overloads keeps its attributes");
		P p[8]; for (int j=0; j<len[i]; ++j) { p[j].type = par[i][j]; p[j].constructor = 1; }
		sx_assert( db.defineType( Scope( sc[s].s, sc[s].e), c ? t[3] : 0, "f", 1, PL( len[i], p)) <= 0, "a repeated overload among many is a duplicate");
	}
	int step = anyStep(); sx_assume( step < INF); TypeDatabase::ResultBuffer rb;
	auto r = db.resolveType( step, c ? t[3] : 0, "f", TagMask::matchAll(), rb);
	bool in = (bool)sx_concretize( holds( sc[1], step)); int z = 0; bool ok = true;
	for (int k=0; k<n; ++k) { int x = h[in][c][ rev ? n-1-k : k]; if (x > 0) { ok &= z < (int)r.items.size() && r.items[z] == x; ++z; } }
	sx_assert( ok && z == (int)r.items.size(), "all of many overloads are listed in the order of their definition");
	sx_expect("found"); sx_expect("missing");
}
// many reductions of one type to many others in nested scopes
extern "C" void h_large_reductions()
{
	int n = sx_arg(0), NT = sx_arg(1), NTAG = sx_arg(2), order = sx_pick( "order", 6); TypeDatabase db( 2048);
	int f = db.defineType( ALL, 0, "F", 0, NOPARAM); int t[16]; char nm[3] = "T0"; for (int i=0; i<NT; ++i) { nm[1] = 'a' + i; t[i] = db.defineType( ALL, 0, nm, 0, NOPARAM); }
	static const int TAGS[6] = {1,32,17,16,2,31};
	static const Sc S[4] = {{0,INF},{10,100},{20,50},{60,90}};
	struct R { int to, tag, seq; Sc sc; } d[MAXS];
	for (int k=0; k<n; ++k)
	{
		int i = nth( order, k, n); d[i].to = i % NT; d[i].tag = TAGS[ (i/2) % NTAG]; d[i].sc = S[ (i/NT + i) % 4]; d[i].seq = k;
		int e = errorOf( [&]{ db.defineReduction( Scope( d[i].sc.s, d[i].sc.e), t[ d[i].to], f, i, d[i].tag, 0.125f * i); });
		bool dup = false; for (int j=0; j<k; ++j) { R& o = d[ nth( order, j, n)]; dup |= o.to == d[i].to && o.tag == d[i].tag && same( o.sc, d[i].sc) && o.seq >= 0; }
		if (dup) d[i].seq = -1;
		sx_assert( (e != 0) == dup, "a reduction is refused exactly if another one is defined for the same tag and scope");
	}
	int step = anyStep(); TagMask sel = TagMask::matchNothing(), cnt = TagMask( 0x00010001u);
	for (int i=0; i<NTAG; ++i) if (sx_pick( "selected", 2)) sel |= TAGS[i];
	TypeDatabase::ResultBuffer rb; auto res = db.getReductions( step, f, sel, cnt, rb); std::size_t total = 0;
	int at = (int)sx_concretize( innermost( S, 4, step));
	for (int k=0; k<NT; ++k)
	{
		int best = -1;
		for (int i=0; i<n; ++i) if (d[i].seq >= 0 && d[i].to == k && ((sel.mask() >> (d[i].tag-1)) & 1) && at >= 0 && inside( S[at], d[i].sc))
			if (best < 0 || (inside( d[i].sc, d[best].sc) && (!same( d[i].sc, d[best].sc) || d[i].seq < d[best].seq))) best = i;
		auto g = db.getReduction( step, t[k], f, sel);
		if (best < 0) { sx_assert( !g.defined(), "none of many reductions is found if none is visible and selected"); sx_reach("none"); continue; }
		++total; sx_assert( g.constructor == best && g.weight == 0.125f * best, "of many reductions the first of the innermost scope with a selected tag counts");
		int c = 0; for (auto const& r : res.reductions) if (r.type == t[k]) { ++c; sx_assert( r.constructor == best && r.weight == 0.125f * best && r.count == (d[best].tag == 1 || d[best].tag == 17), "each of many reductions is listed with its attributes"); }
		sx_assert( c == 1, "each of many types reducible to is listed once"); sx_reach("listed");
	}
	sx_assert( total == res.reductions.size(), "nothing else is listed"); sx_expect("none"); sx_expect("listed");
}
// long chains of reductions with shortcuts; arg0 nodes, arg1 number of shortcuts
struct Ed { int from, to, w, tag; };
static int chain( int n, int cuts, Ed* e)
{
	static const int CUT[6][3] = {{0,2,0},{1,4,1},{3,5,0},{2,7,2},{5,8,-1},{4,9,0}}; // difference of the weight to the one of the chain
	int c = 0;
	for (int i=0; i+1<n; ++i) { e[c] = {i,i+1,1,1 + i%3}; ++c; }
	for (int i=0; i<cuts; ++i) if (CUT[i][1] < n) { e[c] = {CUT[i][0],CUT[i][1],CUT[i][1]-CUT[i][0]+CUT[i][2],10 + i%3}; ++c; }
	for (int i=2; i<n; i+=3) { e[c] = {i,i-2,1,20}; ++c; } // back edges
	return c;
}
template <class F> static void walk( const Ed* e, int ne, const TagMask& sel, int at, bool* seen, int w, int cnt, int maxc, F fn)
{
	if (fn( at, w)) return;
	for (int i=0; i<ne; ++i) if (e[i].from == at && !seen[ e[i].to] && ((sel.mask() >> (e[i].tag-1)) & 1) && (maxc < 0 || cnt + (e[i].tag >= 10) <= maxc))
	{
		seen[ e[i].to] = true; walk( e, ne, sel, e[i].to, seen, w + e[i].w, cnt + (e[i].tag >= 10), maxc, fn); seen[ e[i].to] = false;
	}
}
static TagMask anySelection() { static const int T[7] = {1,2,3,10,11,12,20}; TagMask m = TagMask::matchNothing(); for (int i=0; i<7; ++i) if (i < 3 ? sx_pick( "chain", 2) == 0 : sx_pick( "shortcut", 2) == 0) m |= T[i]; return m; }
extern "C" void h_large_derive()
{
	int n = sx_arg(0), cuts = sx_arg(1); TypeDatabase db( 2048); Ed e[48]; int ne = chain( n, cuts, e), t[16]; char nm[3] = "T0"; bool seen[16] = {true};
	for (int i=0; i<n; ++i) { nm[1] = 'a' + i; t[i] = db.defineType( ALL, 0, nm, 0, NOPARAM); }
	int order = sx_pick( "order", 3); for (int k=0; k<ne; ++k) { int i = nth( order, k, ne); db.defineReduction( ALL, t[ e[i].to], t[ e[i].from], i, e[i].tag, 0.25f * e[i].w); }
	TagMask sel = anySelection(), cnt = (TagMask::matchNothing() | 10 | 11 | 12) | 20; int maxc = sx_pick( "max", 4) - 1, to = 1 + sx_pick( "target", n-1);
	int best = -1, nbest = 0;
	walk( e, ne, sel, 0, seen, 0, 0, maxc, [&]( int at, int w){ if (at != to) return false; if (best < 0 || w < best) { best = w; nbest = 1; } else if (w == best) ++nbest; return true; });
	TypeDatabase::ResultBuffer rb; auto r = db.deriveType( 5, t[to], t[0], sel, cnt, maxc, rb);
	sx_assert( r.defined == (best >= 0), "a long derivation is found exactly if there is a path of selected reductions");
	if (!r.defined) { sx_reach("none"); return; }
	sx_assert( r.weightsum == 0.25f * best, "a long derivation has the minimal sum of weights");
	int at = 0, w = 0, c = 0; for (auto const& x : r.reductions) { bool ok = x.constructor >= 0 && x.constructor < ne && e[ x.constructor].from == at && t[ e[ x.constructor].to] == x.type && ((sel.mask() >> (e[ x.constructor].tag-1)) & 1); sx_assert( ok, "every step of a long derivation is a selected reduction"); if (!ok) return; at = e[ x.constructor].to; w += e[ x.constructor].w; c += e[ x.constructor].tag >= 10; }
	sx_assert( at == to && w == best && (maxc < 0 || c <= maxc), "a long derivation leads to its target within the limit of counted reductions");
	sx_assert( r.conflictPath.empty() == (nbest < 2), "an ambiguity of a long derivation is reported exactly if there is one"); sx_reach( nbest < 2 ? "unique" : "ambiguous");
	sx_expect("none"); sx_expect("unique"); sx_expect("ambiguous");
}
extern "C" void h_large_resolve()
{
	int n = sx_arg(0), cuts = sx_arg(1); TypeDatabase db( 2048); Ed e[48]; int ne = chain( n, cuts, e), t[16]; char nm[3] = "T0"; bool seen[16] = {true};
	for (int i=0; i<n; ++i) { nm[1] = 'a' + i; t[i] = db.defineType( ALL, 0, nm, 0, NOPARAM); }
	for (int k=0; k<ne; ++k) db.defineReduction( ALL, t[ e[k].to], t[ e[k].from], k, e[k].tag, 0.25f * e[k].w);
	int m1 = sx_pick( "member", n), m2 = sx_pick( "member2", n); int h1 = db.defineType( ALL, t[m1], "m", 0, NOPARAM), h2 = m2 == m1 ? h1 : db.defineType( ALL, t[m2], "m", 0, NOPARAM);
	TagMask sel = anySelection(); int best = -1, nbest = 0; bool w1 = false, w2 = false;
	walk( e, ne, sel, 0, seen, 0, 0, -1, [&]( int at, int w){ if (at == m1 || at == m2) { if (best < 0 || w < best) { best = w; nbest = 1; w1 = at == m1; w2 = at == m2; } else if (w == best) { ++nbest; w1 |= at == m1; w2 |= at == m2; } } return false; });
	TypeDatabase::ResultBuffer rb; auto r = db.resolveType( 5, t[0], "m", sel, rb);
	if (best < 0) { sx_assert( r.contextType == -1 && r.items.empty(), "a name without definition in a context reachable by a long path is not resolved"); sx_reach("none"); return; }
	sx_assert( r.weightsum == 0.25f * best, "the context found by a long path is one of minimal weight");
	sx_assert( r.items.size() == 1 && ((r.contextType == t[m1] && r.items[0] == h1 && w1) || (r.contextType == t[m2] && r.items[0] == h2 && w2)), "the definition in the nearest context is found over a long path");
	int at = 0, w = 0; for (auto const& x : r.reductions) { bool ok = x.constructor >= 0 && x.constructor < ne && e[ x.constructor].from == at && t[ e[ x.constructor].to] == x.type; sx_assert( ok, "every step to a context is a selected reduction"); if (!ok) return; at = e[ x.constructor].to; w += e[ x.constructor].w; }
	sx_assert( w == best && t[at] == r.contextType, "a long path leads to the context reported");
	sx_assert( (r.conflictType != -1) == (nbest > 1), "an ambiguity over long paths is reported exactly if there is one"); sx_reach( nbest < 2 ? "unique" : "ambiguous");
	sx_expect("none"); sx_expect("unique"); sx_expect("ambiguous");
}
