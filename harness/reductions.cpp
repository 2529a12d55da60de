#include "scopes.hpp"
typedef TypeDatabase::TypeConstructorPairList PL;
static const PL NOPARAM( 0, nullptr);
static const Scope ALL( 0, INF);
static inline TagMask mask( const char* name) { uint32_t m; sx_sym( &m, 4, name); return TagMask( m); }
static inline bool has( const TagMask& m, int tag) { return (m.mask() >> (tag-1)) & 1; }
struct Red { Sc sc; int to, tag, ctor; bool eff; };
// Any history of N reductions of one type to NT others, in arbitrary nested scopes with arbitrary tags and constructors
extern "C" void h_reductions()
{
	int N = sx_arg(0), NT = sx_arg(1), NTAG = sx_arg(2), fixed = sx_arg(3); // fixed: one inner and one outer scope only
	TypeDatabase db( 2048);
	int f = db.defineType( ALL, 0, "F", 0, NOPARAM); int t[3] = {db.defineType( ALL, 0, "A", 0, NOPARAM), db.defineType( ALL, 0, "B", 0, NOPARAM), db.defineType( ALL, 0, "C", 0, NOPARAM)};
	Red d[5]; Sc sc[5]; bool conflict = false;
	for (int i=0; i<N; ++i)
	{
		sc[i] = d[i].sc = fixed ? (sx_pick( "inner", 2) ? Sc{10,20} : Sc{5,100}) : anyScope( sc, i); d[i].to = NT > 1 ? sx_pick( "to", NT) : 0; d[i].tag = sx_pick( "tag", NTAG); d[i].tag = d[i].tag == 2 ? 32 : d[i].tag+1;
		sx_sym( &d[i].ctor, 4, "ctor"); sx_assume( d[i].ctor >= 0);
		int e = errorOf( [&]{ db.defineReduction( Scope( d[i].sc.s, d[i].sc.e), t[ d[i].to], f, d[i].ctor, d[i].tag, 0.25f * (i+1)); });
		d[i].eff = true; bool bad = false;
		for (int j=0; j<i; ++j) if (d[j].eff && d[j].to == d[i].to && d[j].tag == d[i].tag && same( d[j].sc, d[i].sc)) { d[i].eff = false; bad = d[j].ctor != d[i].ctor; sx_reach( bad ? "conflicting" : "repeated"); break; }
		sx_assert( e == (bad ? (int)Error::DuplicateDefinition : 0), "a repeated definition is accepted, one with another constructor is refused");
	}
	int step = fixed ? 15 : anyStep(); TagMask sel = mask( "select"), cnt = mask( "count");
	TypeDatabase::ResultBuffer rb;
	auto res = db.getReductions( step, f, sel, cnt, rb);
	std::size_t n = 0;
	for (int k=0; k<NT; ++k)
	{
		int best = -1;
		for (int i=0; i<N; ++i) if (d[i].eff && d[i].to == k && holds( d[i].sc, step) && has( sel, d[i].tag))
			if (best < 0 || (inside( d[i].sc, d[best].sc) && !same( d[i].sc, d[best].sc))) best = i;
		auto g = db.getReduction( step, t[k], f, sel);
		if (best < 0) { sx_assert( !g.defined(), "a reduction not selected by tag or not visible is not found"); sx_reach("none"); continue; }
		++n;
		sx_assert( (g.constructor == d[best].ctor) & (g.weight == 0.25f * (best+1)), "the reduction of the innermost scope with a selected tag is the one that counts");
		int c = 0;
		for (auto const& r : res.reductions) if (r.type == t[k])
		{
			++c; sx_assert( (r.constructor == d[best].ctor) & (r.weight == 0.25f * (best+1)) & (r.count == has( cnt, d[best].tag)), "a reduction listed has its constructor, weight and count flag");
		}
		sx_assert( c == 1, "every type reducible to is listed once"); sx_reach("listed");
	}
	sx_assert( res.reductions.size() == n, "nothing else is listed");
	sx_expect("none"); sx_expect("listed"); sx_expect("repeated"); sx_expect("conflicting");
}
extern "C" void h_reduction_invalid()
{
	TypeDatabase db( 2048);
	int f = db.defineType( ALL, 0, "F", 0, NOPARAM), t = db.defineType( ALL, 0, "T", 0, NOPARAM);
	int tag = sx_small( "tag", -2, 40), ctor = sx_small( "ctor", -2, 2), w = sx_pick( "weight", 4);
	Sc sc; sc.s = sx_small( "start", 0, 3); sc.e = sx_small( "end", 0, 3);
	int e = errorOf( [&]{ db.defineReduction( Scope( sc.s, sc.e), t, f, ctor, tag, w == 0 ? -0.25f : w == 1 ? 0.0f : w == 2 ? 0.5f : std::numeric_limits<float>::quiet_NaN()); });
	bool ok = (tag >= 1) & (tag <= 32) & (ctor >= 0) & (w == 1 || w == 2) & (sc.s < sc.e);
	sx_assert( (e == 0) == ok, "a reduction with a bad tag, weight, constructor or scope is refused and others are accepted");
	int step = sx_small( "step", 0, 4);
	auto g = db.getReduction( step, t, f, TagMask::matchAll());
	sx_assert( g.defined() == (ok && holds( sc, step)), "a refused reduction has no effect");
	if (ok) sx_reach("accepted"); else sx_reach("refused");
	sx_expect("accepted"); sx_expect("refused");
}
extern "C" void h_tagmask()
{
	TagMask m = mask( "mask"); int tag = sx_int( "tag", 1, 32), q = sx_int( "query", 1, 32);
	bool before = has( m, q);
	TagMask u = m | tag;
	sx_assert( has( u, q) == (before | (q == tag)), "adding a tag to a set of tags keeps the others");
	sx_assert( has( m, q) == before, "the set added to is not changed");
	TagMask v( m); v |= tag; sx_assert( v.mask() == u.mask(), "both ways of adding a tag agree");
	sx_assert( u.matches( TagMask::tagValFromTag( q)) == has( u, q), "a set of tags matches exactly its tags");
	sx_assert( TagMask::matchAll().matches( TagMask::tagValFromTag( q)) && !TagMask::matchNothing().matches( TagMask::tagValFromTag( q)), "the full set matches every tag, the empty one none");
	sx_assert( TagMask::tagFromTagVal( TagMask::tagValFromTag( q)) == q, "the internal form of a tag is reversible");
	int b = sx_int( "bad", -3, 40); sx_assume( (b < 1) | (b > 32));
	sx_assert( errorOf( [&]{ TagMask x = m | b; (void)x; }) == Error::BadRelationTag && errorOf( [&]{ TagMask x( m); x |= b; }) == Error::BadRelationTag, "a tag out of range is refused");
	sx_reach("tagmask"); sx_expect("tagmask");
}
// ---- T05: search for a path of reductions
// NE edges between K types; every edge has an arbitrary scope, tag and constructor; weights are multiples of 1/4
struct Edge { int from, to, ctor, tag; int w; Sc sc; bool on, cnt; };
static const int MAXE = 8, MAXK = 5;
struct Graph { int ne; Edge e[MAXE]; };
// all simple paths from `at`; calls fn(edges,n) for each that ends in target
template <class F> static void paths( const Graph& g, int at, int target, bool (*seen), int* stk, int n, int w, int c, int maxc, F& fn)
{
	if (at == target) { fn( stk, n, w); return; }
	for (int i=0; i<g.ne; ++i) if (g.e[i].on && g.e[i].from == at && !seen[ g.e[i].to] && (maxc < 0 || c + g.e[i].cnt <= maxc))
	{
		seen[ g.e[i].to] = true; stk[n] = i;
		paths( g, g.e[i].to, target, seen, stk, n+1, w + g.e[i].w, c + g.e[i].cnt, maxc, fn);
		seen[ g.e[i].to] = false;
	}
}
static void anyGraph( Graph& g, TypeDatabase& db, const int* t, const int (*shape)[2], int ne, int NW, bool scoped, const TagMask& sel, const TagMask& cnt, int step)
{
	g.ne = ne; Sc all[MAXE];
	for (int i=0; i<ne; ++i)
	{
		Edge& e = g.e[i]; e.from = shape[i][0]; e.to = shape[i][1];
		e.w = NW > 1 ? sx_pick( "weight", NW) : 0;
		e.tag = 1 + i; e.ctor = 100+i;
		if (scoped) all[i] = e.sc = anyScope( all, i); else { e.sc.s = 0; e.sc.e = INF; }
		db.defineReduction( Scope( e.sc.s, e.sc.e), t[ e.to], t[ e.from], e.ctor, e.tag, 0.25f * e.w);
		e.on = holds( e.sc, step) & has( sel, e.tag); e.cnt = has( cnt, e.tag);
		e.on = (bool)sx_concretize( e.on); if (e.on) e.cnt = (bool)sx_concretize( e.cnt);
	}
}
// shapes: diamond with shortcut and back edges
static const int SHAPE[4][MAXE][2] = {
	{{0,1},{0,2},{1,3},{2,3},{0,3},{1,2},{3,0},{2,1}},
	{{0,1},{1,2},{2,3},{0,2},{1,3},{2,0},{0,3},{3,1}},
	{{0,1},{1,0},{1,2},{2,1},{2,3},{0,3},{0,2},{3,2}},
	{{0,1},{0,2},{0,3},{1,3},{2,3},{1,2},{2,1},{3,1}}};
extern "C" void h_derive()
{
	int shape = sx_arg(0), ne = sx_arg(1), NW = sx_arg(2), counted = sx_arg(3), scoped = sx_arg(4);
	TypeDatabase db( 2048); int t[MAXK]; const char* nm[MAXK] = {"A","B","C","D","E"};
	for (int i=0; i<MAXK; ++i) t[i] = db.defineType( ALL, 0, nm[i], 0, NOPARAM);
	int step = scoped ? anyStep() : 5; TagMask sel = mask( "select"), cnt = counted ? mask( "count") : TagMask::matchNothing();
	int maxc = counted ? sx_pick( "max", 4) - 1 : -1;
	Graph g; anyGraph( g, db, t, SHAPE[ shape], ne, NW, scoped, sel, cnt, step);
	int to = sx_pick( "target", 2) ? 3 : 0;
	int best = -1, nbest = 0; int stk[MAXE]; bool seen[MAXK] = {true,false,false,false,false};
	auto collect = [&]( const int*, int, int w){ if (best < 0 || w < best) { best = w; nbest = 1; } else if (w == best) ++nbest; };
	paths( g, 0, to, seen, stk, 0, 0, 0, maxc, collect);
	TypeDatabase::ResultBuffer rb;
	auto r = db.deriveType( step, t[to], t[0], sel, cnt, maxc, rb);
	sx_assert( r.defined == (best >= 0), "a derivation is found exactly if there is a path of visible selected reductions");
	if (!r.defined) { sx_reach("none"); sx_assert( r.reductions.empty() && r.conflictPath.empty(), "an undefined result is empty"); }
	else
	{
		sx_assert( r.weightsum == 0.25f * best, "the derivation found has the minimal sum of weights");
		int at = 0, w = 0, c = 0;
		for (auto const& x : r.reductions)
		{
			int f = -1; for (int i=0; i<g.ne; ++i) if (g.e[i].on && g.e[i].from == at && t[ g.e[i].to] == x.type && g.e[i].ctor == x.constructor) f = i;
			sx_assert( f >= 0, "every step of the derivation is a visible selected reduction with its constructor");
			if (f < 0) return;
			at = g.e[f].to; w += g.e[f].w; c += g.e[f].cnt;
		}
		sx_assert( at == to && w == best, "the derivation leads from the source to the target with the weight reported");
		sx_assert( maxc < 0 || c <= maxc, "the derivation does not have more counted reductions than allowed");
		sx_assert( r.conflictPath.empty() == (nbest < 2), "an ambiguity is reported exactly if another path has the same weight");
		if (nbest > 1)
		{
			sx_reach("ambiguous");
			at = 0; w = 0; bool diff = r.conflictPath.size() != r.reductions.size(); std::size_t k = 0;
			for (int x : r.conflictPath)
			{
				int f = -1; for (int i=0; i<g.ne; ++i) if (g.e[i].on && g.e[i].from == at && t[ g.e[i].to] == x) f = i;
				sx_assert( f >= 0, "the conflicting path is a path of reductions"); if (f < 0) return;
				if (!diff && r.reductions[k].type != x) diff = true;
				at = g.e[f].to; w += g.e[f].w; ++k;
			}
			sx_assert( at == to && w == best && diff, "the conflicting path is another path of the same weight to the target");
		}
		else sx_reach("unique");
	}
	sx_expect("none"); sx_expect("unique"); if (ne > 4 || NW > 1) sx_expect("ambiguous");
}
// ---- T06: resolution of a name in a context reachable by reductions
extern "C" void h_resolve()
{
	int shape = sx_arg(0), ne = sx_arg(1), NW = sx_arg(2), scoped = sx_arg(3);
	TypeDatabase db( 2048); int t[MAXK]; const char* nm[MAXK] = {"A","B","C","D","E"};
	for (int i=0; i<MAXK; ++i) t[i] = db.defineType( ALL, 0, nm[i], 0, NOPARAM);
	int step = scoped ? anyStep() : 5; sx_assume( step < INF); TagMask sel = mask( "select");
	Graph g; anyGraph( g, db, t, SHAPE[ shape], ne, NW, false, sel, TagMask::matchNothing(), step);
	// members "m": in contexts D (two overloads and one in an outer scope) and C
	Sc sc[4]; int mt[4] = {-1,-1,-1,-1};
	sc[0] = scoped ? anyScope( sc, 0) : Sc{0,INF}; sc[1] = scoped ? anyScope( sc, 1) : Sc{1,100};
	TypeDatabase::TypeConstructorPair p[1] = {{t[4],0}};
	mt[0] = db.defineType( Scope( sc[0].s, sc[0].e), t[3], "m", 0, NOPARAM);
	mt[1] = db.defineType( Scope( sc[1].s, sc[1].e), t[3], "m", 0, PL( 1, p));
	bool atC = sx_pick( "memberOfC", 2), at0 = sx_pick( "memberOfGlobal", 2);
	if (atC) mt[2] = db.defineType( ALL, t[2], "m", 0, NOPARAM);
	if (at0) mt[3] = db.defineType( ALL, 0, "m", 0, NOPARAM);
	int roots[4], nr = 0; static const int ROOTS[7][4] = {{0,-1},{1,0,-1},{0,1,-1},{1,-2,-1},{0,0,-1},{0,0,1,-1},{1,1,-2,-1}};
	int rk = sx_pick( "roots", 7); for (; ROOTS[rk][nr] != -1; ++nr) roots[nr] = ROOTS[rk][nr];
	std::vector<int> rv; std::pmr::vector<int> ctx; for (int i=0; i<nr; ++i) ctx.push_back( roots[i] == -2 ? 0 : t[ roots[i]]);
	bool visD = (bool)sx_concretize( holds( sc[0], step) | holds( sc[1], step));
	auto isTarget = [&]( int k){ return k == 3 ? visD : k == 2 ? atC : k == -2 ? at0 : false; };
	int best = -1, nbest = 0;
	for (int r=0; r<nr; ++r)
	{
		bool dup = false; for (int q=0; q<r; ++q) dup |= roots[q] == roots[r];
		if (dup) continue;
		auto collect = [&]( const int*, int, int w){ if (best < 0 || w < best) { best = w; nbest = 1; } else if (w == best) ++nbest; };
		if (roots[r] == -2) { if (at0) { int s = 0; collect( &s, 0, 0); } continue; }
		for (int k=2; k<=3; ++k) if (isTarget( k))
		{
			// paths that pass another target count for both
			int stk[MAXE]; bool seen[MAXK] = {false,false,false,false,false}; seen[ roots[r]] = true;
			paths( g, roots[r], k, seen, stk, 0, 0, 0, -1, collect);
		}
	}
	TypeDatabase::ResultBuffer rb;
	auto r = db.resolveType( step, ctx, "m", sel, rb);
	if (best < 0) { sx_assert( r.contextType == -1 && r.items.empty() && r.conflictType == -1, "a name without definition in a reachable context is not resolved"); sx_reach("none"); }
	else
	{
		sx_assert( r.weightsum == 0.25f * best, "the context found is one with the minimal sum of weights");
		sx_assert( r.rootIndex >= 1 && r.rootIndex <= nr, "the result tells from which of the contexts passed it is reached"); if (r.rootIndex < 1 || r.rootIndex > nr) return;
		int at = roots[ r.rootIndex-1], w = 0;
		for (auto const& x : r.reductions)
		{
			int f = -1; for (int i=0; i<g.ne; ++i) if (g.e[i].on && g.e[i].from == at && t[ g.e[i].to] == x.type && g.e[i].ctor == x.constructor) f = i;
			sx_assert( f >= 0, "every step to the context is a visible selected reduction with its constructor"); if (f < 0) return;
			at = g.e[f].to; w += g.e[f].w;
		}
		sx_assert( w == best && isTarget( at) && r.contextType == (at == -2 ? 0 : t[at]), "the path leads to the context reported");
		int ex[3], ne2 = 0;
		if (at == 2) ex[ne2++] = mt[2]; else if (at == -2) ex[ne2++] = mt[3];
		else
		{
			bool h0 = holds( sc[0], step), h1 = holds( sc[1], step), sm = same( sc[0], sc[1]);
			if (h0 && sm) { ex[ne2++] = mt[0]; ex[ne2++] = mt[1]; sx_reach("overloads"); }
			else if (h0 && (!h1 || inside( sc[0], sc[1]))) ex[ne2++] = mt[0];
			else ex[ne2++] = mt[1];
		}
		bool eq = (int)r.items.size() == ne2; for (int i=0; eq && i<ne2; ++i) eq = r.items[i] == ex[i];
		sx_assert( eq, "the items are the definitions of the name in the innermost scope, in the order of their definition");
		sx_assert( (r.conflictType != -1) == (nbest > 1), "an ambiguity is reported exactly if another path to a definition has the same weight");
		sx_reach( nbest > 1 ? "ambiguous" : "unique");
	}
	sx_expect("none"); sx_expect("unique"); sx_expect("ambiguous"); if (scoped) sx_expect("overloads");
}
