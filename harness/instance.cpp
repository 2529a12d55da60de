#include "scopes.hpp"
// Any history of N definitions for one name (or two names), then any query.
// arg0 N, arg1 number of names
extern "C" void h_instance()
{
	int N = sx_arg(0), NAMES = sx_arg(1);
	TypeDatabase db( 2048);
	Sc d[6]; int nm[6], h[6];
	const char* names[3] = {"x","y","z"};
	for (int i=0; i<N; ++i)
	{
		d[i] = anyScope( d, i); nm[i] = NAMES > 1 ? sx_pick( "name", NAMES) : 0;
		sx_sym( &h[i], 4, "handle"); sx_assume( h[i] > 0);
		db.setObjectInstance( names[ nm[i]], Scope( d[i].s, d[i].e), h[i]);
	}
	int qn = NAMES > 1 ? sx_pick( "qname", NAMES) : 0;
	int step = anyStep();
	int got = db.getObjectInstance( names[ qn], step);
	int exp = -1; Sc best = {0,INF};
	for (int i=0; i<N; ++i) if (nm[i] == qn) { bool c = holds( d[i], step) & inside( d[i], best); exp = c?h[i]:exp; best.s = c?d[i].s:best.s; best.e = c?d[i].e:best.e; }
	sx_assert( got == exp, "the instance visible at a step is the one of the innermost scope enclosing it, last definition of that scope");
	if (got > 0) sx_reach("visible"); else sx_reach("invisible");
	sx_expect("visible"); sx_expect("invisible");
	sx_assert( db.getObjectInstance( names[ 2], step) == -1, "a name never defined has no instance");
}
extern "C" void h_instance_exact()
{
	int N = sx_arg(0);
	TypeDatabase db( 2048);
	Sc d[6]; int h[6];
	for (int i=0; i<N; ++i) { d[i] = anyScope( d, i); sx_sym( &h[i], 4, "handle"); sx_assume( h[i] > 0); db.setObjectInstance( "x", Scope( d[i].s, d[i].e), h[i]); }
	Sc q; sx_sym( &q.s, 4, "qstart"); sx_sym( &q.e, 4, "qend"); sx_assume( (q.s >= 0) & (q.s < q.e));
	int got = db.getObjectInstanceOfScope( "x", Scope( q.s, q.e));
	int exp = -1;
	for (int i=0; i<N; ++i) exp = same( d[i], q) ? h[i] : exp;
	sx_assert( got == exp, "the instance of a scope is the one last defined for exactly this scope");
	if (got > 0) sx_reach("exact"); else sx_reach("none");
	sx_expect("exact"); sx_expect("none");
}
// two databases, the same definitions in two orders answer alike
extern "C" void h_instance_order()
{
	int N = sx_arg(0);
	TypeDatabase a( 2048), b( 2048);
	Sc d[6];
	for (int i=0; i<N; ++i) { d[i] = anyScope( d, i); for (int j=0; j<i; ++j) sx_assume( !same( d[i], d[j])); }
	for (int i=0; i<N; ++i) a.setObjectInstance( "x", Scope( d[i].s, d[i].e), i+1);
	for (int i=N-1; i>=0; --i) b.setObjectInstance( "x", Scope( d[i].s, d[i].e), i+1);
	int step = anyStep();
	sx_assert( a.getObjectInstance( "x", step) == b.getObjectInstance( "x", step), "the order of definitions does not matter");
	sx_reach("order"); sx_expect("order");
}
// invalid arguments are rejected and do not change what is visible
extern "C" void h_instance_invalid()
{
	TypeDatabase db( 2048);
	Sc d = anyScope( 0, 0);
	db.setObjectInstance( "x", Scope( d.s, d.e), 7);
	int h = sx_int( "handle", -9, 9);
	Sc f; f.s = sx_small( "fstart", 0, 9); f.e = sx_small( "fend", 0, 9); sx_assume( nested( f, d) & ((h <= 0) | (f.s >= f.e)));
	int ec = errorOf( [&]{ db.setObjectInstance( "x", Scope( f.s, f.e), h); });
	sx_assert( ec != 0, "a non-positive handle or an empty scope is rejected");
	int step = anyStep();
	sx_assert( db.getObjectInstance( "x", step) == (holds( d, step) ? 7 : -1), "a rejected definition has no effect");
	sx_reach("rejected"); sx_expect("rejected");
}
