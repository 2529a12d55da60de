#include "scopes.hpp"
#include <cstring>
typedef TypeDatabase::TypeConstructorPair P;
typedef TypeDatabase::TypeConstructorPairList PL;
typedef TypeDatabase::TypeList TL;
static const Scope ALL( 0, INF);
static const PL NOPARAM( 0, nullptr);
// parameter lists over two base types
static const int SIG[6][2] = {{0,0},{1,0},{2,0},{1,2},{2,1},{1,1}};
static int siglen( int k) { return SIG[k][0] ? (SIG[k][1] ? 2 : 1) : 0; }
struct Def { Sc sc; int ctx, name, sig, ctor; int handle; };

// two overloads of arbitrary length and arbitrary parameter types, then a query with a third list
extern "C" void h_signatures()
{
	int MAXP = sx_arg(0);
	TypeDatabase db( 2048);
	int h[3]; int t[3][16]; int len[3];
	for (int k=0; k<3; ++k)
	{
		len[k] = sx_pick( "len", MAXP+1);
		for (int i=0; i<len[k]; ++i) sx_sym( &t[k][i], 4, "ptype");
	}
	auto eq = [&]( int a, int b) { bool e = len[a] == len[b]; for (int i=0; i<len[a] && e; ++i) e = (bool)(e & (t[a][i] == t[b][i])); return e; };
	for (int k=0; k<2; ++k)
	{
		P par[16]; for (int i=0; i<len[k]; ++i) { par[i].type = t[k][i]; par[i].constructor = i+1; }
		h[k] = db.defineType( ALL, 0, "f", 7+k, PL( len[k], par));
	}
	bool same01 = eq( 0, 1);
	sx_assert( h[0] > 0, "the first definition gets a handle");
	if (same01) { sx_assert( h[1] == -1, "equal parameter lists of any length are duplicates"); sx_reach("duplicate"); }
	else { sx_assert( h[1] > 0 && h[1] != h[0], "parameter lists of any length differing anywhere are different overloads"); sx_reach("overload"); }
	int exp = eq( 2, 0) ? h[0] : eq( 2, 1) ? h[1] : 0;
	sx_assert( db.getType( ALL, 0, "f", TL( len[2], t[2])) == exp, "a type is found by its complete parameter list only");
	for (int k=0; k<2; ++k) if (h[k] > 0)
	{
		PL pl = db.typeParameters( h[k]);
		bool e = pl.size() == (std::size_t)len[k]; for (int i=0; i<len[k] && e; ++i) e = (bool)(e & (pl[i].type == t[k][i]) & (pl[i].constructor == i+1));
		sx_assert( e, "the parameters of a type are those it was defined with");
	}
	if (exp) sx_reach("found"); else sx_reach("notfound");
	sx_expect("duplicate"); sx_expect("overload"); sx_expect("found"); sx_expect("notfound");
}
// Any history of N definitions of overloads (arg1 signatures), names (arg2), contexts (arg3) in arbitrary nested scopes
extern "C" void h_types()
{
	int N = sx_arg(0), NS = sx_arg(1), NN = sx_arg(2), NC = sx_arg(3);
	TypeDatabase db( 2048);
	const char* names[3] = {"f","g","h"};
	int a = db.defineType( ALL, 0, "A", 0, NOPARAM), b = db.defineType( ALL, 0, "B", 0, NOPARAM);
	int base[3] = {0,a,b};
	sx_assert( a > 0 && b > 0 && a != b, "base types get distinct handles");
	Def d[5]; Sc sc[5];
	for (int i=0; i<N; ++i)
	{
		Def& x = d[i];
		sc[i] = x.sc = anyScope( sc, i);
		x.sig = NS > 1 ? sx_pick( "sig", NS) : 0;
		x.name = NN > 1 ? sx_pick( "name", NN) : 0;
		x.ctx = NC > 1 ? base[ sx_pick( "ctx", NC)] : 0;
		sx_sym( &x.ctor, 4, "ctor"); sx_assume( x.ctor >= 0);
		P par[2] = {P( base[ SIG[x.sig][0]], 5), P( base[ SIG[x.sig][1]], 6)};
		x.handle = db.defineType( Scope( x.sc.s, x.sc.e), x.ctx, names[ x.name], x.ctor, PL( siglen( x.sig), par));
		bool dup = false;
		for (int j=0; j<i; ++j) dup |= same( d[j].sc, x.sc) & (d[j].ctx == x.ctx) & (d[j].name == x.name) & (d[j].sig == x.sig);
		if (dup) { sx_assert( x.handle == -1, "a definition that exists in the scope with the same name, context and parameters is reported as duplicate"); sx_reach("duplicate"); }
		else
		{
			sx_assert( x.handle > 0, "a new definition gets a handle"); sx_reach("defined");
			sx_assert( x.handle != a && x.handle != b, "handles are unique");
			for (int j=0; j<i; ++j) sx_assert( x.handle != d[j].handle, "handles are unique");
		}
	}
	for (int j=0; j<N; ++j) if (d[j].handle > 0)
	{
		Scope ds = db.typeScope( d[j].handle);
		sx_assert( (db.typeConstructor( d[j].handle) == d[j].ctor) & (db.typeContext( d[j].handle) == d[j].ctx) & (ds.start() == d[j].sc.s) & (ds.end() == d[j].sc.e), "constructor, context and scope of a type are those of its definition");
		sx_assert( db.typeName( d[j].handle) == names[ d[j].name] && db.typeParameters( d[j].handle).size() == (std::size_t)siglen( d[j].sig), "name and parameters of a type are those of its definition");
	}
	Def q; sx_sym( &q.sc.s, 4, "qstart"); sx_sym( &q.sc.e, 4, "qend"); sx_assume( (q.sc.s >= 0) & (q.sc.s < q.sc.e));
	q.sig = NS > 1 ? sx_pick( "qsig", NS) : 0; q.name = NN > 1 ? sx_pick( "qname", NN) : 0; q.ctx = NC > 1 ? base[ sx_pick( "qctx", NC)] : 0;
	int par[2] = {base[ SIG[q.sig][0]], base[ SIG[q.sig][1]]};
	int got = db.getType( Scope( q.sc.s, q.sc.e), q.ctx, names[ q.name], TL( siglen( q.sig), par));
	int exp = 0;
	for (int j=0; j<N; ++j) { bool m = same( d[j].sc, q.sc) & (d[j].ctx == q.ctx) & (d[j].name == q.name) & (d[j].sig == q.sig) & (d[j].handle > 0); exp = m ? d[j].handle : exp; }
	sx_assert( got == exp, "a type is found by exactly scope, context, name and parameters, and by nothing else");
	TypeDatabase::ResultBuffer rb;
	auto list = db.getTypes( Scope( q.sc.s, q.sc.e), q.ctx, names[ q.name], rb);
	std::size_t k = 0;
	for (int j=0; j<N; ++j) if (d[j].handle > 0 && d[j].ctx == q.ctx && d[j].name == q.name && same( d[j].sc, q.sc))
	{
		sx_assert( k < list.types.size() && list.types[k] == d[j].handle, "the overloads of a scope are listed completely in the order of their definition");
		++k;
	}
	sx_assert( k == list.types.size(), "no other overloads are listed");
	if (got) sx_reach("found"); else sx_reach("notfound");
	if (k > 1) sx_reach("overloads");
	sx_expect("found"); sx_expect("notfound"); sx_expect("defined"); sx_expect("duplicate"); if (NS > 1) sx_expect("overloads");
}
// aliases: arg0 = 1: the scope of the alias holds an earlier definition
extern "C" void h_alias()
{
	TypeDatabase db( 2048);
	int a = db.defineType( ALL, 0, "A", 0, NOPARAM), b = db.defineType( ALL, 0, "B", 0, NOPARAM);
	Sc sc[3]; int t[2] = {a,b};
	sc[0] = anyScope( sc, 0);
	int w1 = sx_pick( "target", 2);
	int r1 = db.defineTypeAs( Scope( sc[0].s, sc[0].e), 0, "x", t[ w1]);
	sx_assert( r1 == t[w1], "an alias of a name not defined in the scope is the type itself");
	sc[1] = anyScope( sc, 1);
	int w2 = sx_pick( "target", 2);
	int r2 = db.defineTypeAs( Scope( sc[1].s, sc[1].e), 0, "x", t[ w2]);
	if (same( sc[0], sc[1])) { sx_assert( r2 <= 0, "an alias for a name defined in the same scope is a duplicate"); sx_reach("dup"); }
	else { sx_assert( r2 == t[w2], "aliases of one name in different scopes are independent"); sx_reach("two"); }
	int step = anyStep();
	TypeDatabase::ResultBuffer rb;
	auto res = db.resolveType( step, 0, "x", TagMask::matchAll(), rb);
	int exp = -1; Sc best = {0,INF};
	for (int i=0; i<2; ++i) { bool c = holds( sc[i], step) & inside( sc[i], best) & !((i == 1) & same( sc[0], sc[1])); exp = c ? (i ? t[w2] : t[w1]) : exp; best.s = c ? sc[i].s : best.s; best.e = c ? sc[i].e : best.e; }
	if (exp == -1) { sx_assert( res.contextType == -1 && res.items.empty(), "an alias is not visible outside its scope"); sx_reach("invisible"); }
	else { sx_assert( res.contextType == 0 && res.items.size() == 1 && res.items[0] == exp, "resolving the name gives the type the innermost alias refers to"); sx_reach("visible"); }
	sx_expect("dup"); sx_expect("two"); sx_expect("visible"); sx_expect("invisible");
	sx_assert( db.typeName( a) == "A" && db.typeName( b) == "B", "an alias does not change the type");
}
// T03 -- every attribute of a type reported is the one of its definition
static std::string str( const std::pmr::string& s) { return std::string( s.data(), s.size()); }
extern "C" void h_attributes()
{
	int N = sx_arg(0);
	TypeDatabase db( 2048);
	struct { int h, ctx, npar, par[3], pc[3], ctor; Sc sc; char nm[3]; std::string txt; } d[6];
	for (int i=0; i<N; ++i)
	{
		d[i].nm[0] = 'p'+i; d[i].nm[1] = 'a'+(char)sx_pick( "namechar", 2); d[i].nm[2] = 0;
		d[i].ctx = i ? sx_pick( "ctx", i+1) : 0; if (d[i].ctx) d[i].ctx = d[ d[i].ctx-1].h;
		d[i].npar = i ? sx_pick( "nparam", i < 2 ? i+1 : 3) : 0;
		P pl[3];
		for (int k=0; k<d[i].npar; ++k)
		{
			d[i].par[k] = d[ sx_pick( "param", i)].h; sx_sym( &d[i].pc[k], 4, "paramctor");
			pl[k] = P( d[i].par[k], d[i].pc[k]);
		}
		sx_sym( &d[i].ctor, 4, "ctor"); sx_assume( d[i].ctor >= 0);
		d[i].sc = anyScope( 0, 0);
		d[i].h = db.defineType( Scope( d[i].sc.s, d[i].sc.e), d[i].ctx, std::string_view( d[i].nm, 2), d[i].ctor, PL( d[i].npar, pl));
		sx_assert( d[i].h > 0, "a definition of a new name succeeds");
		auto text = [&]( int h) -> std::string { for (int j=0; j<i; ++j) if (d[j].h == h) return d[j].txt; return std::string(); };
		if (d[i].ctx) d[i].txt = text( d[i].ctx) + " ";
		d[i].txt.append( d[i].nm, 2);
		if (d[i].npar) { d[i].txt += "("; for (int k=0; k<d[i].npar; ++k) { if (k) d[i].txt += ","; d[i].txt += text( d[i].par[k]); } d[i].txt += ")"; sx_reach("params"); }
	}
	for (int i=0; i<N; ++i)
	{
		auto nm = db.typeName( d[i].h);
		sx_assert( nm.size() == 2 && nm[0] == d[i].nm[0] && nm[1] == d[i].nm[1], "the name of a type is the name of its definition");
		sx_assert( db.typeContext( d[i].h) == d[i].ctx, "the context type is the one of its definition");
		Scope sc = db.typeScope( d[i].h);
		sx_assert( (sc.start() == d[i].sc.s) & (sc.end() == d[i].sc.e), "the scope of a type is the one of its definition");
		sx_assert( db.typeConstructor( d[i].h) == d[i].ctor, "the constructor of a type is the one of its definition");
		PL pl = db.typeParameters( d[i].h);
		sx_assert( (int)pl.size() == d[i].npar, "the number of parameters is the one of its definition");
		for (int k=0; k<d[i].npar; ++k) sx_assert( (pl[k].type == d[i].par[k]) & (pl[k].constructor == d[i].pc[k]), "the parameters of a type are the ones of its definition in their order");
		TypeDatabase::ResultBuffer rb;
		std::string s = str( db.typeToString( d[i].h, " ", rb));
		sx_assert( s.size() == d[i].txt.size() && 0 == std::memcmp( s.data(), d[i].txt.data(), s.size()), "the text of a type is context, name and parameter list");
	}
	sx_reach("attributes"); sx_expect("attributes"); sx_expect("params");
}
// invalid handles are rejected by every operation; the zero handle is the empty context
extern "C" void h_handles()
{
	TypeDatabase db( 2048);
	int a = db.defineType( ALL, 0, "A", 3, NOPARAM), b = db.defineType( ALL, a, "B", 4, NOPARAM);
	int h = sx_int( "handle", -3, 5);
	bool valid = (h == a) | (h == b);
	TypeDatabase::ResultBuffer rb;
	const Error::Code bad = Error::InvalidHandle;
	int e[16]; int n = 0;
	switch (sx_pick( "operation", 12))
	{
		case 0: e[n++] = errorOf( [&]{ db.typeName( h); }); break;
		case 1: e[n++] = errorOf( [&]{ db.typeContext( h); }); break;
		case 2: e[n++] = errorOf( [&]{ db.typeScope( h); }); break;
		case 3: e[n++] = errorOf( [&]{ db.typeConstructor( h); }); break;
		case 4: e[n++] = errorOf( [&]{ db.typeParameters( h); }); break;
		case 5: e[n++] = errorOf( [&]{ db.typeToString( h, " ", rb); }); break;
		case 6: e[n++] = errorOf( [&]{ db.getType( ALL, h, "B", TL( 0, nullptr)); }); break;
		case 7: e[n++] = errorOf( [&]{ db.getTypes( ALL, h, "B", rb); }); break;
		case 8: e[n++] = errorOf( [&]{ db.resolveType( 1, h, "B", TagMask::matchAll(), rb); }); break;
		case 9: e[n++] = errorOf( [&]{ db.defineType( ALL, h, "C", 0, NOPARAM); }); break;
		case 10: e[n++] = errorOf( [&]{ db.defineReduction( Scope( 0, 10), h, b, 0, 1, 0.5); }); if (h == b) { sx_assert( e[0] == Error::InvalidReductionDefinition, "a reduction of a type to itself is rejected"); return; } break;
		case 11: e[n++] = errorOf( [&]{ db.deriveType( 1, h, a, TagMask::matchAll(), TagMask::matchNothing(), -1, rb); }); break;
	}
	if (valid || h == 0) { sx_assert( e[0] == 0, "a valid handle or the empty context is accepted"); sx_reach("valid"); }
	else { sx_assert( e[0] == bad, "an invalid type handle is rejected with an error"); sx_reach("invalid"); }
	sx_expect("valid"); sx_expect("invalid");
}
// handles that must refer to a type
extern "C" void h_handles_strict()
{
	TypeDatabase db( 2048);
	int a = db.defineType( ALL, 0, "A", 3, NOPARAM), b = db.defineType( ALL, a, "B", 4, NOPARAM);
	int h = sx_int( "handle", -3, 5);
	bool valid = (h == a) | (h == b);
	TypeDatabase::ResultBuffer rb;
	int e = 0;
	switch (sx_pick( "operation", 6))
	{
		case 0: e = errorOf( [&]{ db.defineTypeAs( ALL, 0, "X", h); }); break;
		case 1: e = errorOf( [&]{ db.getReductions( 1, h, TagMask::matchAll(), TagMask::matchNothing(), rb); }); break;
		case 2: e = errorOf( [&]{ db.getReduction( 1, 0, h, TagMask::matchAll()); }); break;
		case 3: e = errorOf( [&]{ db.deriveType( 1, a, h, TagMask::matchAll(), TagMask::matchNothing(), -1, rb); }); break;
		case 4: e = errorOf( [&]{ db.defineReduction( Scope( 0, 10), 0, h, 0, 1, 0.5); }); break;
		case 5: { int c = sx_int( "ctor", -3, 3); e = errorOf( [&]{ db.defineType( ALL, 0, "D", c, NOPARAM); }); sx_assert( (e == 0) == (c >= 0), "a negative constructor handle is rejected"); return; }
	}
	if (valid) { sx_assert( e == 0, "a valid handle is accepted"); sx_reach("valid"); }
	else { sx_assert( e == Error::InvalidHandle, "an invalid type handle is rejected with an error"); sx_reach("invalid"); }
	sx_expect("valid"); sx_expect("invalid");
}
