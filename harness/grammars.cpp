#include "sx.h"
#include "automaton.hpp"
#include "error.hpp"
#include <cstring>
#include <string>
using namespace mewa;
// Grammars with open positions: upper case nonterminals (the first is the start symbol), lower case terminals, '?' a symbol of the alphabet or nothing,
// '!' a priority of the list or none
static const char* SKEL[] = {
 /*0*/ "S=X;X=??|??;",
 /*1*/ "S=X;X=???|?;",
 /*2*/ "S=X;X=??|?;Y=?|?;",
 /*3*/ "S=X?;X=Y?|?;Y=?|?;",
 /*4*/ "S=XY;X=?|?;Y=??|?;",
 /*5*/ "S=X;X=bX?|??|?;",
 /*6*/ "S=X;X!=X?X;X!=X?X;X=a|??;",
 /*7*/ "S=X;X!=?X;X!=X?X;X=a;",
 /*8*/ "S=X;X!=aX;X!=aXbX;X=c;",
 /*9*/ "S=X;X!=Xb|??;X!=?X;X=a;",
 /*10*/ "S=X;X=?Ya|?Yb|?Za|?Zb;Y=c;Z=c;",
 /*11*/ "S=XY?;X=?|?;Y=?Y?|?;",
 /*12*/ "S!=X;X!=X?|a;Y!=?|?;",
 /*13*/ "S=X?;X=bX?|??|;",
 /*14*/ "S=X?;X!=bX?|b?|;",
 /*15*/ "S=X;X!=XaX;X!=XbX;X!=?X?|c;",
 /*16*/ "S=A?;C=D;B=C?;A=B;D=?|?;",
 /*17*/ "S=XY?;X=?;Y=?Z|?;Z=W?;W=?;",
 /*18*/ "S=A?;A=B;B=C;C=D;D=E;E=F;F=?|?;",
 /*19*/ "S=A?;F=?|?;E=F;D=E;C=D;B=C;A=B;",
 /*20*/ "S=E;E=E+T|T;T=T?F|F;F=aEb|c|??;",
 /*21*/ "S=ABCDE;A=a|;B=b?|?;C=c|;D=d?|;E=e|?;",
 /*22*/ "S=X;X!=X+X|X-X;X!=X?X|cX;X!=XdX;X=a;",
};
static const char* ALPH[] = {"abX.","abXY.","ab.","abcX","abc","aY.","abXYZ."};
static const char* PRIO[] = {"","/L1","/R1","/L2","/R2","/1","/L0"};
enum { MaxP=16, MaxR=8, MaxN=8, MaxT=6, MaxS=64, MaxI=64 };
struct Prod { int left, len, rhs[MaxR], pv, pa; };	// rhs: >= 0 nonterminal, < 0 terminal -1-t
struct Grammar
{
	Prod p[MaxP]; int np = 0, nn = 0, nt = 0; char nts[MaxN], ts[MaxT];
	int nonterm( char c) { for (int i=0; i<nn; ++i) if (nts[i] == c) return i; nts[nn] = c; return nn++; }
	int term( char c) { for (int i=0; i<nt; ++i) if (ts[i] == c) return i; ts[nt] = c; return nt++; }
};
static Grammar g; static std::string text;
static void makeGrammar( const char* sk, const char* alph, int nofprio)
{
	// nonterminals get their numbers in order of their definition
	for (const char* s = sk; *s; ++s) if ((*s == '=' || *s == '!') && s[-1] >= 'A' && s[-1] <= 'Z') g.nonterm( s[-1]);
	int left = 0, pv = 0, pa = 0; Prod* p = nullptr;
	auto open = [&]() { p = &g.p[ g.np++]; p->left = left; p->len = 0; p->pv = pv; p->pa = pa; };
	int na = std::strlen( alph);
	for (const char* s = sk; *s; ++s)
	{
		if (p)
		{
			char c = *s;
			if (c == '?') { c = alph[ sx_pick( "sym", na)]; if (c == '.') continue; }
			if (c == ';' || c == '|')
			{
				// every rule has its own function, some have a scope attribute
				int k = g.np-1; if (!p->len) text += "ε";
				text += k % 3 == 1 ? "({}c" : k % 3 == 2 ? "(>>c" : "(c"; text.push_back( 'a'+k); text.push_back( ')'); text.push_back( c); if (c == '|') open(); else p = nullptr;
			}
			else if (c >= 'A' && c <= 'Z') { text.push_back( c); text.push_back( ' '); p->rhs[ p->len++] = g.nonterm( c); }
			else { text.push_back( '"'); text.push_back( c); text.push_back( '"'); p->rhs[ p->len++] = -1-g.term( c); }
		}
		else if (*s == '!')
		{
			const char* pr = PRIO[ sx_pick( "prio", nofprio)];
			text += pr; pv = pa = 0;
			if (pr[0]) { if (pr[1] == 'L') { pa = 1; ++pr; } else if (pr[1] == 'R') { pa = 2; ++pr; } pv = pr[1]-'0'; }
		}
		else if (*s == '=') { text.push_back( '='); open(); }
		else { left = g.nonterm( *s); pv = pa = 0; text.push_back( *s); }
	}
}
// LALR(1) automaton by definition: LR(0) automaton and FOLLOW of its nonterminal transitions
typedef unsigned long long Mask;
struct Lalr
{
	Mask kernel[MaxS]; int ns = 0; int go[MaxS][MaxN+MaxT]; int base[MaxP]; Mask follow[MaxS][MaxN]; bool nullable[MaxN]; unsigned first[MaxN];
	unsigned reduce[2][MaxS][MaxP];	// terminals, bit nt is the end; [1] with the FOLLOW sets documented as known finding
	int sym( int x) { return x >= 0 ? x : MaxN-1-x; }
	Mask closure( Mask m)
	{
		for (bool ch = true; ch; )
		{
			ch = false;
			for (int p=0; p<g.np; ++p) for (int k=0; k<g.p[p].len; ++k) if ((m >> (base[p]+k)) & 1)
			{
				int x = g.p[p].rhs[k];
				if (x >= 0) for (int q=0; q<g.np; ++q) if (g.p[q].left == x && !((m >> base[q]) & 1)) { m |= (Mask)1 << base[q]; ch = true; }
			}
		}
		return m;
	}
	Mask goTo( Mask cl, int x)
	{
		Mask rt = 0;
		for (int p=0; p<g.np; ++p) for (int k=0; k<g.p[p].len; ++k) if (g.p[p].rhs[k] == x && ((cl >> (base[p]+k)) & 1)) rt |= (Mask)1 << (base[p]+k+1);
		return rt;
	}
	bool build()
	{
		int b = 0; for (int p=0; p<g.np; ++p) { base[p] = b; b += g.p[p].len+1; }
		if (b > MaxI) return false;
		for (int n=0; n<g.nn; ++n) { nullable[n] = false; first[n] = 0; }
		for (bool ch = true; ch; )
		{
			ch = false;
			for (int p=0; p<g.np; ++p)
			{
				unsigned f = first[ g.p[p].left]; int k = 0;
				for (; k<g.p[p].len; ++k) { int x = g.p[p].rhs[k]; if (x < 0) { f |= 1u << (-1-x); break; } f |= first[x]; if (!nullable[x]) break; }
				if (k == g.p[p].len && !nullable[ g.p[p].left]) { nullable[ g.p[p].left] = true; ch = true; }
				if (f != first[ g.p[p].left]) { first[ g.p[p].left] = f; ch = true; }
			}
		}
		kernel[0] = (Mask)1 << base[0]; ns = 1;
		for (int s=0; s<ns; ++s)
		{
			Mask cl = closure( kernel[s]);
			for (int i=0; i<g.nn+g.nt; ++i)
			{
				int x = i < g.nn ? i : -1-(i-g.nn);
				Mask k = goTo( cl, x); int t = -1;
				if (k) { for (t=0; t<ns && kernel[t] != k; ++t){} if (t == ns) { if (ns == MaxS) return false; kernel[ns++] = k; } }
				go[s][sym( x)] = t;
			}
			for (int n=0; n<g.nn; ++n) follow[s][n] = 0;
		}
		follow[0][0] = 1u << g.nt;
		for (bool ch = true; ch; )
		{
			ch = false;
			for (int s=0; s<ns; ++s)
			{
				Mask cl = closure( kernel[s]);
				for (int p=0; p<g.np; ++p) if ((cl >> base[p]) & 1)
				{
					int q = s;
					for (int k=0; k<g.p[p].len; ++k)
					{
						int x = g.p[p].rhs[k];
						if (x >= 0)
						{
							Mask f = follow[q][x]; int j = k+1;
							for (; j<g.p[p].len; ++j) { int y = g.p[p].rhs[j]; if (y < 0) { f |= 1u << (-1-y); break; } f |= first[y]; if (!nullable[y]) break; }
							if (j == g.p[p].len) f |= follow[s][ g.p[p].left];
							if (f != follow[q][x]) { follow[q][x] = f; ch = true; }
						}
						q = go[q][sym( x)];
					}
				}
			}
		}
		for (int m=0; m<2; ++m) for (int s=0; s<ns; ++s) for (int p=0; p<g.np; ++p) reduce[m][s][p] = 0;
		for (int s=0; s<ns; ++s)
		{
			Mask cl = closure( kernel[s]);
			for (int p=0; p<g.np; ++p) if ((cl >> base[p]) & 1)
			{
				int q = s; for (int k=0; k<g.p[p].len; ++k) q = go[q][sym( g.p[p].rhs[k])];
				reduce[0][q][p] |= follow[s][ g.p[p].left];
			}
		}
		wide();
		return true;
	}
	// FOLLOW sets as computed by the program: one set for all items of a state with the same left side, the end counted as beginning of an empty word
	void wide()
	{
		static unsigned f[MaxS][MaxN]; for (int s=0; s<ns; ++s) for (int n=0; n<g.nn; ++n) f[s][n] = 0;
		f[0][0] = 1u << g.nt;
		for (bool ch = true; ch; )
		{
			ch = false;
			for (int s=0; s<ns; ++s)
			{
				Mask cl = closure( kernel[s]);
				for (int p=0; p<g.np; ++p) for (int k=0; k<g.p[p].len; ++k) if ((cl >> (base[p]+k)) & 1)
				{
					int x = g.p[p].rhs[k], to = go[s][sym( x)];
					if (f[to][g.p[p].left] != (f[to][g.p[p].left] | f[s][g.p[p].left])) { f[to][g.p[p].left] |= f[s][g.p[p].left]; ch = true; }
					if (x < 0) continue;
					unsigned m = f[s][x]; int j = k+1;
					for (; j<g.p[p].len; ++j)
					{
						int y = g.p[p].rhs[j]; if (y < 0) { m |= 1u << (-1-y); break; }
						m |= first[y]; if (!nullable[y]) break; m |= 1u << g.nt;
					}
					if (j == g.p[p].len) m |= f[s][g.p[p].left];
					if (m != f[s][x]) { f[s][x] = m; ch = true; }
				}
			}
		}
		for (int s=0; s<ns; ++s)
		{
			Mask cl = closure( kernel[s]);
			for (int p=0; p<g.np; ++p) if ((cl >> (base[p]+g.p[p].len)) & 1) reduce[1][s][p] = f[s][g.p[p].left];
		}
	}
	// action on terminal t: -1 none, -2 conflict, -3 shift, >= 0 reduce; undecided if the order of several resolutions matters
	int action( int m, int s, int t, bool& undecided)
	{
		int rt = -1, nr = 0, red = -1; bool shift = t < g.nt && go[s][sym( -1-t)] >= 0;
		for (int p=0; p<g.np; ++p) if ((reduce[m][s][p] >> t) & 1) { ++nr; red = p; }
		if (!shift) return nr == 0 ? -1 : nr == 1 ? red : -2;
		int pv = -1, pa = 0; Mask cl = closure( kernel[s]);
		for (int p=0; p<g.np; ++p) for (int k=0; k<g.p[p].len; ++k) if (g.p[p].rhs[k] == -1-t && ((cl >> (base[p]+k)) & 1))
		{
			if (pv == -1) { pv = g.p[p].pv; pa = g.p[p].pa; }
			else if (pv != g.p[p].pv || pa != g.p[p].pa) return -2; // priorities of shift actions inconsistent
		}
		if (nr == 0) return -3;
		if (nr > 1) { if (pv || pa) undecided = true; return -2; }
		bool sdef = pv || pa, rdef = g.p[red].pv || g.p[red].pa;
		if (!sdef || !rdef) return -2;
		if (pv != g.p[red].pv) return pv > g.p[red].pv ? -3 : red;
		if (pa == 0 || pa != g.p[red].pa) return -2;
		return pa == 1 ? red : -3;
	}
};
static Lalr la;
// set of words by definition: membership of every part of the text in every nonterminal, by dynamic programming
template <int N> static bool derives( const unsigned char* tok, int L)
{
	static unsigned char d[MaxN][N+1][N+1];
	for (int n=0; n<g.nn; ++n) for (int i=0; i<=L; ++i) for (int j=0; j<=L; ++j) d[n][i][j] = 0;
	for (int w=0; w<=L; ++w) for (int i=0; i+w<=L; ++i) for (int it=0; it<g.nn; ++it) for (int p=0; p<g.np; ++p)
	{
		unsigned char m[N+1]; for (int k=0; k<=w; ++k) m[k] = 0; m[0] = 1;
		for (int r=0; r<g.p[p].len; ++r)
		{
			unsigned char mm[N+1]; for (int k=0; k<=w; ++k) mm[k] = 0;
			int x = g.p[p].rhs[r];
			for (int a=0; a<=w; ++a)
			{
				if (x < 0) { if (a < w) mm[a+1] |= m[a] & (tok[i+a] == (-1-x)); }
				else for (int b=a; b<=w; ++b) mm[b] |= m[a] & d[x][i+a][i+b];
			}
			for (int k=0; k<=w; ++k) m[k] = mm[k];
		}
		d[ g.p[p].left][i][i+w] |= m[w];
	}
	return d[0][0][L];
}
// arg0 skeleton, arg1 alphabet, arg2 number of priorities, arg3 maximal length of the text
extern "C" void h_lalr()
{
	int LMAX = sx_arg(3);
	makeGrammar( SKEL[ sx_arg(0)], ALPH[ sx_arg(1)], sx_arg(2));
	bool used[MaxN] = {}; bool dup = false;
	for (int p=0; p<g.np; ++p) for (int k=0; k<g.p[p].len; ++k) if (g.p[p].rhs[k] >= 0) used[ g.p[p].rhs[k]] = true;
	for (int p=0; p<g.np; ++p) for (int q=0; q<p; ++q)
	{
		bool eq = g.p[p].left == g.p[q].left && g.p[p].len == g.p[q].len && g.p[p].pv == g.p[q].pv && g.p[p].pa == g.p[q].pa;
		for (int k=0; eq && k<g.p[p].len; ++k) eq = g.p[p].rhs[k] == g.p[q].rhs[k];
		dup |= eq;
	}
	bool unused = false; for (int n=1; n<g.nn; ++n) unused |= !used[n];
	int nofstart = 0; for (int p=0; p<g.np; ++p) nofstart += g.p[p].left == 0;
	std::vector<Error> warnings; Automaton atm;
	try { atm.build( text, warnings); }
	catch (const Error& e)
	{
		sx_assert( (unused && e.code() == Error::UnreachableNonTerminalInGrammarDef) || (dup && e.code() == Error::DuplicateProductionInGrammarDef)
			|| (nofstart > 1 && e.code() == Error::StartSymbolDefinedTwiceInGrammarDef), "a valid grammar is accepted");
		sx_reach("refused"); return;
	}
	sx_assert( !unused && !dup && nofstart == 1, "an unreachable or repeated rule is refused");
	if (!la.build()) return;
	bool conflict = false, wideconflict = false, undecided = false;
	for (int s=0; s<la.ns; ++s) for (int t=0; t<=g.nt; ++t)
	{
		conflict |= la.action( 0, s, t, undecided) == -2; wideconflict |= la.action( 1, s, t, undecided) == -2;
	}
	if (undecided) return;
	if (conflict) { sx_reach("conflict"); sx_assert( !warnings.empty(), "a conflict of an LALR(1) automaton that priorities do not resolve is reported"); return; }
	if (!warnings.empty())
	{
		sx_assert( wideconflict, "a grammar that is LALR(1) or gets it by priorities has no conflicts");
		sx_assert( !wideconflict, "FOLLOW: a conflict is reported for a terminal that cannot follow");
		return;
	}
	sx_reach("grammar");
	int tid[MaxT+1]; for (int t=0; t<g.nt; ++t) { char nm[2] = {g.ts[t],0}; tid[t] = atm.lexer().lexemId( nm); sx_assert( tid[t] > 0, "terminals have a number"); }
	tid[ g.nt] = 0;
	for (int t=0; t<g.nt; ++t)
	{
		char nm[4] = {' ',g.ts[t],' ',0}; Scanner scanner( std::string_view( nm, 3)); Lexem lx = atm.lexer().next( scanner);
		sx_assert( lx.id() == tid[t] && lx.value().size() == 1 && lx.value()[0] == g.ts[t] && atm.lexer().next( scanner).empty(), "the lexer of the automaton knows the terminals");
	}
	for (int n=0; n<g.nn; ++n) sx_assert( atm.nonterminal( n+1).size() == 1 && atm.nonterminal( n+1)[0] == g.nts[n], "nonterminals are numbered in order of definition");
	int L = sx_pick( "len", LMAX+1); if (L && !g.nt) return;
	unsigned char tok[8]; for (int i=0; i<L; ++i) { sx_sym( tok+i, 1, "t"); sx_assume( tok[i] < g.nt); }
	int st[64], os[64], sy[64], sp = 0, pos = 0; bool accept = false, have = false; st[0] = 1; os[0] = 0; sy[0] = 0;
	for (int step=0;; ++step)
	{
		sx_assert( step < 60, "parsing terminates"); if (step >= 60) return;
		if (pos < L && !have) { tok[pos] = (unsigned char)sx_concretize( tok[pos]); have = true; }
		int t = pos < L ? tok[pos] : g.nt;
		int want = la.action( 0, os[sp], t, undecided), wide = la.action( 1, os[sp], t, undecided);
		auto ai = atm.actions().find( Automaton::ActionKey( st[sp], tid[t])); int got = -1;
		if (ai != atm.actions().end())
		{
			const Automaton::Action& a = ai->second;
			if (a.type() == Automaton::Action::Shift) got = -3;
			else
			{
				int q = -1;
				for (int p=0; p<g.np && q<0; ++p) if (g.p[p].left+1 == a.nonterminal() && g.p[p].len == a.count() && sp >= a.count() && (a.type() == Automaton::Action::Accept) == (p == 0))
				{
					bool eq = true; for (int k=0; k<g.p[p].len; ++k) eq &= sy[ sp-g.p[p].len+1+k] == g.p[p].rhs[k];
					if (eq && a.call() > 0 && a.call() <= (int)atm.calls().size() && atm.calls()[ a.call()-1].function() == std::string("c") + (char)('a'+p)) q = p;
				}
				sx_assert( q >= 0, "a reduction replaces the right side of a rule by its left side"); if (q < 0) return;
				sx_assert( a.scopeflag() == (q % 3 == 1 ? Automaton::Action::Scope : q % 3 == 2 ? Automaton::Action::Step : Automaton::Action::NoScope), "a reduction has the scope attribute of its rule");
				got = q;
			}
		}
		if (want != -1 && got != want)
		{
			sx_assert( got == wide, "the action is the one of the LALR(1) automaton with conflicts resolved by priority");
			sx_assert( got != wide, "FOLLOW: a priority resolves a conflict with a terminal that cannot follow"); return;
		}
		if (got == -1) break;
		if (got == -3)
		{
			sx_assert( want == -3, "an erroneous terminal is not read"); if (want != -3) return;
			sy[sp+1] = -1-t; os[sp+1] = la.go[ os[sp]][la.sym( -1-t)]; st[++sp] = ai->second.state(); ++pos; have = false;
		}
		else
		{
			const Automaton::Action& a = ai->second;
			if (a.type() == Automaton::Action::Accept) { sx_assert( want == 0 && sp == a.count() && pos == L, "the whole text is accepted"); accept = true; break; }
			sp -= a.count();
			auto gi = atm.gotos().find( Automaton::GotoKey( st[sp], a.nonterminal()));
			sx_assert( gi != atm.gotos().end(), "a state follows every reduction"); if (gi == atm.gotos().end()) return;
			sy[sp+1] = g.p[got].left; os[sp+1] = la.go[ os[sp]][ la.sym( g.p[got].left)]; st[++sp] = gi->second.state();
			if (want == -1) sx_reach("late");
		}
	}
	if (sx_arg(2) <= 1) { sx_assert( derives<6>( tok, L) == accept, "a text is accepted exactly if it is a word of the grammar"); }
	if (accept) sx_reach("accept"); else sx_reach("reject");
	sx_expect("grammar"); sx_expect("conflict"); sx_expect("accept"); sx_expect("reject");
}
