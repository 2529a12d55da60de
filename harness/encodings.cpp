#include "sx.h"
#include "automaton.hpp"
#include "automaton_structs.hpp"
#include "error.hpp"
#include <string>
using namespace mewa;
typedef Automaton A;
// The packed 32 bit forms written into the generated compiler are read back as the same table entries
extern "C" void h_packed()
{
	int st = sx_int( "state", 0, A::MaxState-1), te = sx_int( "terminal", 0, A::MaxTerminal-1), nt = sx_int( "nonterminal", 0, A::MaxNonterminal-1);
	int call = sx_int( "call", 0, A::MaxCall-1), cnt = sx_int( "count", 0, A::MaxProductionLength-1), sc = sx_int( "scope", 0, 2), ty = sx_int( "type", 0, 2);
	int pr = sx_int( "prod", 0, A::MaxNofProductions-1), pv = sx_int( "prio", 0, A::MaxPriority-1), pa = sx_int( "assoc", 0, 2);
	A::Action::ScopeFlag sf = (A::Action::ScopeFlag)sc;
	A::Action a = ty == 0 ? A::Action::shift( st) : ty == 1 ? A::Action::reduce( nt, sf, call, cnt) : A::Action::accept( nt, sf, call, cnt);
	A::Action b = A::Action::unpack( a.packed());
	sx_assert( a == b && !(a != b), "an action is read back as written");
	sx_assert( (int)b.type() == ty, "an action keeps its kind");
	if (ty == 0) { sx_assert( b.state() == st && b.call() == 0 && b.count() == 0 && b.scopeflag() == A::Action::NoScope, "a shift keeps its state"); }
	else { sx_assert( b.nonterminal() == nt && b.call() == call && b.count() == cnt && b.scopeflag() == sf, "a reduction keeps its rule"); }
	A::ActionKey k( st, te), k2 = A::ActionKey::unpack( k.packed());
	sx_assert( k == k2 && k2.state() == st && k2.terminal() == te, "a key of the action table is read back as written");
	A::GotoKey gk( st, nt), gk2 = A::GotoKey::unpack( gk.packed());
	sx_assert( gk == gk2 && gk2.state() == st && gk2.nonterminal() == nt, "a key of the goto table is read back as written");
	A::Goto g( st), g2 = A::Goto::unpack( g.packed());
	sx_assert( g == g2 && g2.state() == st, "a state of the goto table is read back as written");
	TransitionItem ti( pr, cnt, te), ti2 = TransitionItem::unpack( ti.packed());
	sx_assert( ti == ti2 && ti2.prodindex == pr && ti2.prodpos == cnt && ti2.follow == te, "an item of a state is read back as written");
	Priority p( pv, (Assoziativity)pa), p2 = Priority::unpack( p.packed());
	sx_assert( p == p2 && p2.value == pv && (int)p2.assoziativity == pa, "a priority is read back as written");
	// order and equality of keys: total orders consistent with equality
	int st2 = sx_int( "state2", 0, A::MaxState-1), te2 = sx_int( "terminal2", 0, A::MaxTerminal-1);
	A::ActionKey q( st2, te2);
	bool same = st == st2 && te == te2;
	sx_assert( (k == q) == same && (k != q) == !same && (k < q) + (q < k) == !same, "keys are ordered totally");
	sx_assert( (k.packed() == q.packed()) == same, "different keys have different packed forms");
	sx_reach("packed"); sx_expect("packed");
}
// Grammars at the documented limits: accepted below, refused at the limit; arg0 which limit
extern "C" void h_limits()
{
	int which = sx_arg(0), n = 0; std::string s = "S = X; X = "; bool ok = true; Error::Code code = Error::Ok;
	if (which == 0) { n = sx_pick( "n", 20); for (int i=0; i<n; ++i) s += "\"a\" "; s += n ? ";" : "ε;"; ok = n < A::MaxProductionLength; code = Error::ComplexityMaxProductionLengthInGrammarDef; }
	if (which == 1) { n = 252 + sx_pick( "n", 6); s += "X1"; for (int i=1; i<=n; ++i) { s += "; X" + std::to_string(i) + " = \"a\""; if (i < n) s += " X" + std::to_string(i+1); } s += ";"; ok = n+2 < A::MaxNonterminal; code = Error::ComplexityMaxNonterminalInGrammarDef; }
	if (which == 2) { n = sx_int( "n", 0, 70000); char d[6]; int m = n; for (int i=4; i>=0; --i) { d[i] = '0' + m % 10; m /= 10; } d[5] = 0; s = "S = X; X/L"; s += d; s += " = \"a\";"; ok = n < A::MaxPriority; code = Error::ComplexityMaxProductionPriorityInGrammarDef; }
	if (which == 3) { n = 508 + sx_pick( "n", 5); s += "\"a0\""; for (int i=1; i<=n; ++i) s += " | \"a" + std::to_string(i) + "\""; s += ";"; ok = n+2 < A::MaxNofProductions; code = Error::ComplexityMaxStateInGrammarDef; }
	Automaton atm; std::vector<Error> warnings; Error::Code got = Error::Ok;
	try { atm.build( s, warnings); } catch (const Error& e) { got = e.code(); }
	sx_assert( got == (ok ? Error::Ok : code), "a grammar is refused exactly if it exceeds a limit");
	if (ok) sx_reach("within"); else sx_reach("beyond");
	sx_expect("within"); sx_expect("beyond");
	if (ok && which == 0)
	{
		bool found = false;
		for (auto& a : atm.actions()) if (a.second.type() == Automaton::Action::Reduce && a.second.nonterminal() == 2) { found = true; sx_assert( a.second.count() == n, "a reduction takes as many symbols as the rule has"); }
		sx_assert( found, "a rule can be reduced");
	}
}
