#include "luatext.hpp"
#include "automaton.hpp"
#include "lexer.hpp"
#include "error.hpp"
#include "lua_load_automaton.hpp"
#include <vector>
#include <memory>
using namespace mewa;
extern "C" void lm_order( lua_State* L, int order) __attribute__((weak));
static Automaton au, au2; static lua_State* L; static bool loaded; static std::string loaderr;
static int load( lua_State* ls)
{
	int top = lua_gettop( ls);
	try { au2 = luaLoadAutomaton( ls, 1); loaded = true; }
	catch (const Error& e) { loaderr = e.what(); } catch (const std::runtime_error& e) { loaderr = e.what(); }
	if (loaded) sx_assert( lua_gettop( ls) == top, "nothing is left on the Lua stack by the loader");
	return 0;
}
static void image()
{
	std::string text = au.tostring();
	L = luaL_newstate(); LuaText rd( text, L);
	bool ok = rd.all(); sx_assert( ok, rd.err ? rd.err : "the automaton is printed as a table of Lua"); if (!ok) return;
	lua_pushcclosure( L, load, 0); lua_insert( L, 1); if (lm_order) lm_order( L, sx_pick( "order", sx_arg(0)));
	int rc = lua_pcall( L, 1, 0, 0); sx_assert( rc == 0, "loading does not fail in the Lua API");
	sx_assert( loaded, "the automaton printed can be loaded");
}
static void sameTables()
{
	sx_assert( au.language() == au2.language() && au.typesystem() == au2.typesystem() && au.cmdline() == au2.cmdline(), "the names of a grammar are kept");
	sx_assert( au.nonterminals() == au2.nonterminals(), "the nonterminals are kept");
	bool same = au.actions().size() == au2.actions().size(); 
	for (auto i = au.actions().begin(), j = au2.actions().begin(); same && i != au.actions().end(); ++i, ++j) same = i->first == j->first && i->second == j->second;
	sx_assert( same, "the actions are kept");
	same = au.gotos().size() == au2.gotos().size();
	for (auto i = au.gotos().begin(), j = au2.gotos().begin(); same && i != au.gotos().end(); ++i, ++j) same = i->first == j->first && i->second == j->second;
	sx_assert( same, "the gotos are kept");
	sx_assert( au.calls().size() == au2.calls().size(), "the calls are kept");
	for (std::size_t i=0; i<au.calls().size(); ++i)
	{
		const Automaton::Call& a = au.calls()[i]; const Automaton::Call& b = au2.calls()[i];
		sx_assert( a.function() == b.function() && a.arg() == b.arg() && a.argtype() == b.argtype(), "functions and arguments are kept"); sx_reach("call");
	}
}
static void sameLexers( const char* chars, int n)
{
	const Lexer& a = au.lexer(); const Lexer& b = au2.lexer();
	std::vector<Lexer::Definition> da = a.getDefinitions(), db = b.getDefinitions();
	sx_assert( da.size() == db.size(), "the definitions of the lexer are kept"); int ids = 0;
	for (auto const& d : da) if ((d.type() == Lexer::Definition::NamedPatternLexem || d.type() == Lexer::Definition::KeywordLexem) && d.id() > ids) ids = d.id();
	for (int id=1; id<=ids; ++id) { sx_assert( a.lexemName( id) == b.lexemName( id) && a.isKeyword( id) == b.isKeyword( id), "the numbers of tokens are kept"); sx_reach("token"); }
	if (!n) return;
	char src[16]; int nc = std::strlen( chars); (void)nc;
	for (int i=0; i<n; ++i) { sx_sym( src+i, 1, "c"); bool ok = false; for (const char* c = chars; *c; ++c) ok |= src[i] == *c; sx_assume( ok); } src[n] = 0;
	Scanner sa( std::string_view( src, n)), sb( std::string_view( src, n));
	for (int i=0; i<3*n+4; ++i)
	{
		Lexem x = a.next( sa), y = b.next( sb);
		sx_assert( x.id() == y.id() && x.line() == y.line() && x.name() == y.name() && x.value() == y.value(), "a text is split the same way by the lexer loaded");
		if (x.empty() || x.id() <= 0) break;
		sx_reach("same token");
	}
}
// Preconditions on strings handed over to Lua: members have names, escape sequences in arguments are escape sequences of Lua
static void forLua()
{
	for (auto const& c : au.calls())
	{
		const std::string& a = c.arg();
		if (c.argtype() == Automaton::Call::StringArg) { for (std::size_t i=0; i<a.size(); ++i) if (a[i] == '\\') { ++i; sx_assume( i < a.size() && std::strchr( "abfnrtv\\\"'", a[i]) && a[i]); } }
		for (const std::string* n : {&c.function(), &a})
		{
			if (n == &a && (a.empty() || c.argtype() == Automaton::Call::StringArg || LuaText::di( a[0]) || a[0] == '{' || (a[0] == '-' && a.size() > 1 && LuaText::di( a[1])))) continue;
			bool start = true; for (char ch : *n) { if (ch == '.') { sx_assume( !start); start = true; } else { sx_assume( LuaText::al( ch) || (!start && LuaText::di( ch))); start = false; } } sx_assume( !start);
		}
	}
}
static bool build( const std::string& text) { std::vector<Error> w; try { au.build( text, w); return w.empty(); } catch (const Error&) { return false; } catch (const std::runtime_error&) { return false; } }
struct Frame { const char* pre; const char* post; };
static const Frame FR[] = {
 /*0*/ {"S=\"",";"}, /*1*/ {"S='",";"}, /*2*/ {"S='a'(f \"",");"}, /*3*/ {"S='a'(f '",");"}, /*4*/ {"S='a'(",");"},
 /*5*/ {"%LANGUAGE \"",";S='a';"}, /*6*/ {"%TYPESYSTEM '",";S='a';"}, /*7*/ {"%CMDLINE \"",";S='a';"}, /*8*/ {"%BAD '",";S='a';"},
 /*9*/ {"%COMMENT '",";S='a';"}, /*10*/ {"A:'",";S=A;"}, /*11*/ {"%IGNORE \"",";S='a';"}, /*12*/ {"S='a'(f {","});"},
};
static const char* ALPH[] = {nullptr,"\\a","\\'\"an","f x.1","=,1a\"","0a[]\\"};
// arg0 orders, arg1 frame, arg2 number of characters, arg3 alphabet (0: every byte)
extern "C" void h_strings()
{
	char c[8]; int n = sx_arg(2); const Frame& f = FR[ sx_arg(1)]; std::string text( f.pre);
	for (int i=0; i<n; ++i) { sx_sym( c+i, 1, "c"); if (const char* al = ALPH[ sx_arg(3)]) { bool ok = false; for (const char* a = al; *a; ++a) ok |= c[i] == *a; sx_assume( ok); } else sx_assume( c[i] != 0); }
	text.append( c, n); char q = text[ std::strlen( f.pre)-1]; if (q == '"' || q == '\'') text += q; text += f.post;
	if (!build( text)) { sx_reach("refused"); return; }
	forLua(); image(); if (!loaded) return; sameTables(); sameLexers( "", 0); sx_reach("image"); sx_expect("image");
}
struct Item { const char* text; bool late; };
static const char* DEFS[] = {"A:'[ab]+';","B:'[bc]+' ;","C:'x([yz]*)' 1;","IGNORE","%IGNORE '[bz]+';","%COMMENT '#';","%COMMENT 'x' 'z';","%COMMENT 'xx';","%BAD 'Err';","%IGNORE 'cc';","%BAD 'x y';"};
static const int POOL[][6] = {{0,1,4,8,6,9},{2,5,6,7,4,0},{1,4,0,9,10,2}};
// arg1 pool, arg2 number of definitions, arg3 length of the text, arg4 position of the rules (pick below)
extern "C" void h_definitions()
{
	int n = sx_arg(2), rules = sx_pick( "rules", sx_arg(4)); bool used[6] = {}; std::string text; bool a = false, b = false, c = false;
	std::vector<int> defs;
	for (int i=0; i<n; ++i) { int k = sx_pick( "def", 6); sx_assume( !used[k]); used[k] = true; int d = POOL[ sx_arg(1)][k]; if (d == 3) sx_assume( false); defs.push_back( d); a |= d == 0; b |= d == 1; c |= d == 2; }
	std::string prod = "S=X;X='b'|'yz'"; if (a) prod += "|A"; if (b) prod += "|B"; if (c) prod += "|C"; prod += ";";
	for (int i=0; i<n; ++i) { if (rules == i+1) text += prod; text += DEFS[ defs[i]]; } if (!rules) text += prod;
	if (!build( text)) { sx_reach("refused"); return; }
	image(); if (!loaded) return; sameTables(); sameLexers( "abcxyz#\n", sx_arg(3)); sx_reach("image"); sx_expect("image");
}
static const char* BODY[] = {"S=P;P=Q P|Q;Q=N 'f' A I L E;L=T L|T;T=N 'b' A|N 'i' A I L E;","S=Q;Q=Q N A(f)|Q I(h 'u')|Q E(>>g x)|;","S=Q;Q=A N Q E(f)|I 'b' ({}f)|'x'(>>f 12);"};
static const char* FIRST[] = {"","A:'[a-z]';","B:'[x]';A:'[a-z]';"};
// indentation tokens: arg1 body, arg2 length of the text
extern "C" void h_indentl()
{
	std::string tok = FIRST[ sx_pick( "first", 3)], ind = sx_pick( "tab", 2) ? "%INDENTL I E N 4;" : "%INDENTL I E N 1;"; if (tok[0] == 'B') tok += "%IGNORE 'y';";
	std::string body = BODY[ sx_arg(1)]; 
	if (!build( (sx_pick( "late", 2) ? tok + ind : ind + tok) + body)) { sx_reach("refused"); return; }
	image(); if (!loaded) return; sameTables(); sameLexers( "abx \n", sx_arg(2)); sx_reach("image");
}
static const char* SKEL[] = {
 "S=L@;L=L 'e'@|;", "S=X@;X=X 'i' Y@|Y@;Y='j'@|;", "S=P Q@;P='i'@;Q='j' R@;R='i'@|R ',' 'i'@;", "S=E@;E/L1=E '+' E@;E/R2=E '*' E@;E='i'@|'(' E ')'@;",
};
static const char* ATTR[] = {"","(c)","({}d)","(>>e)","(>>)","(f x.y)","(g 'str')","(h -12)","(k {a=1,b='2'})","(k {a='\"',b=\"'\"})"};
// arg1 skeleton, arg2 number of attributes
extern "C" void h_grammars()
{
	std::string text; for (const char* s = SKEL[ sx_arg(1)]; *s; ++s) if (*s == '@') text += ATTR[ sx_pick( "attr", sx_arg(2))]; else text += *s;
	if (!build( text)) { sx_reach("refused"); return; }
	image(); if (!loaded) return; sameTables(); sameLexers( "", 0); sx_reach("image");
}
