#include "sx.h"
#include "automaton.hpp"
#include "lua_run_compiler.hpp"
#include "error.hpp"
#include <cstring>
#include <string>
#include <vector>
extern "C" {
#include <lua.h>
#include <lauxlib.h>
}
using namespace mewa;
// Grammars: upper case nonterminals, i/j the lexemes "a"+ and "b", other lower case or special characters keywords; '@' one of the call attributes, '!' a call attribute creating a node
static const char* SKEL[] = {
 /*0*/ "S=L@;L=LE@|;E=i!|(L)@;",
 /*1*/ "S=X@;X=XiY!|Y@;Y=j@|;",
 /*2*/ "S=Z;Z=@|iT@;T=jT!|i@;",
 /*3*/ "S=PQ!;P=i@;Q=jR@;R=i!|R,i@;",
 /*4*/ "S=L;L=Li|i;",
 /*5*/ "S=L!;L=LiXj@|;X=!;",
};
static const char* SRC[] = {"a()\n","ab \n","ab,\n","a b"};
static const char* ATTR[] = {"","(c)","({}c)","(>>c)","(>>)"};
static std::string text; static Automaton au; static int calls;
static void makeGrammar( const char* sk, int nofattr)
{
	text = "I:'a+';J:'[b]';"; bool right = false;
	for (const char* s = sk; *s; ++s)
	{
		if (*s == '=') { right = true; text += "="; }
		else if (*s == ';' || *s == '|')
		{
			if (s[-1] == '|' || s[-1] == '=') text += "ε";
			text += *s; if (*s == ';') right = false;
		}
		else if (*s == '@' || *s == '!')
		{
			int k = *s == '@' ? sx_pick( "attr", nofattr) : 1 + sx_pick( "call", nofattr > 3 ? 3 : nofattr-1);
			if (s[-1] == '|' || s[-1] == '=') text += "ε";
			for (const char* a = ATTR[k]; *a; ++a) { text += *a; if (*a == 'c') text += (char)('0' + calls++ % 10); }
			if (s[1] != ';' && s[1] != '|') sx_assume( false);
		}
		else if (*s == 'i') text += " I "; else if (*s == 'j') text += " J ";
		else if (*s >= 'A' && *s <= 'Z') { text += ' '; text += *s; text += ' '; }
		else { text += '"'; text += *s; text += "\" "; }
	}
	(void)right;
}
struct Node { int call, flag, from, to, line; std::string name, value; std::vector<int> arg; };
struct Elem { int state, cnt; std::vector<int> nodes; };
static std::vector<Node> nodes; static std::vector<int> roots; static std::string unexpected; static int unexpectedLine;
// Reference: interpretation of the automaton with a list of nodes for every symbol of the stack
static bool reference( const std::string_view& src)
{
	std::vector<Elem> st; st.push_back( {1,0,{}}); int step = 0, line = 0;
	Scanner scanner( src); Lexem lx = au.lexer().next( scanner);
	for (int n=0; n<300; ++n)
	{
		if (lx.id() < 0) return false;
		auto ai = au.actions().find( {st.back().state, lx.id()});
		if (ai == au.actions().end())
		{
			auto name = [&]( int id) { return id ? std::string( au.lexer().lexemName( id)) : std::string("$"); };
			unexpected = name( lx.id()); if (lx.id() && !au.lexer().isKeyword( lx.id())) unexpected += " = \"" + std::string( lx.value()) + "\""; 
			const char* sep = " { "; for (auto const& a : au.actions()) if (a.first.state() == st.back().state) { unexpected += sep + name( a.first.terminal()); sep = ", "; } 
			unexpected += " }"; unexpectedLine = lx.line(); return false;
		}
		auto const& ac = ai->second;
		if (ac.type() == Automaton::Action::Shift)
		{
			Elem e = {ac.state(), step, {}};
			if (!au.lexer().isKeyword( lx.id())) { line = lx.line(); e.nodes.push_back( nodes.size()); nodes.push_back( {0,0,0,0,line,std::string(lx.name()),std::string(lx.value()),{}}); }
			st.push_back( e); lx = au.lexer().next( scanner); continue;
		}
		Elem e = {0, step, {}};
		if (ac.count()) e.cnt = st[ st.size()-ac.count()].cnt;
		for (std::size_t i=st.size()-ac.count(); i<st.size(); ++i) for (int x : st[i].nodes) e.nodes.push_back( x);
		if (ac.scopeflag() == Automaton::Action::Step) ++step;
		if (ac.scopeflag() == Automaton::Action::Scope && ac.call()) ++step;
		if (ac.call()) { nodes.push_back( {ac.call(), (int)ac.scopeflag(), e.cnt, step, line, "", "", e.nodes}); e.nodes.assign( 1, (int)nodes.size()-1); }
		st.resize( st.size()-ac.count());
		if (ac.type() == Automaton::Action::Accept) { roots = e.nodes; return true; }
		auto gi = au.gotos().find( {st.back().state, ac.nonterminal()}); if (gi == au.gotos().end()) return false;
		e.state = gi->second.state(); st.push_back( e);
	}
	return false;
}
static long field( lua_State* L, int t, const char* k) { lua_pushstring( L, k); lua_rawget( L, t); long r = lua_type( L, -1) == LUA_TNUMBER ? (long)lua_tointeger( L, -1) : -1; lua_pop( L, 1); return r; }
static void checkNode( lua_State* L, int n)
{
	lua_checkstack( L, 10); int t = lua_gettop( L); const Node& nd = nodes[n];
	sx_assert( lua_type( L, t) == LUA_TTABLE, "a node is a table");
	sx_assert( field( L, t, "line") == nd.line, "a node has the number of the line of its last lexeme");
	if (!nd.call)
	{
		lua_pushstring( L, "name"); lua_rawget( L, t); lua_pushstring( L, "value"); lua_rawget( L, t); std::size_t ln, lv;
		const char* nm = lua_tolstring( L, -2, &ln); const char* vl = lua_tolstring( L, -1, &lv);
		sx_assert( nm && vl && nd.name == std::string_view( nm, ln) && nd.value == std::string_view( vl, lv), "a lexeme is a node with its name and its value");
		lua_pop( L, 2); return;
	}
	lua_pushstring( L, "call"); lua_rawget( L, t); lua_getglobal( L, "calltab"); lua_rawgeti( L, -1, nd.call);
	sx_assert( lua_rawequal( L, -1, -3), "a function node refers to the call of its production"); lua_pop( L, 3);
	lua_pushstring( L, "scope"); lua_rawget( L, t);
	if (nd.flag == Automaton::Action::Scope)
	{
		sx_assert( lua_type( L, -1) == LUA_TTABLE, "a node with a scope has a scope"); lua_rawgeti( L, -1, 1); lua_rawgeti( L, -2, 2);
		sx_assert( lua_tointeger( L, -2) == nd.from && lua_tointeger( L, -1) == nd.to, "a scope starts with the step of its first token and ends with a new one"); lua_pop( L, 2); sx_reach("scope");
	}
	else { sx_assert( lua_type( L, -1) == LUA_TNIL, "only a node of a production with {} has a scope"); if (nd.flag == Automaton::Action::Step) { sx_assert( field( L, t, "step") == nd.to, "a step is a new one"); sx_reach("step"); } }
	lua_pop( L, 1);
	lua_pushstring( L, "arg"); lua_rawget( L, t); sx_assert( lua_type( L, -1) == LUA_TTABLE, "a function node has a list of sub nodes");
	sx_assert( lua_rawlen( L, -1) == nd.arg.size(), "the sub nodes are all nodes created in the production");
	for (std::size_t i=0; i<nd.arg.size(); ++i) { lua_rawgeti( L, t+1, i+1); checkNode( L, nd.arg[i]); lua_pop( L, 1); sx_reach("sub node"); }
	lua_pop( L, 1);
}
static int called, withOptions, raiseAt = -1, message; static bool okay, refused; static std::string what; static int errcode, errline;
static const char* MSG[] = {"boom","","Error at line 12: foo bar"};
static std::string errorString( int m) { return m == 1 ? Error( Error::UnexpectedTokenNotOneOf, "foo", 7).what() : MSG[m]; }
static char raised[ 256];
static int visit( lua_State* L)
{
	sx_assert( called < (int)roots.size() && nodes[ roots[called]].call, "every root node is called once");
	int call = nodes[ roots[ called]].call, n = 1;
	if (call % 2 == 0) { ++n; sx_assert( lua_type( L, 2) == LUA_TNUMBER && lua_tointeger( L, 2) == 100+call, "the function gets its object"); }
	if (withOptions) { ++n; sx_assert( lua_type( L, n) == LUA_TSTRING, "the function gets the options"); }
	sx_assert( lua_gettop( L) == n, "the function gets the node, its object and the options");
	lua_pushvalue( L, 1); checkNode( L, roots[ called]); lua_pop( L, 1);
	if (called++ == raiseAt) { lua_pushstring( L, raised); return lua_error( L); }
	return 0;
}
static std::string_view source;
static int runIt( lua_State* L)
{
	int top = lua_gettop( L);
	try { luaRunCompiler( L, au, 1, source, "calltab", nullptr); okay = true; }
	catch (const Error& e) { refused = true; what = e.what(); errcode = (int)e.code(); errline = e.location().line(); lua_settop( L, top); }
	sx_assert( lua_gettop( L) == top, "nothing is left on the Lua stack");
	return 0;
}
static lua_State* makeState()
{
	lua_State* L = luaL_newstate();
	lua_createtable( L, 0, 0);
	for (std::size_t i=1; i<=au.calls().size(); ++i)
	{
		lua_createtable( L, 0, 3); lua_pushstring( L, "name"); lua_pushstring( L, au.call( i).function().c_str()); lua_rawset( L, -3);
		lua_pushstring( L, "proc"); lua_pushcclosure( L, visit, 0); lua_rawset( L, -3);
		if (i % 2 == 0) { lua_pushstring( L, "obj"); lua_pushinteger( L, 100+i); lua_rawset( L, -3); }
		lua_rawseti( L, -2, i);
	}
	lua_setglobal( L, "calltab");
	return L;
}
static void runAndCheck( bool valid)
{
	lua_State* L = makeState();
	lua_pushcclosure( L, runIt, 0); if (withOptions) lua_pushstring( L, "opt"); else lua_pushnil( L);
	int rc = lua_pcall( L, 1, 0, 0);
	sx_assert( rc == 0, "no error is raised by the Lua API");
	bool lexemeRoot = false; if (valid) for (int r : roots) if (!nodes[r].call) { lexemeRoot = true; break; }
	if (!valid) { sx_assert( refused && !okay && called == 0, "a text the automaton does not accept is refused before any function is called");
		if (!unexpected.empty()) sx_assert( errcode == (int)Error::UnexpectedTokenNotOneOf && errline == unexpectedLine && what.find( unexpected) != std::string::npos, "the error tells the line, the token and what was expected"); sx_reach("refused"); }
	else if (raiseAt >= 0 && raiseAt < (int)roots.size() && au.calls().size() && ![&]{ for (int i=0; i<=raiseAt; ++i) if (!nodes[ roots[i]].call) return true; return false; }())
	{
		sx_assert( refused && !okay && called == raiseAt+1, "an error of a function ends the compilation");
		if (message == 0) sx_assert( errcode == (int)Error::LuaCallErrorERRRUN && what.find( "boom") != std::string::npos, "the message of a function is part of the error");
		else { sx_assert( errcode == (int)(message == 1 ? Error::UnexpectedTokenNotOneOf : Error::CompileError) && errline == (message == 1 ? 7 : 12) && what == raised, "the error of a function is passed on with its line"); }
		sx_reach("raised");
	}
	else if (lexemeRoot && au.calls().size()) { sx_assert( refused && !okay && errcode == (int)Error::NoLuaFunctionDefinedForItem, "a root node without a function is an error");
		for (int r : roots) if (!nodes[r].call) { sx_assert( what.find( nodes[r].name + " = " + nodes[r].value) != std::string::npos, "the error of a root node without function tells its name and value"); break; } sx_reach("no function"); }
	else { sx_assert( okay && !refused, "a text the automaton accepts is compiled"); if (au.calls().size()) sx_assert( called == (int)roots.size(), "every root node is called once"); sx_reach("compiled"); }
}
// arg0 skeleton, arg1 number of attributes, arg2 length, arg3 alphabet, arg4 a function raises an error
extern "C" void h_compile()
{
	makeGrammar( SKEL[ sx_arg(0)], sx_arg(1));
	std::vector<Error> warnings; bool built = true;
	try { au.build( text, warnings); } catch (const Error& e) { built = false; }
	sx_assert( built && warnings.empty(), "the grammars are free of conflicts"); if (!built) return;
	char src[16]; int N = sx_arg(2);
	for (int i=0; i<N; ++i) { sx_sym( src+i, 1, "c"); bool ok = false; for (const char* a = SRC[ sx_arg(3)]; *a; ++a) ok |= src[i] == *a; sx_assume( ok); }
	src[N] = 0; withOptions = sx_arg(1) < 5 ? sx_pick( "options", 2) : 0;
	source = std::string_view( src, N);
	if (sx_arg(4)) { raiseAt = sx_pick( "at", 2); message = sx_pick( "message", 3); std::strcpy( raised, errorString( message).c_str()); sx_expect("raised"); }
	runAndCheck( reference( source));
	sx_expect("compiled"); sx_expect("refused"); sx_expect("scope"); sx_expect("step"); sx_expect("sub node");
}
// many nodes at the same time: arg0 skeleton, arg1 number of tokens
extern "C" void h_depth()
{
	makeGrammar( SKEL[ sx_arg(0)], 2);
	std::vector<Error> warnings; au.build( text, warnings);
	std::string src; for (int i=0; i<sx_arg(1); ++i) src += sx_arg(2) ? "a\n" : "a ";
	source = src;
	runAndCheck( reference( source)); sx_reach("deep"); sx_expect("deep");
}
