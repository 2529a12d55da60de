// The description of a language as Lua table (mewa -l) and the stub of a type system (mewa -s)
#include "luatext.hpp"
#include "automaton_parser.hpp"
#include "languagedef.hpp"
#include "languagedef_tostring.hpp"
#include "automaton_structs.hpp"
#include "error.hpp"
#include <map>
#include <set>
using namespace mewa;
typedef std::vector<std::string> Content; struct Attr { std::string name; Content content; };
static bool blank( char c) { return (unsigned char)c <= 32; }
static bool al( unsigned char c) { return ((c >= 'a') & (c <= 'z')) | ((c >= 'A') & (c <= 'Z')) | (c == '_'); }
static bool di( unsigned char c) { return (c >= '0') & (c <= '9'); }
static const char* RESERVED[] = {"op","name","pattern","open","close","tabsize","nl","select","priority","left","right","scope","call","line"};
// The attributes in the comments of a text and the lines of the tokens that follow them
struct Comments
{
	const char* s; int pos = 0, line = 1; std::vector<Attr> pending; std::map<int,std::vector<Attr> > lines; bool reserved = false, open = false;
	void commentLine( int b, int e)
	{
		while (b < e && blank( s[b])) ++b; if (b < e && s[b] == '@') { int i = b+1; while (i < e && blank( s[i])) ++i; int k = i; while (i < e && (al( s[i]) || di( s[i]))) ++i; std::string id( s+k, i-k); if (!id.empty()) { while (i < e && blank( s[i])) ++i; pending.push_back( {id,Content( 1, std::string( s+i, e-i))}); return; } }
		if (!pending.empty()) pending.back().content.push_back( std::string( s+b, e-b));
	}
	int string( int p) { char q = s[p++]; for (;; ++p) { if (!s[p] || s[p] == '\n') return -1; if (s[p] == q) return p+1; if (s[p] == '\\') { ++p; if (!s[p] || s[p] == '\n' || s[p] == q) return -1; } } }
	void all()
	{
		for (;;)
		{
			while (s[pos] && blank( s[pos])) { line += s[pos] == '\n'; ++pos; } if (!s[pos]) return;
			if (s[pos] == '#' || (s[pos] == '/' && s[pos+1] == '/')) { int b = pos + (s[pos] == '#' ? 1 : 2); while (s[pos] && s[pos] != '\n') ++pos; commentLine( b, pos); continue; }
			if (s[pos] == '/' && s[pos+1] == '*')
			{
				int p = pos += 2; while (s[p] && !(s[p] == '*' && s[p+1] == '/')) ++p; if (!s[p]) { open = true; return; }
				std::vector<std::pair<int,int> > ln; for (int b=pos; b < p;) { int e = b; while (e < p && s[e] != '\n') ++e; int t = e; while (t > b && blank( s[t-1])) --t; ln.push_back( {b,t}); b = e < p ? e+1 : e; } // without the blanks at the end of lines and the empty lines at the end
				while (!ln.empty() && ln.back().first == ln.back().second) ln.pop_back(); for (auto const& x : ln) commentLine( x.first, x.second);
				for (; pos < p+2; ++pos) line += s[pos] == '\n'; continue;
			}
			for (auto const& a : pending) { for (const char* r : RESERVED) reserved |= a.name == r; lines[ line].push_back( a); } pending.clear();
			if (s[pos] == '"' || s[pos] == '\'') { int e = string( pos); pos = e < 0 ? pos+1 : e; } else if (al( s[pos])) { while (al( s[pos]) || di( s[pos]) || s[pos] == '.') ++pos; } else ++pos;
		}
	}
};
static std::string getStr( lua_State* L, int t, const char* k) { lua_getfield( L, t, k); sx_assert( lua_type( L, -1) == LUA_TSTRING, "an attribute of a definition is printed"); size_t n; const char* p = lua_tolstring( L, -1, &n); std::string r( p, n); lua_pop( L, 1); return r; }
static int getInt( lua_State* L, int t, const char* k) { lua_getfield( L, t, k); sx_assert( lua_type( L, -1) == LUA_TNUMBER, "a number of a definition is printed"); int r = lua_tointeger( L, -1); lua_pop( L, 1); return r; }
static int members( lua_State* L, int t) { int n = 0; lua_pushnil( L); while (lua_next( L, t)) { ++n; lua_pop( L, 1); } return n; }
static void str( lua_State* L, int t, int& n, const char* k, const std::string& v) { std::string x = getStr( L, t, k); sx_assert( x == v, "the table has the texts of the grammar"); ++n; }
static void num( lua_State* L, int t, int& n, const char* k, int v) { sx_assert( getInt( L, t, k) == v, "the table has the numbers of the grammar"); ++n; }
static void attrs( lua_State* L, int t, int& n, const std::map<int,std::vector<Attr> >& m, int line)
{
	num( L, t, n, "line", line); auto f = m.find( line); if (f != m.end()) for (std::size_t k=0; k<f->second.size(); ++k)
	{
		auto const& a = f->second[k]; bool again = false, before = false; for (std::size_t j=0; j<f->second.size(); ++j) if (j != k && f->second[j].name == a.name) { again |= j > k; before |= j < k; } 
		if (again) continue; // the last one if an attribute is specified twice
		lua_getfield( L, t, a.name.c_str()); int c = lua_gettop( L); sx_assert( lua_istable( L, c) && lua_rawlen( L, c) == a.content.size(), "an attribute of a comment is a list of its lines"); ++n; sx_reach("attribute");
		for (std::size_t i=0; i<a.content.size(); ++i) { lua_rawgeti( L, c, i+1); size_t sz; const char* p = lua_tolstring( L, -1, &sz); sx_assert( p && a.content[i] == std::string( p, sz), "the lines of an attribute are the ones of the comment"); lua_pop( L, 1); } lua_pop( L, 1);
	}
	sx_assert( members( L, t) == n, "nothing else is printed");
}
// checks the table printed for a grammar
static void check( lua_State* L, const std::string& src, bool mayfail)
{
	Comments co; co.s = src.c_str(); LanguageDef* ld = nullptr; try { ld = new LanguageDef( parseLanguageDef( src)); } catch (const Error&) {}
	if (!ld) { sx_assert( mayfail, "the grammar is correct"); try { parseLanguageDecoratorMap( src); } catch (const Error&) {} return; } co.all(); sx_assert( !co.open, "comments of correct grammars are closed");
	std::string out; bool ok = true; try { LanguageDecoratorMap dm( parseLanguageDecoratorMap( src)); out = printLuaLanguageDefinition( *ld, dm); } catch (const Error& e) { ok = false; sx_assert( e.code() == Error::UsingReservedAttributeNameInGrammarDef && co.reserved, "only reserved names of attributes are refused"); sx_reach("reserved"); }
	sx_assert( ok == !co.reserved, "reserved names of attributes are refused"); if (!ok) return;
	std::string H = "local languagedef = ", F = "\nreturn languagedef\n"; auto h = out.find( H), f = out.rfind( F); sx_assert( h == 0 && f != std::string::npos, "the table is returned by the chunk printed");
	std::string body = out.substr( H.size(), f+1-H.size()); LuaText rt( body, L); bool good = rt.all(); if (!good) sx_assert( false, rt.err); int T = lua_gettop( L), n = 1; sx_assert( lua_istable( L, T), "a table is printed");
	str( L, T, n, "LANGUAGE", ld->language); str( L, T, n, "TYPESYSTEM", ld->typesystem); str( L, T, n, "CMDLINE", ld->cmdline); lua_getfield( L, T, "VERSION"); sx_assert( lua_isstring( L, -1), "the version is printed"); lua_pop( L, 1);
	lua_getfield( L, T, "RULES"); int R = lua_gettop( L), k = 0; sx_assert( lua_istable( L, R), "the list of rules is printed");
	for (auto const& d : ld->lexer.getDefinitions())
	{
		if (d.type() == Lexer::Definition::KeywordLexem) continue; lua_rawgeti( L, R, ++k); int t = lua_gettop( L), m = 0; sx_assert( lua_istable( L, t), "every definition is printed");
		switch (d.type())
		{
			case Lexer::Definition::BadLexem: str( L, t, m, "op", "BAD"); str( L, t, m, "name", d.bad()); break;
			case Lexer::Definition::NamedPatternLexem: str( L, t, m, "op", "TOKEN"); str( L, t, m, "name", d.name()); str( L, t, m, "pattern", d.pattern()); if (d.select()) num( L, t, m, "select", d.select()); break;
			case Lexer::Definition::IgnoreLexem: str( L, t, m, "op", "IGNORE"); str( L, t, m, "pattern", d.ignore()); break;
			case Lexer::Definition::EolnComment: str( L, t, m, "op", "COMMENT"); str( L, t, m, "open", d.start()); break;
			case Lexer::Definition::BracketComment: str( L, t, m, "op", "COMMENT"); str( L, t, m, "open", d.start()); str( L, t, m, "close", d.end()); break;
			default: str( L, t, m, "op", "INDENTL"); str( L, t, m, "open", ld->lexer.lexemName( d.openind())); str( L, t, m, "close", ld->lexer.lexemName( d.closeind())); str( L, t, m, "nl", ld->lexer.lexemName( d.newline())); num( L, t, m, "tabsize", d.tabsize()); break;
		}
		attrs( L, t, m, co.lines, d.line()); lua_pop( L, 1);
	}
	for (auto const& p : ld->prodlist)
	{
		lua_rawgeti( L, R, ++k); int t = lua_gettop( L), m = 1; sx_assert( lua_istable( L, t), "every rule is printed"); str( L, t, m, "op", "PROD"); str( L, t, m, "left", std::string( p.left.name()));
		lua_getfield( L, t, "right"); int r = lua_gettop( L); sx_assert( lua_istable( L, r) && lua_rawlen( L, r) == p.right.size(), "the right side of a rule is a list of its elements");
		for (std::size_t i=0; i<p.right.size(); ++i)
		{
			auto const& e = p.right[i]; lua_rawgeti( L, r, i+1); int q = lua_gettop( L), x = 0; sx_assert( lua_istable( L, q), "an element is printed"); bool quoted = e.name().data()[-1] == '"' || e.name().data()[-1] == '\''; // the names are in the text
			str( L, q, x, "type", quoted ? "symbol" : "name"); str( L, q, x, "value", std::string( e.name())); sx_assert( members( L, q) == x, "nothing else is printed"); lua_pop( L, 1);
		}
		lua_pop( L, 1);
		int pv = p.priority.value; if (p.priority.defined()) { std::string pr = p.priority.assoziativity == Assoziativity::Left ? "L" : p.priority.assoziativity == Assoziativity::Right ? "R" : ""; str( L, t, m, "priority", pr + std::to_string( pv)); }
		if (p.scope != Automaton::Action::NoScope) str( L, t, m, "scope", p.scope == Automaton::Action::Scope ? "{}" : ">>");
		if (p.callidx) { auto const& c = ld->calls[ p.callidx-1]; std::string x = c.function(); if (c.argtype() == Automaton::Call::StringArg) x += " \"" + c.arg() + "\""; else if (c.argtype() == Automaton::Call::ReferenceArg) x += " " + c.arg(); str( L, t, m, "call", x); }
		attrs( L, t, m, co.lines, p.line); lua_pop( L, 1);
	}
	sx_assert( (int)lua_rawlen( L, R) == k && members( L, R) == k && members( L, T) == n+1, "nothing else is printed"); sx_reach("described");
}
static std::string bytes( int n, const char* al)
{
	std::string r( n, 0); for (int i=0; i<n; ++i) { char c; sx_sym( &c, 1, "c"); if (al) { bool ok = false; for (const char* a=al; *a; ++a) ok |= c == *a; sx_assume( ok); } else sx_assume( c != 0); r[i] = c; } return r;
}
static std::string source;
static const char* PRE[] = {"S = X;\n#","S = X;\n/*","S = X;\n","S = X;\n#@ab ","%LANGUAGE 'l';\n/* @ab x\n","S=X;#@c 1"};
static const char* POST[] = {"\nX = 'a';","*/X='a';","X='a';\n","\n// @cd y\nX = 'a';","*/\nS = 'b' 'c';\n","\nX='a'|\n'#@d'\n|'c'(f);"};
static const char* ALPH[] = {nullptr,"#@a/*\n 'X=;","@ab1_ \n","*/ \n@a","@\tx\n "};
extern "C" void h_comments()
{
	lua_State* L = luaL_newstate(); lua_checkstack( L, 100); int c = sx_arg(0), al = sx_arg(1), n = sx_arg(2); source = PRE[c] + bytes( n, ALPH[al]) + POST[c]; check( L, source, true); lua_close( L); sx_reach("text"); sx_expect("text"); sx_expect("described"); if (sx_arg(3)) sx_expect("attribute");
}
// Attributes with certain names
extern "C" void h_names()
{
	static const char* N[] = {"op","name","pattern","open","close","tabsize","nl","select","priority","left","right","scope","call","line","end","nil","rule","value","type","1a","_","opx","Line","RULES"};
	lua_State* L = luaL_newstate(); lua_checkstack( L, 100); bool two = sx_pick( "two", 2); std::string k = N[ sx_pick( "name", 24)], k2 = two ? N[ sx_pick( "name2", 24)] : "";
	source = "S = X;\n# @" + k + " v\n" + (two ? "# @" + k2 + " w\n#  u" : std::string()) + "\nX = 'a';"; check( L, source, false); lua_close( L); sx_expect("reserved"); sx_expect("attribute");
}
// Grammars with every kind of definition
static const char* DEF[] = {"","% IGNORE 'i+';","%BAD B$;","% COMMENT '$';","% COMMENT \"$\" '*/';","%INDENTL O C N 4;","T: 't$';","T: 't(u)' 1;","%TYPESYSTEM '$'; %CMDLINE \"$\";"};
static const char* RULE[] = {"","X = '$';","X/L3 = 'q';","X/R1 = 'q' X '$';","X/2='q';","X = T(f);","X = (>>);","X= 'q'({}f.g a.b);","X='q' (>>f '$');","X = | 'q' (f{k=1,l='$'}) | 'r' X;"};
extern "C" void h_definitions()
{
	lua_State* L = luaL_newstate(); lua_checkstack( L, 100); int n = sx_arg(0); std::string d; static std::string b; b = bytes( n, nullptr); for (char c : b) sx_assume( c != '\n');
	d = "% LANGUAGE 'l$';\n"; for (int i=0; i<sx_arg(1); ++i) { d += DEF[ sx_pick( "definition", 9)]; if (sx_pick( "line", 2)) d += "\n"; } d += "S = X;"; for (int i=0; i<sx_arg(2); ++i) { d += RULE[ sx_pick( "rule", 10)]; if (sx_pick( "line", 2)) d += "\n"; }
	if (!sx_arg(2)) d += "X='a';"; int m = 0; for (char c : d) m += c == '$'; int open = n ? sx_pick( "open", m) : -1, k = 0; source.clear(); for (char c : d) { if (c == '$') { if (k++ == open) source += b; else source += "$"; } else source += c; }
	check( L, source, true); lua_close( L); sx_reach("text"); sx_expect("text"); sx_expect("described");
}
// The stub has every function once, with a second parameter if it is called with an argument anywhere
static std::string words( const std::string& t) { std::string r; for (char c : t) { if (!blank( c)) r += c; else if (!r.empty() && r.back() != ' ') r += ' '; } return r; }
extern "C" void h_stub()
{
	static const char* C[] = {"","(f)","(f x)","(g)","(g 'a')","(>>f)","({}h{a=1})","(h)","(>>)"}; static const char FN[] = {0,'f','f','g','g','f','h','h',0}; static const char ARG[] = {0,0,1,0,1,0,1,0,0};
	int n = sx_arg(0); source = "S = A"; std::string order; bool arg[128] = {}; auto use = [&]( int c) { if (FN[c] && order.find( FN[c]) == std::string::npos) order += FN[c]; if (FN[c] && ARG[c]) arg[ (int)FN[c]] = true; };
	int c = sx_pick( "call", 9); source += C[c]; use( c); source += ";"; for (int i=0; i<n; ++i) { source += std::string("A = 'a") + (char)('0'+i) + "'"; c = sx_pick( "call", 9); source += C[c]; use( c); source += ";\n"; }
	std::string out; try { LanguageDef ld( parseLanguageDef( source)); out = words( printLuaTypeSystemStub( ld)); } catch (const Error&) { sx_assert( false, "the grammar is correct"); }
	std::string head = "local mewa = require \"mewa\" local typedb = mewa.typedb() local typesystem = {} ", foot = "return typesystem "; sx_assert( out.compare( 0, head.size(), head) == 0 && out.size() >= head.size() + foot.size() && out.compare( out.size()-foot.size(), foot.size(), foot) == 0, "the stub is a module");
	std::set<std::string> ex, is; for (char f : order) ex.insert( std::string("function typesystem.") + f + (arg[(int)f] ? "( node, decl) end " : "( node) end "));
	std::size_t p = head.size(); while (p < out.size()-foot.size()) { auto e = out.find( " end ", p); sx_assert( e != std::string::npos, "a function ends"); bool nw = is.insert( out.substr( p, e+5-p)).second; sx_assert( nw, "every function is printed once"); p = e+5; }
	sx_assert( is == ex, "the functions are the ones called in the grammar, with the parameters they are called with"); sx_reach("stub"); sx_expect("stub");
}
