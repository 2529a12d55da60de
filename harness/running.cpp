// Running a compiler from Lua: files read and written, output printed, state left behind
#include "binding.hpp"
#include "luatext.hpp"
#include "files.hpp"
#include "automaton.hpp"
#include "error.hpp"
#include <map>
using namespace mewa;
typedef std::map<std::string,std::string> Sections;
struct Act { int kind; std::string sect, text; };		// 0 print, 1 print_section, 2 debug, 3 an error, 4 print of other values
static std::vector<Act> script[ 2]; static int calls, marks; static bool fails;
static int origPrint( lua_State*) { ++marks; return 0; }
static int origDebug( lua_State*) { marks += 100; return 0; }
static int node( lua_State* L)
{
	sx_assert( calls < 2, "every function is called once"); 
	for (auto const& a : script[ calls++])
	{
		if (a.kind == 3) return luaL_error( L, "stopped");
		lua_getglobal( L, a.kind == 2 ? "debug" : a.kind == 1 ? "print_section" : "print"); sx_assert( lua_isfunction( L, -1), "functions to print are defined"); int n = 0;
		if (a.kind == 1) { if (a.sect == "nil") lua_pushnil( L); else lua_pushlstring( L, a.sect.data(), a.sect.size()); ++n; }
		if (a.kind == 4) { lua_pushnil( L); lua_pushinteger( L, 12); lua_pushboolean( L, 1); lua_createtable( L, 1, 0); lua_pushinteger( L, 7); lua_rawseti( L, -2, 1); n += 4; }
		lua_pushlstring( L, a.text.data(), a.text.size()); ++n;
		if (a.kind == 0) { lua_pushstring( L, ";"); ++n; }
		lua_call( L, n, 0);
	}
	return 0;
}
// What the files and streams have to contain after the actions of a script
static std::string printed( const Act& a) { return a.kind == 0 ? a.text + ";" : a.kind == 4 ? "<nil>12true{7}" + a.text : a.text; }
static bool al( unsigned char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_'; }
static bool an( unsigned char c) { return al( c) || (c >= '0' && c <= '9'); }
static std::string expand( const std::string& t, const Sections& sec)
{
	std::string r;
	for (std::size_t i=0; i<t.size();)
	{
		std::size_t e = t[i] == '{' ? t.find( '}', i) : std::string::npos;
		if (e != std::string::npos)
		{
			std::string k( t, i+1, e-i-1); auto f = sec.find( k);
			if (f != sec.end()) { r += f->second; i = e+1; sx_reach("replaced"); continue; }
			bool id = k.size() >= 2 && al( k[0]); for (char c : k) id = id && an( c);
			if (id) { i = e+1; sx_reach("removed"); continue; }
		}
		r += t[ i++];
	}
	return r;
}
static const char* GRAM = "% LANGUAGE \"l\"; % TYPESYSTEM \"t\"; % COMMENT \"#\"; W: '[a-z]'; S = P Q; P = W (f x); Q = W (g) | W W (g);";
static void compilerObject( lua_State* L) // -> 2
{
	Automaton au; std::vector<Error> w; au.build( GRAM, w); sx_assert( w.empty(), "the grammar is correct"); std::string text = au.tostring();
	lua_getfield( L, 1, "compiler"); LuaText rd( text, L); rd.member = node; bool ok = rd.all(); sx_assert( ok, "the automaton is printed as a table"); 
	lua_call( L, 1, 1); lua_replace( L, 2); sx_assert( lua_isuserdata( L, 2), "a compiler is created");
	lua_pushglobaltable( L); lua_setglobal( L, "_G"); lua_pushcclosure( L, origPrint, 0); lua_setglobal( L, "print"); lua_pushcclosure( L, origDebug, 0); lua_setglobal( L, "debug");
}
static void checkState( lua_State* L)
{
	marks = 0; lua_getglobal( L, "print"); sx_assert( lua_isfunction( L, -1), "print is a function"); lua_call( L, 0, 0); lua_getglobal( L, "debug"); lua_call( L, 0, 0);
	sx_assert( marks == 101, "print and debug are the ones from before the run"); sx_assert( fm_open() == 0, "no file is left open");
}
// out: 0 file, 1 stdout, 2 stderr, 3 none; dbg: 0 none, 1 file, 2 stderr. Returns the number of results of run or -1
static int run( lua_State* L, const char* target, const char* input, int out, int dbg, const char* outfile = "out", const char* dbgfile = "dbg")
{
	calls = 0; if (target) lua_pushstring( L, target); else lua_pushnil( L);
	lua_createtable( L, 0, 0); lua_pushstring( L, input); int n = 3; static const char* O[] = {"","stdout","stderr"};
	if (out < 3) { lua_pushstring( L, out ? O[out] : outfile); ++n; } else if (dbg) { lua_pushnil( L); ++n; }
	if (dbg) { lua_pushstring( L, dbg == 1 ? dbgfile : "stderr"); ++n; }
	return method( L, "run", n);
}
static Sections sections( const char* source, const char* triple)
{
	Sections s; std::string code;
	for (auto const& k : script) for (auto const& a : k) { if (a.kind == 0 || a.kind == 4) code += printed( a); if (a.kind == 1) s[ a.sect == "nil" ? "" : a.sect] += a.text; }
	s[ "Source"] = source; s[ "Triple"] = triple; s[ "Code"] += code; return s;
}
static std::string outputOf( int out) { std::string s; if (out == 0) { bool ok = getFile( "out", s); sx_assert( ok, "the output is written"); return s; } s = stdText( out == 2 ? 1 : 0); if (out != 2 && !s.empty() && s.back() == '\n') s.pop_back(); return s; }
static std::string bytes( int n, const char* alphabet)
{
	std::string r( n, 0); for (int i=0; i<n; ++i) { char c; sx_sym( &c, 1, "c"); if (alphabet) { bool ok = false; for (const char* a=alphabet; *a; ++a) ok |= c == *a; sx_assume( ok); } r[i] = c; } return r;
}
// Every template and what is printed into it
static const char* ALPHA[] = {"{}Code","{}ab1 ","{}X_\n{"}; static const char* SECT[] = {"Typedefs","Code","a","ab","nil","1","","Source"};
static void bodyTemplate( lua_State* L)
{
	compilerObject( L); fm_begin(); int nt = sx_arg(0), al = sx_arg(1), out = sx_arg(4);
	std::string t = al >= 0 ? bytes( nt, ALPHA[ al]) : std::string(); if (al < 0) { t = "<{Code}|{Typedefs}{"; t += bytes( nt, nullptr); t += "}{Source}"; } else if (al == 1) t += "}{Code}"; else if (al == 2) t += "}{X_}{Triple}";
	for (int k=0; k<2; ++k) for (int i=sx_pick( "acts", sx_arg(2)+1); i; --i) { Act a; int x = sx_pick( "act", 10); a.kind = x < 8 ? 1 : x == 8 ? 0 : 4; if (x < 8) a.sect = SECT[x]; a.text = bytes( sx_arg(3), nullptr); script[k].push_back( a); }
	putFile( "dir/x86.64-a.tpl", t); putFile( "in.txt", "a b");
	int n = run( L, "dir/x86.64-a.tpl", "in.txt", out, 0); if (n < 0) sx_assert( false, lua_tostring( L, -1)); sx_assert( n == 0, "a run succeeds"); sx_assert( calls == 2, "all functions are called");
	std::string res = outputOf( out); sx_assert( res == expand( t, sections( "in.txt", "x86.64-a")), "the output is the template with the texts printed"); checkState( L);
	if (out == 0) sx_assert( stdText(0).empty() && stdText(1).empty(), "nothing is written to the standard streams"); fm_end(); sx_reach("run"); sx_expect("run"); sx_expect("replaced");
}
extern "C" void h_template() { withModule( bodyTemplate); }
// Histories of runs of the same compiler with errors at every place
static const char* TARGETS[] = {"t.tpl","other.tpl","none.tpl",nullptr,"noext","a.b/noext","adir"}; static const char* TRIPLE[] = {"t","other","","","noext","noext",""};
static const char* INPUTS[] = {"in.txt","in2.txt","none.txt","bad.txt","short.txt","adir"};
static void bodyHistory( lua_State* L)
{
	compilerObject( L); fm_begin(); std::string tpl[7]; for (int i : {0,1,4,5}) { tpl[i] = i == 0 ? "T[{Code}]{Source}" : i == 1 ? "O[{Code}|{sec}]{Triple}" : "{Triple}:{Code}"; putFile( TARGETS[i], tpl[i]); } tpl[3] = "{Code}"; fm_none( TARGETS[2]); fm_dir( TARGETS[6]);
	putFile( "in.txt", "a b"); putFile( "in2.txt", "c #x\n d\n e"); fm_none( "none.txt"); putFile( "bad.txt", "a 1"); putFile( "short.txt", "a"); fm_limit( "denied", -2); int nruns = sx_arg(0), deg = sx_arg(1);
	for (int r=0; r<nruns; ++r)
	{
		for (auto& s : script) s.clear(); fm_none( "out"); fm_none( "dbg"); int before[2] = {(int)stdText(0).size(),(int)stdText(1).size()};
		// all the choices for a single run, fewer in a history
		static const int T1[] = {0,2}, T2[] = {0,1,3}, I1[] = {0,3}, I2[] = {0,1,3}, A1[] = {1,4,5,3}; bool one = nruns == 1, last = r == nruns-1, few = nruns > 2 && !last;
		int t = one ? sx_pick( "target", 7) : last ? T2[ sx_pick( "target", 3)] : few ? 0 : T1[ sx_pick( "target", 2)], in = one ? sx_pick( "input", 6) : last ? I2[ sx_pick( "input", 3)] : I1[ sx_pick( "input", 2)];
		int out = sx_pick( "output", deg > 1 ? 4 : 2), dbg = sx_pick( "dbg", deg > 1 ? 3 : 2), d2 = deg && r == nruns-1 ? sx_pick( "denied", 3) : 0; sx_assume( (d2 != 1 || out == 0) && (d2 != 2 || dbg == 1));
		std::string text( 1, (char)('A'+r)); int err = one || last ? sx_pick( "act", 6) : A1[ sx_pick( "act", 4)]; script[0].push_back( {0,"",text}); script[1].push_back( {err == 3 ? 3 : err == 2 ? 2 : err == 1 ? 1 : 0,"sec",text}); if (err == 5) script[0].push_back( {3,"",""}); if (err == 4) { script[1].push_back( {2,"","d1"}); script[1].push_back( {0,"","z"}); }
		bool okay = t != 2 && t != 6 && in < 2 && err != 3 && err != 5 && d2 == 0;
		int top = lua_gettop( L), n = run( L, TARGETS[t], INPUTS[in], out, dbg, d2 == 1 ? "denied" : "out", d2 == 2 ? "denied" : "dbg"); sx_assert( (n == 0) == okay, "a run succeeds if there are no errors"); lua_settop( L, top); checkState( L);
		std::string so = stdText(0).substr( before[0]), se = stdText(1).substr( before[1]), of;
		if (okay)
		{
			std::string ex = expand( tpl[t], sections( INPUTS[in], TRIPLE[t])); 
			if (out == 0) { bool ok = getFile( "out", of); sx_assert( ok && of == ex, "every run writes its own output"); } else if (out == 2) sx_assert( se.size() >= ex.size() && se.compare( se.size()-ex.size(), ex.size(), ex) == 0, "every run writes its own output"); else sx_assert( so == ex + "\n", "every run writes its own output");
			if (out == 0 || out == 2) sx_assert( so.empty(), "nothing else is written"); if (out != 2 && dbg != 2 && err != 2 && err != 4) sx_assert( se.empty(), "nothing else is written");
			sx_reach("success");
		}
		else { sx_assert( so.empty() && !getFile( "out", of), "a run with an error writes no output"); sx_reach("failure"); }
		if (dbg == 1 && okay)
		{
			std::string d; bool ok = getFile( "dbg", d); sx_assert( ok, "the debug output is written"); if (err == 2) sx_assert( d.find( text + "\n") != std::string::npos, "what the functions print with debug is in the debug output"); 
		}
		if (okay && !dbg && out != 2 && (err == 2 || err == 4)) sx_assert( se == (err == 2 ? text : std::string("d1")) + "\n", "debug output goes to standard error if not specified");
	}
	fm_end(); sx_reach("run"); sx_expect("run"); sx_expect("success"); sx_expect("failure");
}
extern "C" void h_history() { withModule( bodyHistory); }
// Writes that fail: the output or the debug output can not be stored completely
static void bodyFailing( lua_State* L)
{
	compilerObject( L); fm_begin(); putFile( "t.tpl", "[{Code}]"); putFile( "in.txt", "a b"); int what = sx_pick( "what", 4), n = sx_arg(0); bool first = sx_pick( "first", 2);
	script[0].push_back( {0,"","A"}); script[1].push_back( {what == 3 ? 0 : 2,"","text"}); if (first) std::swap( script[0], script[1]); // output [A;] or [A;text;], debug output text
	int lim = sx_pick( "limit", n); fm_none( "out"); fm_none( "dbg"); if (what == 0 || what == 3) fm_limit( "out", lim); else if (what == 1) fm_limit( "dbg", lim); std::string ex = expand( "[{Code}]", sections( "in.txt", "t"));
	int top = lua_gettop( L), rc = run( L, "t.tpl", "in.txt", 0, what == 1 || what == 2); std::string d; bool has = getFile( "dbg", d); 
	if (what == 0 || what == 3) sx_assert( (rc == 0) == (lim >= (int)ex.size()), "an error is raised if the output can not be written"); else if (what == 2) sx_assert( rc == 0 && has && d.find( "text\n") != std::string::npos, "the debug output is written"); 
	else sx_assert( rc != 0 || (has && d.find( "text\n") != std::string::npos), "an error is raised if debug output can not be written");
	std::string o; if (rc == 0) { bool ok = getFile( "out", o); sx_assert( ok && o == ex, "the output is written"); sx_reach("success"); } else { std::string m = lua_tostring( L, -1); sx_assert( m.size() > 0, "an error has a message"); sx_reach("failure"); }
	lua_settop( L, top); checkState( L); fm_limit( "out", -1); fm_limit( "dbg", -1); fm_none( "out"); fm_none( "dbg"); rc = run( L, "t.tpl", "in.txt", 0, 0); sx_assert( rc == 0 && getFile( "out", o) && o == ex, "the next run is not affected"); checkState( L); fm_end(); sx_expect("success"); sx_expect("failure");
}
extern "C" void h_failing() { withModule( bodyFailing); }
