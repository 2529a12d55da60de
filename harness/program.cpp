// The program mewa: options, templates, outputs, exit codes
#include "files.hpp"
#define main mewa_main
#include "mewa.cpp"
#undef main
static const char* GR[] = {
 "%LANGUAGE 'lg';\n%TYPESYSTEM 'ts';\nS = 'a' (f);\n",
 "%LANGUAGE 'lg';\n%TYPESYSTEM 'ts';\n%CMDLINE 'cl';\nS = 'a' (f);\n",
 "S = X | Y;\nX = 'a';\nY = 'a';\n", // conflict
 "S = 'a';\nX 'a';\n" };  // error on line 2
static std::string ERRL[] = {"","","","at line 2"};
static const char* DIRECTORY = "/m/dir";
// What the arguments given mean
struct Options
{
	bool usage = false, version = false, verbose = false, bad = false; char cmd = 0; std::string luabin = "/usr/bin/lua", out, dbg, tplf, input; std::vector<std::string> tpls; bool hasbin = false, hasout = false, hasdbg = false, hastpl = false;
	bool valued( const std::vector<std::string>& a, std::size_t& i, char s, const std::string& lng, std::string& v)
	{
		std::string p; if (a[i].size() >= 2 && a[i][0] == '-' && a[i][1] == s) p = a[i].substr( 2); else if (a[i] == "--" + lng) p = ""; else if (a[i].compare( 0, lng.size()+3, "--" + lng + "=") == 0) p = a[i].substr( lng.size()+3); else return false;
		if (p.empty()) { if (i+1 >= a.size() || (!a[i+1].empty() && a[i+1][0] == '-')) { bad = true; return true; } p = a[++i]; } v = p; return true;
	}
	explicit Options( const std::vector<std::string>& a)
	{
		std::size_t i = 0; auto is = [&]( const char* s, const char* l) { return a[i] == s || a[i] == l; };
		for (; i<a.size(); ++i)
		{
			if (is( "-h", "--help")) { usage = true; return; } if (is( "-v", "--version")) { version = true; return; } if (is( "-V", "--verbose")) { verbose = true; continue; }
			char c = is( "-g", "--generate-compiler") ? 'g' : is( "-s", "--generate-template") ? 's' : is( "-l", "--generate-language") ? 'l' : 0;
			if (c) { if (cmd || (c == 's' && (hasbin || hasdbg || hastpl))) { bad = true; return; } cmd = c; continue; }
			std::string t; bool nots = false;
			if (valued( a, i, 'b', "luabin", t)) { if (!bad) luabin = t; hasbin = nots = true; } else if (valued( a, i, 'o', "output", t)) { if (!bad) out = t; hasout = true; } else if (valued( a, i, 'd', "dbgout", t)) { if (!bad) dbg = t; hasdbg = nots = true; } else if (valued( a, i, 't', "template", t)) { if (!bad) { tplf = t; tpls.push_back( t); } hastpl = nots = true; }
			else if (a[i] == "--") { ++i; break; } else if (!a[i].empty() && a[i][0] == '-') { bad = true; return; } else break;
			if (bad || (nots && cmd == 's')) { bad = true; return; }
		}
		if (i + 1 != a.size()) { bad = true; return; } input = a[i]; if (hasout && !cmd) bad = true;
	}
};
static std::string expand( const std::string& t, const Automaton& a, const std::string& luabin)
{
	std::string r; const char* K[] = {"%luabin%","%typesystem%","%language%","%cmdline%","%automaton%"}; std::string V[] = {luabin,a.typesystem(),a.language(),a.cmdline(),a.tostring()};
	for (std::size_t i=0; i<t.size();) { int k = 0; for (; k<5; ++k) if (t.compare( i, std::strlen( K[k]), K[k]) == 0) break; if (k < 5) { r += V[k]; i += std::strlen( K[k]); } else r += t[i++]; } return r;
}
static std::string chop( std::string s) { while (!s.empty() && s.back() == '\n') s.pop_back(); return s; }
static std::map<std::string,std::string> FILES; static std::string DENIED; static const char* TPL = "T:%automaton%|%luabin%";
static void provide() { FILES.clear(); FILES["in.g"] = GR[0]; FILES["t.tpl"] = TPL; }
static const char* WRITTEN[] = {"out.x","dbg.x","t.tpl","in.g"};
// runs the program and compares with what the options mean
static void run( const std::vector<std::string>& args, int g)
{
	FILES["in.g"] = GR[g]; fm_begin(); for (auto const& f : FILES) putFile( f.first.c_str(), f.second); fm_dir( DIRECTORY); if (!DENIED.empty()) fm_limit( DENIED.c_str(), -2);
	std::vector<const char*> av{"mewa"}; std::vector<std::vector<char> > mem; for (auto const& a : args) { mem.emplace_back( a.begin(), a.end()); mem.back().push_back( 0); } for (auto const& m : mem) av.push_back( m.data());
	int rc = mewa_main( (int)av.size(), av.data()); fm_end(); Options o( args); std::string out = stdText( 0), err = stdText( 1), of, df; sx_assert( fm_open() == 0, "all files are closed"); bool haveout = getFile( "out.x", of), havedbg = getFile( "dbg.x", df);
	for (auto const& f : FILES) { std::string x; bool ok = getFile( f.first.c_str(), x); if (o.out != f.first && o.dbg != f.first) sx_assert( ok && x == f.second, "no file but the ones for output is touched"); }
	if (o.out != "out.x" && o.dbg != "out.x" && !FILES.count( "out.x")) sx_assert( !haveout, "no file is written that was not asked for"); if (o.out != "dbg.x" && o.dbg != "dbg.x" && !FILES.count( "dbg.x")) sx_assert( !havedbg, "no file is written that was not asked for");
	if (o.usage) { sx_assert( rc == 0 && out.empty() && err.compare( 0, 6, "Usage:") == 0 && !haveout && !havedbg, "the usage is printed on demand"); sx_reach("usage"); return; }
	if (o.version) { sx_assert( rc == 0 && out.find( MEWA_VERSION_STRING) != std::string::npos && !haveout && !havedbg, "the version is printed on demand"); sx_reach("version"); return; }
	auto source = FILES.find( o.input), tp = FILES.find( o.tplf); bool badtpl = false; for (auto const& x : o.tpls) badtpl |= !FILES.count( x);
	if (o.bad || badtpl || source == FILES.end()) { sx_assert( rc != 0 && !err.empty() && out.empty() && !haveout && !havedbg, "wrong arguments are refused"); if (o.bad && !badtpl) sx_assert( rc == 1 && err.find( "Usage:") != std::string::npos, "the usage is printed for wrong arguments"); sx_reach("refused"); return; }
	std::string t = o.hastpl ? tp->second : std::string(), want; bool ok = true; Automaton am; std::vector<Error> warnings; bool build = !o.cmd || o.cmd == 'g';
	try { if (build) am.build( source->second, warnings); else { LanguageDef ld( parseLanguageDef( source->second)); want = o.cmd == 's' ? printLuaTypeSystemStub( ld) : printLuaLanguageDefinition( ld, parseLanguageDecoratorMap( source->second)); } } catch (const Error&) { ok = false; }
	if (!ok || !warnings.empty()) { sx_assert( rc != 0 && out.empty() && !haveout && err.find( "ERR ") != std::string::npos, "an error in the grammar makes the program fail"); for (auto const& w : warnings) { std::string wt = w.what(); sx_assert( err.find( wt) != std::string::npos, "every conflict is reported"); } if (source->second.find( GR[3]) != std::string::npos) sx_assert( err.find( ERRL[3]) != std::string::npos, "the line of an error is reported"); sx_reach("wrong grammar"); return; }
	bool denied = !DENIED.empty() && (o.out == DENIED || (build && o.dbg == DENIED)); if (denied) { sx_assert( rc != 0 && err.find( "ERR ") != std::string::npos, "output that cannot be written is an error"); sx_reach("denied"); return; }
	if (o.cmd == 'g')
	{
		if (o.hastpl) want = expand( t, am, o.luabin);
		else { std::string got = out; if (o.hasout) { bool have = getFile( o.out.c_str(), got); sx_assert( have, "the output is written to the file"); } sx_assert( got.compare( 0, 3+o.luabin.size(), "#!" + o.luabin + "\n") == 0 && got.find( "require( \"" + am.typesystem() + "\")") != std::string::npos && got.find( "compilerdef = " + am.tostring()) != std::string::npos && (o.luabin.find( '%') != std::string::npos || got.find( '%') == std::string::npos), "the compiler has the program, the type system and the automaton"); bool cl = got.find( "cmdline") != std::string::npos; sx_assert( cl == !am.cmdline().empty() && (!cl || (got.find( "require( \"" + am.cmdline() + "\")") != std::string::npos && got.find( "\"" + am.language() + "\"") != std::string::npos)), "the module for the command line is used if declared"); sx_reach("default"); want = got; }
	}
	sx_assert( rc == 0, "a correct grammar is processed"); std::string wc = chop( want); if (o.hasout) { std::string x; bool have = getFile( o.out.c_str(), x); sx_assert( have, "the output is written to the file"); x = chop( x); sx_assert( out.empty() && x == wc, "the output is written to the file"); } else if (o.cmd) { std::string x = chop( out); sx_assert( x == wc, "the output is written to standard output"); } else sx_assert( out.empty(), "nothing is printed without command");
	if (build) { if (o.hasdbg) sx_assert( err.empty() && (havedbg || o.dbg != "dbg.x") && (o.dbg == o.out || o.dbg != "dbg.x" || df.find( "roductions") != std::string::npos), "the debug output is written to the file"); else sx_assert( o.verbose == !err.empty(), "debug output is printed if demanded"); } else sx_assert( err.empty(), "no errors are printed without one"); sx_reach("done");
}
static const char* W[] = {"in.g","-g","-s","-l","-V","-o","out.x","-oout.x","-d","dbg.x","-ddbg.x","-b","lua","-blua","-t","t.tpl","-tt.tpl","-h","-v","--","-","-x",
 "--output","--output=out.x","--luabin","--luabin=/l","--dbgout=dbg.x","--dbgout","--template=t.tpl","--template","--generate-compiler","--generate-template","--generate-language","--verbose","--version","--help","--output=","--outputs","-gg"};
static std::vector<std::string> pick( int n, int words, int from = 0) { std::vector<std::string> a; for (int i=0; i<n; ++i) a.push_back( W[ from + sx_pick( "word", words)]); return a; }
// any words in any order, the grammar last or not
extern "C" void h_words() { provide(); int n = sx_arg(0); auto a = pick( n, sx_arg(1)); int g = sx_arg(3); if (sx_arg(2)) a.push_back( "in.g"); run( a, g); sx_expect("done"); sx_expect("refused"); }
// combinations of options that make sense
extern "C" void h_sense()
{
	provide(); std::vector<std::string> a; int g = sx_arg(0); static const char* B[] = {"","-b/l","-b","--luabin=/l","--luabin"}, *O[] = {"","-oout.x","-o","--output=out.x","--output"}, *D[] = {"","-ddbg.x","-d","--dbgout=dbg.x","--dbgout"}, *T[] = {"","-tt.tpl","-t","--template=t.tpl","--template"}, *C[] = {"","-g","-s","-l"}; static const char* V[] = {"/l","out.x","dbg.x","t.tpl"};
	int cmd = sx_pick( "cmd", 4), at = sx_pick( "at", 2); if (!at && *C[cmd]) a.push_back( C[cmd]); int one = sx_arg(1), two = sx_arg(2); const char** S[] = {B,O,D,T}; for (int k : {one,two}) { int fs = sx_arg(3), v = sx_pick( "form", fs < 2 ? 3 : 5); if (fs == 1 && v) v += 2; if (*S[k][v]) { a.push_back( S[k][v]); if (v == 2 || v == 4) a.push_back( V[k]); } } if (at && *C[cmd]) a.push_back( C[cmd]); if (sx_pick( "verbose", 2)) a.push_back( "-V");
	a.push_back( "in.g"); if (sx_pick( "denied", 2)) { int k = sx_pick( "file", 2); DENIED = k ? "out.x" : "dbg.x"; } else DENIED = ""; run( a, g); sx_expect( g < 2 ? "done" : "wrong grammar");
}
// an argument of any bytes
extern "C" void h_bytes() { provide(); int n = sx_arg(0); std::string s( n, 0); for (int i=0; i<n; ++i) { char c; sx_sym( &c, 1, "c"); sx_assume( c != 0); s[i] = c; } static const char* P[] = {"","-","--","--output=","-o","--luabin","-b"}; std::vector<std::string> a{P[ sx_arg(1)] + s}; if (sx_pick( "cmd", 2)) a.push_back( "-g"); a.push_back( "in.g"); Options o( a); for (char c : o.out + o.dbg) sx_assume( c != '/'); run( a, 0); sx_expect( sx_arg(1) < 5 ? "refused" : "done"); }
// templates
extern "C" void h_template()
{
	static const char* PC[] = {"%luabin%","%typesystem%","%language%","%cmdline%","%","lua","%automaton%","%x%","luabin%"}; static const char* BIN[] = {"/l","%language%","%"}; provide(); std::string t, s; int n = sx_arg(0); for (int i=0; i<n; ++i) t += PC[ sx_pick( "piece", sx_arg(1))]; if (sx_arg(2)) { char c; sx_sym( &c, 1, "c"); t += c; } t += "$"; FILES["t.tpl"] = t;
	run( {"-t","t.tpl","-b",BIN[ sx_pick( "bin", 3)],"-g","in.g"}, 1); sx_expect("done");
}
// files around the size of the buffer they are read with; directories and missing files
extern "C" void h_files()
{
	provide(); static const int N[] = {4095,4096,4097,8191,8192,8193,0}; int k = sx_pick( "file", 10), g = sx_pick( "grammar", 2) ? 3 : 0; static std::string save; save = GR[g]; std::string cmd = sx_pick( "cmd", 2) ? "-l" : "-s"; std::vector<std::string> a{cmd};
	if (k < 6) { std::string pad( N[k] - save.size(), ' '); std::size_t at = sx_pick( "at", 2) ? pad.size() : 5000 < pad.size() ? 5000 : 4000; std::string t = pad.substr( 0, at) + save + pad.substr( at); FILES["big.g"] = t; a.push_back( "big.g"); } else a.push_back( k == 6 ? "missing.g" : k == 7 ? DIRECTORY : k == 8 ? "" : "/m/dir/none.g");
	run( a, 0); sx_expect("done"); sx_expect("wrong grammar"); sx_expect("refused");
}
