#include "sx.h"
#include "error.hpp"
#include <cstring>
#include <string>
using namespace mewa;
static const int LINE[] = {0,1,7,10,4096,2147483647};
static const char* FILES[] = {"","a.c","dir/x y.src","it's"};
static const char* ARG[] = {"","x","at line 3","in file \"f\"","a: b",": ","\"q\"","#305 \"z\"","Error at line 2: x"," ","%s%n"};
static void same( const Error& e, int code, int line, const std::string& file, const std::string& arg)
{
	sx_assert( (int)e.code() == code, "an error read back has the same code");
	sx_assert( e.location().line() == line, "an error read back has the same line");
	sx_assert( file == e.location().filename(), "an error read back has the same file name");
	sx_assert( e.arg() ? arg == e.arg() : arg.empty(), "an error read back has the same argument");
}
static Error make( int kind, int code, const std::string& arg, const Error::Location& loc)
{
	if (kind == 0) return Error( (Error::Code)code, arg.c_str(), loc);
	if (kind == 1) return Error( (Error::Code)code, arg, loc);
	return Error( (Error::Code)code, std::string_view( arg), loc);
}
static void roundtrip( int kind, int code, int line, const std::string& file, const std::string& arg)
{
	Error e = make( kind, code, arg, Error::Location( file, line));
	same( e, code, line, file, arg);
	std::string text( e.what()); Error r = Error::parseError( text.c_str());
	same( r, code, line, file, arg); sx_assert( text == r.what(), "an error read back has the same message");
	Error c( e); same( c, code, line, file, arg); sx_assert( text == c.what(), "a copy of an error has the same message");
	Error l( e, Error::Location( 3)); same( l, code, 3, "", arg);
	if (code != Error::CompileError)
	{
		sx_assert( text.compare( 0, 1, "#") == 0 && text.find( Error::code2String( code)) != std::string::npos, "the message contains the description of the code");
	}
	sx_reach("round trip");
}
static bool known( int code) { return std::strcmp( Error::code2String( code), "Unknown error") != 0; }
// every code: arg0 number of lines, arg1 number of arguments
extern "C" void h_codes()
{
	short code; sx_sym( &code, sizeof(code), "code"); sx_assume( code >= 300 && code < 700); code = sx_concretize( code);
	sx_assume( known( code));
	int line = LINE[ sx_pick( "line", sx_arg(0))], kind = sx_pick( "kind", 3); std::string file( line ? FILES[ sx_pick( "file", 4)] : ""), arg( ARG[ sx_pick( "arg", sx_arg(1))]);
	roundtrip( kind, code, line, file, arg); sx_expect("round trip");
}
// arg0 length of the file name, arg1 length of the argument, arbitrary bytes
extern "C" void h_texts()
{
	static const int CODE[] = {Error::CompileError, Error::RuntimeException, Error::UnexpectedTokenNotOneOf};
	char f[16], a[16]; int n = sx_arg(0), m = sx_arg(1);
	for (int i=0; i<n; ++i) { sx_sym( f+i, 1, "f"); sx_assume( f[i] != 0 && f[i] != '"'); }
	for (int i=0; i<m; ++i) { sx_sym( a+i, 1, "a"); sx_assume( a[i] != 0); }
	roundtrip( sx_pick( "kind", 3), CODE[ sx_pick( "code", 3)], n ? 12 : 12*sx_pick( "located", 2), std::string( f, n), std::string( a, m)); sx_expect("round trip");
}
// long names and arguments are cut at the limits documented by the sizes of the buffers
extern "C" void h_long()
{
	short code; sx_sym( &code, sizeof(code), "code"); sx_assume( code >= 300 && code < 700); code = sx_concretize( code); sx_assume( known( code));
	static const int FL[] = {0,1,78,79,80,200}; static const int AL[] = {0,1,510,511,512,700};
	int fl = FL[ sx_pick( "flen", 6)], al = AL[ sx_pick( "alen", 6)], kind = sx_pick( "kind", 3);
	std::string file( fl, 'f'), arg( al, 'a');
	Error e = make( kind, code, arg, Error::Location( file, 2147483647));
	if (file.size() > 79) file.resize( 79);
	if (kind == 2 && arg.size() > 511) arg.resize( 511);
	same( e, code, 2147483647, file, arg); Error r = Error::parseError( e.what()); same( r, code, 2147483647, file, arg); sx_reach("round trip"); sx_expect("round trip");
}
static const char* PRE[] = {"","#","#305 \"","#403 \"","#557 \"x","Error at line ","Error at line 1","at line 7","#590 \"Lua call error","Error at line 7 in file "};
// arg0 prefix, arg1 number of arbitrary bytes: what is not a message of an error is the argument of a runtime error
extern "C" void h_foreign()
{
	std::string text( PRE[ sx_arg(0)]); char c[16]; int n = sx_arg(1);
	for (int i=0; i<n; ++i) { sx_sym( c+i, 1, "c"); if (!c[i]) { n = i; break; } }
	text.append( c, n);
	Error e = Error::parseError( text.c_str());
	if (e.code() == Error::RuntimeException) { if (text.compare( 0, 8, "at line ") == 0) sx_reach("with line"); else if (text.compare( 0, 4, "#403") != 0) { sx_assert( e.arg() && text == e.arg(), "a text that is not an error is kept as argument"); sx_reach("foreign"); } }
	else if (e.code() != Error::Ok) { sx_assert( text[0] == '#' || text.compare( 0, 14, "Error at line ") == 0, "only the text of an error is an error"); sx_reach("error"); }
	else sx_assert( text.empty() || text[0] == '#', "no text is no error");
	sx_reach("parsed");
}
