#include "sx.h"
#include "lexer.hpp"
#include "error.hpp"
#include <cstring>
using namespace mewa;
static inline bool isSpace( unsigned char c) { return (c <= 32) & (c != 0); }
static inline bool isDigit( unsigned char c) { return (c >= '0') & (c <= '9'); }
static inline bool isAlpha( unsigned char c) { return ((c >= 'a') & (c <= 'z')) | ((c >= 'A') & (c <= 'Z')) | (c == '_'); }
// source of n arbitrary bytes without zero; the first pre bytes fixed
// alphabets the texts are taken from; 0: all bytes
static const char* ALPHA[16] = {nullptr,"09azx.","\"\n x\\","=~.if","\xC3\xA9\xE2\x82z ","/*\n a","#*\na","a \t\n","<-\n >a","\"ab\n","ab\n ","'=a\n ","a \n#/*","/*<->\na","/*\n-","ab=\n"};
template <std::size_t N> static void anySource( char (&src)[N], int n, int alphabet)
{
	for (int i=0; i<n; ++i)
	{
		sx_sym( src+i, 1, "c");
		bool ok = alphabet == 0 && src[i] != 0;
		if (alphabet) for (const char* a = ALPHA[ alphabet]; *a; ++a) ok |= src[i] == *a;
		sx_assume( ok);
	}
	src[n] = 0;
}
struct Tok { int id, at, len; };
// hand written matchers of the patterns used
enum { IDENT=1, UINT, FLOAT, ILLEGAL, STR, ALT, NKW };
static int mIdent( const char* s) { int i=0; if (!isAlpha( s[0])) return 0; while (isAlpha( s[i]) | isDigit( s[i])) ++i; return i; }
static int mUint( const char* s) { int i=0; while (isDigit( s[i])) ++i; return i; }
static int mFloat( const char* s) { int i=mUint( s); if (s[i] != '.') return 0; int k = mUint( s+i+1); return k ? i+1+k : 0; }
static int mIllegal( const char* s) { int i=mUint( s); return i && isAlpha( s[i]) ? i+1 : 0; }
static int mStr( const char* s) { if (s[0] != '"') return 0; int i=1; while (s[i] && s[i] != '"' && s[i] != '\n') ++i; return s[i] == '"' ? i+1 : 0; }
static int mAlt( const char* s) { if (s[0] != 'x') return 0; int k = mUint( s+1); return k ? 1+k : 0; }
static int mIgnore( const char* s) { int i=0; while (s[i] == '~') ++i; return i; }
static int mKey( const char* s, const char* k) { int i=0; while (k[i] && s[i] == k[i]) ++i; return k[i] ? 0 : i; }
static const char* KEYS[5] = {"if","=","==",".","~~"};
static const char* PAT[6] = {"[a-zA-Z_]+[a-zA-Z_0-9]*","[0-9]+","[0-9]*[.][0-9]+","[0-9]+[A-Za-z_]","[\"]([^\"\\n]*)[\"]","[x][0-9]+"};
static const char* NAME[6] = {"IDENT","UINT","FLOAT","ILLEGAL","STR","ALT"};

// Every source text is split into the longest matches, keywords first, in order, nothing lost; arg0 length of the text, arg1 alphabet
extern "C" void h_tokens()
{
	int N = sx_arg(0);
	Lexer lexer; int id[6], kid[5];
	for (int k=0; k<6; ++k) id[k] = lexer.defineLexem( k+1, NAME[k], PAT[k], k==4 ? 1 : 0);
	for (int k=0; k<5; ++k) kid[k] = lexer.defineLexem( KEYS[k]);
	lexer.defineIgnore( 20, "[~]+");
	lexer.defineBadLexem( 21, "BAD");
	for (int k=0; k<6; ++k) { sx_assert( id[k] > 0 && lexer.lexemId( NAME[k]) == id[k] && lexer.lexemName( id[k]) == NAME[k] && !lexer.isKeyword( id[k]), "a lexeme has the name and number of its definition"); }
	for (int k=0; k<5; ++k) { sx_assert( kid[k] > 0 && lexer.lexemId( KEYS[k]) == kid[k] && lexer.isKeyword( kid[k]), "a keyword has the name and number of its definition"); }
	char src[16]; anySource( src, N, sx_arg(1));
	Scanner scanner( std::string_view( src, N));
	int pos = 0, line = 1;
	for (int n=0; n<=N; ++n)
	{
		Lexem lx = lexer.next( scanner);
		// expected token
		int best = 0, which = -1; // which: index of pattern, 10+k keyword, 20 ignored
		for (;;)
		{
			while (isSpace( src[pos])) { line += src[pos] == '\n'; ++pos; }
			if (pos >= N) break;
			best = 0; which = -1; const char* s = src+pos;
			int l[6] = {mIdent( s), mUint( s), mFloat( s), mIllegal( s), mStr( s), mAlt( s)};
			for (int k=0; k<6; ++k) if (l[k] > best) { best = l[k]; which = k; }
			for (int k=0; k<5; ++k) { int m = mKey( s, KEYS[k]); if (m && m >= best) { best = m; which = 10+k; } }
			if (mIgnore( s) > best) { best = mIgnore( s); which = 20; }
			if (which != 20) break;
			pos += best;
		}
		if (pos >= N) { sx_assert( lx.empty() && lx.id() == 0, "the end of the text is reported when nothing but spaces and ignored tokens is left"); sx_reach("end"); break; }
		sx_assert( lx.line() == line, "a token has the number of the line it starts in");
		sx_assert( !lx.empty(), "the end is not reported before the end of the text"); if (lx.empty()) return;
		if (which < 0)
		{
			int len = 1; if ((unsigned char)src[pos] >= 128) while (((unsigned char)src[pos+len] & 0xC0) == 0x80) ++len;
			sx_assert( lx.id() == -1 && lx.name() == "BAD", "what no pattern matches is reported as error token");
			sx_assert( lx.value().data() == src+pos && (int)lx.value().size() == len, "an error token is one character"); sx_reach("bad");
			pos += len;
		}
		else
		{
			int eid = which >= 10 ? kid[ which-10] : id[ which];
			sx_assert( lx.id() == eid, "the token is the longest match, keywords first, then the first declared");
			sx_assert( lx.name() == (which >= 10 ? KEYS[ which-10] : NAME[ which]), "the token has the name of its definition");
			if (which == 4) { sx_assert( lx.value().data() == src+pos+1 && (int)lx.value().size() == best-2, "the value of a token is the selected part of the match"); sx_reach("select"); }
			else sx_assert( lx.value().data() == src+pos && (int)lx.value().size() == best, "the value of a token is the text matched");
			sx_reach( which >= 10 ? "keyword" : "token");
			for (int i=0; i<best; ++i) line += src[pos+i] == '\n';
			pos += best;
		}
	}
	sx_expect("end"); sx_expect("token"); if (sx_arg(1) == 0) { sx_expect("bad"); sx_expect("keyword"); sx_expect("select"); }
}
// Any order of definitions out of a pool: the longest match counts, keywords before others, then the first declared; arg0 number of definitions, arg1 length, arg2 the first of the pool taken
extern "C" void h_pool()
{
	int K = sx_arg(0), N = sx_arg(1);
	Lexer lexer; int kind[6], id[6]; static const char* KW[4] = {"a","==","ab","=a="};
	unsigned used = 0;
	for (int k=0; k<K; ++k)
	{
		kind[k] = k == 0 && sx_arg(2) >= 0 ? sx_arg(2) : sx_pick( "def", 13); id[k] = 0;
		switch (kind[k])
		{
			case 0: id[k] = lexer.defineLexem( k+1, "W", "[a-b]+"); break;
			case 1: id[k] = lexer.defineLexem( k+1, "Q", "a([a-b])", 1); break;
			case 2: id[k] = lexer.defineLexem( k+1, "W", "[=]+"); break;
			case 3: lexer.defineIgnore( k+1, "[ab][=]"); break;
			case 4: case 5: case 6: case 7: if (used & (1<<kind[k])) sx_assume( false); id[k] = lexer.defineLexem( KW[kind[k]-4]); break;
			case 8: id[k] = lexer.defineLexem( k+1, "E", "=(a*)=", 1); break;
			case 9: lexer.defineEolnComment( k+1, "==="); break;
			case 10: lexer.defineBracketComment( k+1, "a=", "b"); break;
			case 11: id[k] = lexer.defineLexem( k+1, "Q", "b?a"); break;
			case 12: id[k] = lexer.defineLexem( k+1, "T", "(=|b)(a|b)", 2); break;
		}
		used |= 1<<kind[k];
		for (int j=0; j<k; ++j) if (id[k] && id[j]) sx_assert( (id[k] == id[j]) == (lexer.lexemName( id[k]) == lexer.lexemName( id[j])) , "two definitions have the same number if they have the same name");
	}
	lexer.defineBadLexem( 21, "BAD");
	char src[16]; anySource( src, N, 15);
	Scanner scanner( std::string_view( src, N));
	int pos = 0, line = 1;
	for (int n=0; n<=N; ++n)
	{
		Lexem lx = lexer.next( scanner);
		int best, which, vo, vl; bool unclosed = false;
		for (;;)
		{
			while (pos < N && src[pos] == '\n') { ++pos; ++line; }
			best = 0; which = -1; vo = vl = 0; if (pos >= N) break;
			const char* s = src+pos; bool skipped = false;
			int comment = -1; for (int k=0; k<K && comment < 0; ++k) if ((kind[k] == 9 && mKey( s, "===")) || (kind[k] == 10 && mKey( s, "a="))) comment = kind[k];
			if (comment == 9) { while (pos < N && src[pos] != '\n') ++pos; sx_reach("comment"); continue; }
			if (comment == 10) { int e = pos+2; while (e < N && src[e] != 'b') ++e; if (e >= N) { unclosed = true; break; } for (; pos <= e; ++pos) line += src[pos] == '\n'; continue; }
			for (int k=0; k<K; ++k)
			{
				int l = 0, o = 0, v = -1;
				switch (kind[k])
				{
					case 0: while ((s[l] == 'a') | (s[l] == 'b')) ++l; break;
					case 1: if (s[0] == 'a' && ((s[1] == 'a') | (s[1] == 'b'))) { l = 2; o = 1; v = 1; } break;
					case 2: while (s[l] == '=') ++l; break;
					case 3: if (((s[0] == 'a') | (s[0] == 'b')) && s[1] == '=') l = 2; break;
					case 4: case 5: case 6: case 7: l = mKey( s, KW[kind[k]-4]); break;
					case 8: if (s[0] == '=') { int e = 1; while (s[e] == 'a') ++e; if (s[e] == '=') { l = e+1; o = 1; v = e-1; } } break;
					case 11: l = mKey( s, "ba"); if (!l) l = s[0] == 'a'; break;
					case 12: if (((s[0] == '=') | (s[0] == 'b')) && ((s[1] == 'a') | (s[1] == 'b'))) { l = 2; o = 1; v = 1; } break;
				}
				bool key = kind[k] >= 4 && kind[k] <= 7;
				if (l > best || (l == best && l && key)) { best = l; which = k; vo = o; vl = v < 0 ? l : v; }
			}
			if (which >= 0 && kind[which] == 3) { pos += best; skipped = true; sx_reach("ignored"); }
			if (!skipped) break;
		}
		sx_assert( lx.line() == line, "a token has the number of its line");
		if (unclosed) { sx_assert( lx.id() == -1, "a comment that is not closed is an error"); return; }
		if (pos >= N) { sx_assert( lx.empty() && lx.id() == 0, "the end is reported behind the last token"); sx_reach("end"); return; }
		if (which < 0) { sx_assert( lx.id() == -1 && lx.value().data() == src+pos && lx.value().size() == 1, "what no definition matches is an error token of one character"); sx_reach("bad"); ++pos; continue; }
		sx_assert( lx.id() == id[which], "the token is the longest match, keywords first, then the first declared");
		if (lx.id() != id[which]) return;
		sx_assert( lx.value().data() == src+pos+vo && (int)lx.value().size() == vl, "the value of a token is the selected part of the match");
		sx_reach("token");
		pos += best;
	}
	sx_expect("end"); sx_expect("bad"); sx_expect("token"); if (K > 1 && sx_arg(2) < 0) { sx_expect("ignored"); sx_expect("comment"); }
}
// Comments are skipped wherever a token may start, and lines are counted; arg0 length, arg1 alphabet, arg2 set of comments
extern "C" void h_comments()
{
	int N = sx_arg(0), CS = sx_arg(2);
	Lexer lexer;
	int ident = lexer.defineLexem( 1, "IDENT", "[a-z]+"), str = lexer.defineLexem( 1, "STR", "[\"][^\"]*[\"]"), op[4]; const char* OP[4] = {"/","*","<","-"};
	for (int k=0; k<4; ++k) op[k] = lexer.defineLexem( OP[k]);
	const char* blocks[6][2]; int nb = 0; const char* eolns[6]; int ne = 0;
	auto defBlock = [&]( const char* o, const char* c) { lexer.defineBracketComment( 2, o, c); blocks[nb][0] = o; blocks[nb++][1] = c; };
	auto defEoln = [&]( const char* o) { lexer.defineEolnComment( 3, o); eolns[ne++] = o; };
	if (CS == 0) { defBlock( "/*", "*/"); defEoln( "//"); }
	else if (CS == 1) { defEoln( "*"); defBlock( "#*", "*"); }
	else if (CS == 2) { defBlock( "<-", "->"); defEoln( "--"); }
	else for (int k=0; k<CS-1; ++k) switch (sx_pick( "comment", 6))	// any comments in any order
	{
		case 0: defBlock( "/*", "*/"); break;
		case 1: defBlock( "<*", "*>"); break;
		case 2: defBlock( "-\n", "\n/"); break;
		case 3: defEoln( "//"); break;
		case 4: defEoln( "<-"); break;
		case 5: defBlock( "--", "-"); break;
	}
	lexer.defineBadLexem( 4, "BAD");
	char src[16]; anySource( src, N, sx_arg(1));
	Scanner scanner( std::string_view( src, N));
	int pos = 0, line = 1;
	auto starts = [&]( const char* k) { int i=0; while (k[i] && src[pos+i] == k[i]) ++i; return !k[i]; };
	for (int n=0; n<=N+1; ++n)
	{
		Lexem lx = lexer.next( scanner);
		bool unclosed = false; const char* unclosedOpen = "";
		for (;;)
		{
			while (isSpace( src[pos])) { line += src[pos] == '\n'; ++pos; }
			bool skipped = false;
			for (int k=0; k<ne && !skipped; ++k) if (starts( eolns[k])) { while (pos < N && src[pos] != '\n') ++pos; sx_reach("line comment"); skipped = true; }
			for (int k=0; k<nb && !skipped; ++k) if (starts( blocks[k][0]))
			{
				int p = pos, ol = std::strlen( blocks[k][0]); unclosedOpen = blocks[k][0];
				for (int i=0; i<ol; ++i) line += src[pos+i] == '\n';
				int le = line;
				pos += ol;
				while (pos < N && !starts( blocks[k][1])) { line += src[pos] == '\n'; ++pos; }
				if (pos >= N) { unclosed = true; pos = p; line = le; break; }
				for (const char* c = blocks[k][1]; *c; ++c) { line += *c == '\n'; ++pos; }
				sx_reach("block comment"); skipped = true;
			}
			if (skipped) continue;
			break;
		}
		sx_assert( lx.line() == line, "tokens and the end have the number of their line, also behind comments");
		if (unclosed) { sx_assert( lx.id() == -1 && lx.value() == unclosedOpen, "a comment that is not closed is an error"); sx_reach("unclosed"); return; }
		if (pos >= N)
		{
			sx_assert( lx.empty() && lx.id() == 0, "the end is reported behind the last comment");
			Lexem again = lexer.next( scanner); sx_assert( again.empty() && again.id() == 0, "the end is final");
			sx_reach("end"); break;
		}
		sx_assert( !lx.empty(), "the end is not reported before the end of the text"); if (lx.empty()) return;
		int len = 0, eid = -1; while ((src[pos+len] >= 'a') & (src[pos+len] <= 'z')) ++len;
		if (len) eid = ident;
		else if (src[pos] == '"') { len = 1; while (src[pos+len] && src[pos+len] != '"') ++len; if (src[pos+len]) { ++len; eid = str; } else len = 1; }
		else { len = 1; for (int k=0; k<4; ++k) if (src[pos] == OP[k][0]) eid = op[k]; }
		sx_assert( lx.id() == eid && lx.value().data() == src+pos && (int)lx.value().size() == len, "what is not inside of a comment is tokenized");
		for (int i=0; i<len; ++i) line += src[pos+i] == '\n';
		pos += len;
	}
	sx_expect("line comment"); sx_expect("block comment"); sx_expect("unclosed"); sx_expect("end");
}
// comment symbols of any bytes, empty or not
extern "C" void h_comment_symbols()
{
	Lexer lexer; char o[3], c[3]; int no = sx_pick( "open", 3), nc = sx_pick( "close", 3);
	for (int i=0; i<no; ++i) { sx_sym( o+i, 1, "o"); sx_assume( o[i] != 0); }
	for (int i=0; i<nc; ++i) { sx_sym( c+i, 1, "c"); sx_assume( c[i] != 0); }
	bool block = sx_pick( "block", 2); int e = 0;
	try { if (block) lexer.defineBracketComment( 3, std::string_view( o, no), std::string_view( c, nc)); else lexer.defineEolnComment( 3, std::string_view( o, no)); } catch (const Error& x) { e = x.code(); }
	sx_assert( (e != 0) == (no == 0 || (block && nc == 0)), "a comment is refused exactly if its start or end symbol is empty");
	sx_reach( e ? "refused" : "accepted"); sx_expect("refused"); sx_expect("accepted");
}
// Indentation tokens: arg0 length, arg1 alphabet, arg2 tab size, arg3 with comments
extern "C" void h_indent()
{
	int N = sx_arg(0), TAB = sx_arg(2);
	Lexer lexer; int ident = lexer.defineLexem( 1, "IDENT", "[ab]");
	lexer.defineIndentLexems( 2, "IND", "END", "NL", TAB);
	if (sx_arg(3)) { lexer.defineEolnComment( 3, "#"); lexer.defineBracketComment( 3, "/*", "*/"); }
	int open = lexer.lexemId( "IND"), close = lexer.lexemId( "END"), nl = lexer.lexemId( "NL");
	sx_assert( open > 0 && close > 0 && nl > 0 && open != close && close != nl && open != nl && open != ident && close != ident && nl != ident, "the indentation tokens have numbers of their own");
	char src[48];
	if (sx_arg(1) >= 0) anySource( src, N, sx_arg(1)); else
	{
		// N lines, each indented by up to two tabs and then up to -arg1 blanks, or empty
		int L = N; N = 0;
		for (int i=0; i<L; ++i)
		{
			int tabs = sx_pick( "tabs", 3), blanks = sx_pick( "blanks", 1-sx_arg(1));
			for (int k=0; k<tabs; ++k) src[N++] = '\t';
			for (int k=0; k<blanks; ++k) src[N++] = ' ';
			if (!sx_pick( "empty", 2)) src[N++] = 'a';
			src[N++] = '\n';
		}
		src[N] = 0;
	}
	Scanner scanner( std::string_view( src, N));
	int stk[16], sp = 0, pos = 0, line = 1; stk[sp++] = 0;
	auto expectTok = [&]( int id, const char* msg) { Lexem lx = lexer.next( scanner); sx_assert( lx.id() == id && lx.line() == line, msg); return lx.id() == id; };
	bool first = true; int col = 0;
	while (pos < N)
	{
		unsigned char c = src[pos];
		if (c == '\n') { ++line; first = true; col = 0; ++pos; continue; }
		if (c <= 32) { col += c == '\t' ? TAB : 1; ++pos; continue; }
		if (sx_arg(3) && c == '#') { while (pos < N && src[pos] != '\n') ++pos; sx_reach("comment"); continue; }
		if (sx_arg(3) && c == '/' && src[pos+1] == '*')
		{
			int e = pos+2; while (e+1 < N && !(src[e] == '*' && src[e+1] == '/')) ++e;
			if (e+1 >= N) return; // not closed: error
			first = false; // a token behind a comment is not the first in its line, unless the comment has more lines
			for (; pos < e+2; ++pos) if (src[pos] == '\n') ++line;
			continue;
		}
		if (c != 'a' && c != 'b') return; // error token
		if (first)
		{
			if (col > stk[sp-1]) { if (!expectTok( open, "an indentation increased opens a block")) return; stk[sp++] = col; sx_reach("open"); }
			else
			{
				while (col < stk[sp-1]) { if (!expectTok( close, "an indentation decreased closes a block")) return; --sp; sx_reach("close"); }
				if (col > stk[sp-1]) { if (!expectTok( open, "an indentation between two levels opens a block in the outer one")) return; stk[sp++] = col; }
			}
			if (!expectTok( nl, "a new line is announced before its first token, behind a block opened or closed")) return;
			first = false;
		}
		Lexem lx = lexer.next( scanner);
		sx_assert( lx.id() == ident && lx.value().data() == src+pos && lx.line() == line, "the tokens follow"); if (lx.id() != ident) return;
		++pos; col += 1;
	}
	while (sp > 1) { if (!expectTok( close, "all blocks open are closed at the end")) return; --sp; sx_reach("closed at end"); }
	for (int i=0; i<2; ++i) { Lexem lx = lexer.next( scanner); sx_assert( lx.empty() && lx.id() == 0, "the end is reported behind all indentation tokens"); }
	sx_reach("end");
	sx_expect("open"); sx_expect("close"); sx_expect("closed at end"); sx_expect("end");
}
// No first character filter hides a match: pattern of N characters from an alphabet, followed by a fixed tail, text of up to two arbitrary characters; arg0 N, arg1 alphabet of patterns, arg2 prefix
static const char* RXALPHA[8] = {"ab|?*()[]","ab-^]\\","ab{}01,","ab|()*","a.$^b|","-^b]:","?:=!ab","ab|*?+"};
static const char* RXPRE[8] = {"","[","(","[a","a{","(?","[[:alpha:]","([a]*"};
static const char* RXPOST[8] = {"","]",")","]","}b",")a","]*b",")b"};
extern "C" void h_activation()
{
	int N = sx_arg(0), A = sx_arg(1), P = sx_arg(2);
	char pat[40]; std::strcpy( pat, RXPRE[P]); int n = std::strlen( pat);
	for (int i=0; i<N; ++i)
	{
		sx_sym( pat+n+i, 1, "p");
		bool ok = false; for (const char* a = RXALPHA[A]; *a; ++a) ok |= pat[n+i] == *a;
		sx_assume( ok);
		pat[n+i] = sx_concretize( pat[n+i]);
	}
	std::strcpy( pat+n+N, RXPOST[P]);
	char src[3]; sx_sym( src, 2, "s"); sx_assume( (unsigned char)src[0] > 32); src[2] = 0;
	int size = src[1] ? 2 : 1;
	try
	{
		LexemDef def( 1, "X", pat, 1, false, 0);
		auto mm = def.match( src, size);
		sx_reach("pattern");
		if (mm.second)
		{
			sx_assert( def.activate().test( (unsigned char)src[0]), "a pattern is tried on every character it can start with");
			sx_reach("match");
			if (sx_arg(3))
			{
				Lexer lexer; int id = lexer.defineLexem( 1, "X", pat); lexer.defineBadLexem( 2, "BAD");
				Scanner scanner( std::string_view( src, size));
				Lexem lx = lexer.next( scanner);
				sx_assert( lx.id() == id && lx.value().data() == src && (int)lx.value().size() == mm.second, "a pattern that matches is the token");
				sx_reach("token");
			}
		}
	}
	catch (const std::regex_error&) { sx_reach("refused"); }
	catch (const Error& e)
	{
		sx_assert( e.code() == Error::IllegalFirstCharacterInLexer || e.code() == Error::SyntaxErrorInLexer, "a pattern not supported is refused with an error"); sx_reach("refused");
		bool valid = true; try { std::regex rx( pat); } catch (const std::regex_error&) { valid = false; }
		sx_assert( !valid || e.code() == Error::IllegalFirstCharacterInLexer, "a regular expression is not refused as not being one");
	}
	sx_expect("pattern"); sx_expect("match"); if (sx_arg(3)) sx_expect("token");
}
// Every operator or keyword is recognized; arg0 length, arg1 of special characters only
extern "C" void h_keyword()
{
	int N = sx_arg(0);
	char key[8];
	for (int i=0; i<N; ++i)
	{
		sx_sym( key+i, 1, "k"); bool ok = !sx_arg(1) && (unsigned char)key[i] > (i ? 31 : 32);
		if (sx_arg(1)) for (const char* a = "#{}[]()*+?.-\\|&^$/=a"; *a; ++a) ok |= key[i] == *a;
		sx_assume( ok);
	}
	key[N] = 0;
	char src[8]; std::memcpy( src, key, N+1); 
	sx_sym( src+N, 1, "t"); src[N+1] = 0; int size = src[N] ? N+1 : N;
	Lexer lexer; int id = lexer.defineLexem( std::string_view( src, N)); // a part of the text, as it comes from a grammar
	Scanner scanner( std::string_view( src, size));
	Lexem lx = lexer.next( scanner);
	sx_assert( lx.id() == id && lx.name() == key && lx.value().data() == src && (int)lx.value().size() == N, "a keyword is recognized where it is written");
	sx_reach("keyword");
	sx_expect("keyword");
}

// A lexer rebuilt from the list of its definitions behaves the same; arg0 number of definitions, arg1 length of the text
extern "C" void h_definitions()
{
	int K = sx_arg(0), N = sx_arg(1);
	Lexer lexer;
	bool indent = false;
	for (int k=0; k<K; ++k) switch (sx_pick( "def", 12))
	{
		case 0: lexer.defineLexem( k+1, "A", "[a]+"); break;
		case 1: lexer.defineLexem( k+1, "Q", "[#]([a-b]+)[#]", 1); break;
		case 2: lexer.defineLexem( k+1, "A", "[b]"); break;
		case 3: try { lexer.defineLexem( "#"); } catch (const Error& e) { sx_assume( false); } break;
		case 4: lexer.defineIgnore( k+1, "[#]+"); break;
		case 5: lexer.defineEolnComment( k+1, "##"); break;
		case 6: lexer.defineBracketComment( k+1, "#b", "a"); break;
		case 7: lexer.defineBadLexem( k+1, "BAD"); break;
		case 9: lexer.defineLexem( k+1, "H", "[#a]+"); break;
		case 10: lexer.defineEolnComment( k+1, "#"); break;
		case 11: lexer.defineBracketComment( k+1, "#", "a"); break;
		case 8: if (indent) sx_assume( false); indent = true; lexer.defineIndentLexems( k+1, "IND", "END", "NL", 4); break;
	}
	auto defs = lexer.getDefinitions();
	Lexer copy( defs);
	sx_assert( copy.nofTerminals() == lexer.nofTerminals(), "the copy has the same number of tokens");
	for (int i=1; i<=lexer.nofTerminals(); ++i) sx_assert( copy.lexemName( i) == lexer.lexemName( i) && copy.isKeyword( i) == lexer.isKeyword( i), "the copy has the same names of tokens");
	auto defs2 = copy.getDefinitions();
	sx_assert( defs.size() == defs2.size(), "the copy has the same definitions");
	for (std::size_t i=0; i<defs.size() && i<defs2.size(); ++i)
	{
		sx_assert( defs[i].type() == defs2[i].type() && defs[i].id() == defs2[i].id() && defs[i].select() == defs2[i].select() && defs[i].activation() == defs2[i].activation()
			&& defs[i].bad() == defs2[i].bad() && defs[i].pattern() == defs2[i].pattern(), "the copy has the same definitions");
	}
	char src[16]; static const char* al = "ab#\n ";
	for (int i=0; i<N; ++i) { sx_sym( src+i, 1, "c"); bool ok = false; for (const char* a = al; *a; ++a) ok |= src[i] == *a; sx_assume( ok); }
	src[N] = 0;
	Scanner s1( std::string_view( src, N)), s2( std::string_view( src, N));
	for (int i=0; i<3*N+3; ++i)
	{
		Lexem a = lexer.next( s1), b = copy.next( s2);
		sx_assert( a.id() == b.id() && a.name() == b.name() && a.line() == b.line() && a.value() == b.value() && s1.current() == s2.current(), "the copy splits every text the same way");
		if (a.empty()) { sx_reach("end"); return; }
		sx_reach("token");
	}
	sx_expect("end"); sx_expect("token");
}
// Many keywords with common beginnings; arg0 length, arg1 alphabet
static const char* OPS[] = {"+","++","+=","-","--","-=","->","->*","*","*=","/","/=","%","%=","=","==","===","!","!=","!==","<","<=","<=>","<<","<<=",">",">=",">>",">>=",">>>",">>>=","&","&&","&=","|","||","|=","^","^=","~","?","?.","??",":","::",".","..","...",",",";","(",")","[","]","{","}","if","in","int","i"};
static const char* OPALPHA[] = {"<=>","->*=",".?:","+-&|=","intf "};
extern "C" void h_many_keywords()
{
	int N = sx_arg(0); const int K = sizeof(OPS)/sizeof(*OPS); Lexer lexer; int id[K], rev = sx_pick( "reversed", 2); int ident = lexer.defineLexem( 1, "IDENT", "[a-z]+"); int arrow = lexer.defineLexem( 2, "ARROW", "[<][-]+[>]");
	for (int k=0; k<K; ++k) { int i = rev ? K-1-k : k; id[i] = lexer.defineLexem( OPS[i]); }
	for (int k=0; k<K; ++k) { sx_assert( lexer.lexemId( OPS[k]) == id[k] && lexer.isKeyword( id[k]), "each of many keywords has its name and number"); for (int j=0; j<k; ++j) sx_assert( id[j] != id[k], "the numbers of many keywords are different"); }
	sx_assert( lexer.nofTerminals() == K+2 && !lexer.isKeyword( ident) && !lexer.isKeyword( arrow), "all of many tokens are counted");
	char src[16]; for (int i=0; i<N; ++i) { sx_sym( src+i, 1, "c"); bool ok = false; for (const char* a = OPALPHA[ sx_arg(1)]; *a; ++a) ok |= src[i] == *a; sx_assume( ok); } src[N] = 0;
	Scanner scanner( std::string_view( src, N)); int pos = 0;
	for (int n=0; n<=N; ++n)
	{
		Lexem lx = lexer.next( scanner); while (src[pos] == ' ') ++pos;
		if (pos >= N) { sx_assert( lx.empty() && lx.id() == 0, "the end is reported"); sx_reach("end"); break; }
		int best = 0, e = 0; const char* s = src+pos;
		while (s[best] >= 'a' && s[best] <= 'z') ++best; if (best) e = ident;
		if (*s == '<') { int i = 1; while (s[i] == '-') ++i; if (i > 1 && s[i] == '>') { best = i+1; e = arrow; } }
		for (int k=0; k<K; ++k) { int m = mKey( s, OPS[k]); if (m && m >= best) { best = m; e = id[k]; } }
		sx_assert( lx.id() == e && lx.value().data() == s && (int)lx.value().size() == best, "of many keywords the longest is taken"); if (lx.id() != e || !best) return;
		pos += best; sx_reach("token");
	}
	sx_expect("end"); sx_expect("token");
}
// Long tokens, comments and spaces; arg0 number of pieces
extern "C" void h_long()
{
	int K = sx_arg(0); Lexer lexer; int ident = lexer.defineLexem( 1, "IDENT", "[a-zA-Z_]+[a-zA-Z_0-9]*"), num = lexer.defineLexem( 2, "NUM", "[0-9]+"), strg = lexer.defineLexem( 3, "STR", "[\"]([^\"\\n]*)[\"]", 1), kw = lexer.defineLexem( "=="); lexer.defineIgnore( 4, "[~]+"); lexer.defineEolnComment( 5, "//"); lexer.defineBracketComment( 6, "/*", "*/");
	struct Ex { int id, len, line, at; } ex[16]; int n = 0, line = 1; std::string text; char c[2]; for (int i=0; i<2; ++i) { sx_sym( c+i, 1, "c"); sx_assume( (c[i] >= 'a') & (c[i] <= 'z')); }
	for (int k=0; k<K; ++k)
	{
		int len = sx_pick( "long", 2) ? 260 + 3*k : 1 + k; auto tok = [&]( int id, int skip) { ex[n++] = {id,len,line,(int)text.size()+skip}; };
		switch (sx_pick( "piece", 9))
		{
			case 0: tok( ident, 0); text.append( len, c[0]); text += ' '; break;
			case 1: tok( num, 0); text.append( len, '7'); text += ' '; break;
			case 2: tok( strg, 1); text += '"'; text.append( len, c[1]); text += "\""; break;
			case 3: text.append( len, '~'); break;
			case 4: text.append( len, '\n'); line += len; break;
			case 5: text.append( len, '\t'); text += ' '; break;
			case 6: text += "//"; text.append( len, c[0]); text += "\n"; ++line; break;
			case 7: text += "/*"; for (int i=0; i<len; ++i) text += i % 3 == 2 ? '\n' : i % 3 ? '*' : c[1]; text += "*/"; line += len / 3; break;
			default: len = 2; tok( kw, 0); text += "==";
		}
	}
	Scanner scanner( text);
	for (int i=0; i<n; ++i) { Lexem lx = lexer.next( scanner); sx_assert( lx.id() == ex[i].id && lx.line() == ex[i].line && lx.value().data() == text.data() + ex[i].at && (int)lx.value().size() == ex[i].len, "tokens of any length are found with their line and value"); }
	Lexem lx = lexer.next( scanner); sx_assert( lx.empty() && lx.line() == line, "the end is reported in the last line"); sx_reach( n ? "tokens" : "none"); sx_expect("tokens"); sx_expect("none");
}
