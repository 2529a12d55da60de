#include "sx.h"
#include "automaton_parser.hpp"
#include "languagedef.hpp"
#include "error.hpp"
#include <cstring>
#include <string>
using namespace mewa;
// Grammar texts with N open bytes: every text is read as written or refused
struct Ctx { const char *pre, *post; };
static const Ctx CTX[] = {
 /*0*/ {"S=X;X=",";"},
 /*1*/ {"S=X;X","'a';"},
 /*2*/ {"S=X;X='a'(",");"},
 /*3*/ {"S=X;X='a'(f{","});"},
 /*4*/ {"T:",";S=T;"},
 /*5*/ {"%COMMENT",";S='a';"},
 /*6*/ {"","S='a';"},
 /*7*/ {"S=X;X='a'","'b';"},
 /*8*/ {"%indentl A B C ",";S='a'A B C;"},
 /*9*/ {"%","'l';S='a';"},
 /*10*/ {"S=X;X/L","='a';"},
};
static const char* ALPH[] = {nullptr,"XY'\"|;(/=a","Xf>{}() 1.-","ab=,1'\"f{}-","'\"a1;: \\","'a\"b;\n1 ","#/*@'a;\nS%","ab=:;(/LR19","0123456789","LlanguageA","S=;X'a|:T%"};
struct Token { enum Id {End,Bad,Ident,Number,Prio,Dq,Sq,Call,Op} id; std::string val; int line; };
struct Ref
{
	const char* s; int pos = 0, line = 1; bool bad = false; int badline = 0; Token t;
	bool sp( unsigned char c) { return (c <= 32) & (c != 0); }
	bool al( unsigned char c) { return ((c >= 'a') & (c <= 'z')) | ((c >= 'A') & (c <= 'Z')) | (c == '_'); }
	bool di( unsigned char c) { return (c >= '0') & (c <= '9'); }
	int callend( int p) { while (al( s[p]) || di( s[p]) || s[p] == '.') ++p; return p; }
	int strend( int p)
	{
		char q = s[p++];
		for (;;)
		{
			if (s[p] == 0 || s[p] == '\n') return -1;
			if (s[p] == q) return p+1;
			if (s[p] == '\\') { ++p; if (s[p] == 0 || s[p] == '\n' || s[p] == q) return -1; } // a quote cannot be escaped
			++p;
		}
	}
	void next()
	{
		for (;;)
		{
			while (sp( s[pos])) { line += s[pos] == '\n'; ++pos; }
			if (s[pos] == '#' || (s[pos] == '/' && s[pos+1] == '/')) { while (s[pos] && s[pos] != '\n') ++pos; continue; }
			if (s[pos] == '/' && s[pos+1] == '*')
			{
				int p = pos+2; while (s[p] && !(s[p] == '*' && s[p+1] == '/')) ++p;
				if (!s[p]) { t = {Token::Bad,"",line}; return; }
				for (; pos < p+2; ++pos) line += s[pos] == '\n';
				continue;
			}
			break;
		}
		char c = s[pos]; int e = pos+1; t.line = line; t.id = Token::Op;
		if (!c) { t = {Token::End,"",line}; return; }
		if (al( c))
		{
			e = callend( pos); t.id = Token::Call; int i = pos; while (al( s[i]) || di( s[i])) ++i;
			if (i == e) t.id = Token::Ident;
		}
		else if (c == '-' && al( s[pos+1])) { e = callend( pos+1); t.id = Token::Call; }
		else if (di( c)) { while (di( s[e])) ++e; t.id = Token::Number; if (s[e] == 'L' || s[e] == 'R') { ++e; t.id = Token::Prio; } }
		else if (c == '"' || c == '\'') { e = strend( pos); if (e < 0) { t = {Token::Bad,"",line}; return; } t.id = c == '"' ? Token::Dq : Token::Sq; t.val = std::string( s+pos+1, e-pos-2); pos = e; return; }
		else if ((c == '{' && s[pos+1] == '}') || (c == '>' && s[pos+1] == '>') || ((unsigned char)c == 0xCE && (unsigned char)s[pos+1] == 0xB5)) e = pos+2;
		else if ((unsigned char)c == 0xE2 && (unsigned char)s[pos+1] == 0x86 && (unsigned char)s[pos+2] == 0x92) e = pos+3;
		else if (c != '%' && c != '/' && c != '=' && c != ':' && c != ';' && c != '{' && c != '}' && c != ',' && c != '(' && c != ')' && c != '|') { t = {Token::Bad,"",line}; return; }
		t.val = std::string( s+pos, e-pos); pos = e;
	}
	bool op( const char* o) { return t.id == Token::Op && t.val == o; }
	bool error() { if (!bad) { bad = true; badline = t.line; } return false; }
	// the definitions
	std::string language, typesystem, cmdline; Lexer lexer;
	struct Elem { std::string name; bool symbol; int type, index; };
	struct Prod { std::string left; std::vector<Elem> right; int pv, pa, line; std::string fn, arg; int argtype; int scope; bool call; };
	std::vector<Prod> prods; std::vector<std::string> nts;
	bool num( const std::string& v, int max, int& r)
	{
		long long x = 0; if (v.empty()) return false;
		for (char c : v) { if (!di( c)) return false; x = x*10 + (c-'0'); if (x > 0x7fffffff) return false; }
		if (max && x >= max) return false;
		r = (int)x; return true;
	}
	static bool ieq( const std::string& a, const char* b)
	{
		std::size_t i = 0; for (; i < a.size() && b[i]; ++i) { char c = a[i]; if (c >= 'a' && c <= 'z') c -= 32; if (c != b[i]) return false; }
		return i == a.size() && !b[i];
	}
	bool attributes( Prod& p)	// after '('
	{
		if (op( ">>") || op( "{}")) { p.scope = op( ">>") ? 1 : 2; next(); if (op( ">>") || op( "{}")) return error(); }
		if (op( ")")) { next(); return true; }
		if (t.id != Token::Ident && t.id != Token::Call) return error();
		p.call = true; p.fn = t.val; next();
		if (t.id == Token::Ident || t.id == Token::Call || t.id == Token::Number) { p.arg = t.val; p.argtype = 2; next(); }
		else if (t.id == Token::Dq || t.id == Token::Sq) { p.arg = t.val; p.argtype = 1; next(); }
		else if (op( "{"))
		{
			p.argtype = 2; p.arg = "{";
			for (;;)
			{
				next(); if (t.id != Token::Ident) return error();
				p.arg += t.val; next(); if (!op( "=")) return error();
				p.arg += "="; next();
				if (t.id == Token::Ident || t.id == Token::Number) p.arg += t.val;
				else if (t.id == Token::Dq) p.arg += "\"" + t.val + "\"";
				else if (t.id == Token::Sq) p.arg += "'" + t.val + "'";
				else return error();
				next();
				if (op( ",")) { p.arg += ","; continue; }
				if (op( "}")) { p.arg += "}"; break; }
				return error();
			}
			next();
		}
		if (!op( ")")) return error();
		next(); return true;
	}
	bool rule( const std::string& name)
	{
		int pv = 0, pa = 0;
		if (op( "/"))
		{
			next(); std::string v = t.val;
			if (t.id != Token::Ident && t.id != Token::Prio && t.id != Token::Number) return error();
			if (v[0] == 'L' || v[0] == 'R') { pa = v[0] == 'L' ? 1 : 2; v = v.substr( 1); if (v.empty()) v = "0"; }
			else if (v.back() == 'L' || v.back() == 'R') { pa = v.back() == 'L' ? 1 : 2; v.pop_back(); }
			if (!num( v, 32, pv)) return error();
			next();
			if (!op( "=") && !op( "→")) return error();
		}
		bool known = false; for (auto& n : nts) known |= n == name;
		if (!known) nts.push_back( name);
		for (;;)
		{
			Prod p; p.left = name; p.pv = pv; p.pa = pa; p.line = t.line; p.argtype = 0; p.scope = 0; p.call = false;
			next();
			bool eps = op( "ε"); if (eps) next();
			while (!eps)
			{
				if (t.id == Token::Ident) p.right.push_back( {t.val,true,0,0});
				else if (t.id == Token::Dq || t.id == Token::Sq)
				{
					try { if (!lexer.lexemId( t.val)) lexer.defineLexem( t.val); } catch (const Error&) { return error(); }
					p.right.push_back( {t.val,false,0,0});
				}
				else break;
				next();
			}
			if (op( "(")) { next(); if (!attributes( p)) return false; }
			prods.push_back( p);
			if (op( "|")) continue;
			if (op( ";")) return true;
			return error();
		}
	}
	bool command()
	{
		next(); if (t.id != Token::Ident) return error();
		std::string cmd = t.val; std::vector<std::string> a;
		for (next(); t.id == Token::Ident || t.id == Token::Number || t.id == Token::Dq || t.id == Token::Sq; next()) a.push_back( t.val);
		if (!op( ";")) return error();
		int n; if (ieq( cmd, "COMMENT")) for (auto const& x : a) if (x.empty()) return error(); // a comment needs marks
		try {
			if (ieq( cmd, "LANGUAGE") && a.size() == 1) language = a[0];
			else if (ieq( cmd, "TYPESYSTEM") && a.size() == 1) typesystem = a[0];
			else if (ieq( cmd, "CMDLINE") && a.size() == 1) cmdline = a[0];
			else if (ieq( cmd, "IGNORE") && a.size() == 1) lexer.defineIgnore( t.line, a[0]);
			else if (ieq( cmd, "BAD") && a.size() == 1) lexer.defineBadLexem( t.line, a[0]);
			else if (ieq( cmd, "COMMENT") && a.size() == 1) lexer.defineEolnComment( t.line, a[0]);
			else if (ieq( cmd, "COMMENT") && a.size() == 2) lexer.defineBracketComment( t.line, a[0], a[1]);
			else if (ieq( cmd, "INDENTL") && a.size() == 4 && num( a[3], 0, n)) lexer.defineIndentLexems( t.line, a[0], a[1], a[2], n);
			else return error();
		} catch (const Error&) { return error(); }
		return true;
	}
	bool lexem( const std::string& name)
	{
		next(); if (t.id != Token::Dq && t.id != Token::Sq) return error();
		std::string pat = t.val; int sel = 0;
		next(); if (t.id == Token::Number) { if (!num( t.val, 0, sel)) return error(); next(); }
		if (!op( ";")) return error();
		try { lexer.defineLexem( t.line, name, pat, sel); } catch (const Error&) { return error(); }
		return true;
	}
	bool grammar()
	{
		for (next(); t.id != Token::End; next())
		{
			if (op( "%")) { if (!command()) return false; }
			else if (t.id == Token::Ident)
			{
				std::string name = t.val; next();
				if (op( ":")) { if (!lexem( name)) return false; }
				else if (op( "/") || op( "=") || op( "→")) { if (!rule( name)) return false; }
				else return error();
			}
			else return error();
		}
		std::vector<bool> used( nts.size(), false); int starts = 0;
		for (auto& p : prods)
		{
			if (lexer.lexemId( p.left)) return error();
			if (p.left == nts[0]) ++starts;
			for (auto& e : p.right)
			{
				int nt = -1; for (std::size_t i=0; i<nts.size(); ++i) if (nts[i] == e.name && e.symbol) nt = i;
				int id = lexer.lexemId( e.name);
				if (nt >= 0) { if (id) return error(); used[nt] = true; e.type = 1; e.index = nt+1; }
				else { if (!id) return error(); e.type = 2; e.index = id; }
			}
		}
		if (starts != 1 || used[0]) return error();
		for (std::size_t i=1; i<used.size(); ++i) if (!used[i]) return error();
		for (std::size_t i=0; i<prods.size(); ++i) for (std::size_t k=0; k<i; ++k)
		{
			Prod &a = prods[i], &b = prods[k]; bool eq = a.left == b.left && a.pv == b.pv && a.pa == b.pa && a.right.size() == b.right.size();
			for (std::size_t j=0; eq && j<a.right.size(); ++j) eq = a.right[j].name == b.right[j].name && a.right[j].symbol == b.right[j].symbol;
			if (eq) return error();
		}
		return true;
	}
};
// arg0 context, arg1 alphabet, arg2 number of open bytes, arg3 1: a line break in front
extern "C" void h_syntax()
{
	const Ctx& c = CTX[ sx_arg(0)]; const char* alph = ALPH[ sx_arg(1)]; int N = sx_arg(2);
	static char text[64]; int n = 0;
	if (sx_arg(3)) text[n++] = '\n';
	for (const char* p=c.pre; *p; ++p) text[n++] = *p;
	for (int i=0; i<N; ++i)
	{
		sx_sym( text+n, 1, "c"); bool ok = !alph && text[n] != 0;
		if (alph) for (const char* a=alph; *a; ++a) ok |= text[n] == *a;
		sx_assume( ok); ++n;
	}
	for (const char* p=c.post; *p; ++p) text[n++] = *p;
	text[n] = 0;
	std::string source( text, n);
	LanguageDef* def = nullptr; int errline = 0;
	try { def = new LanguageDef( parseLanguageDef( source)); }
	catch (const Error& e) { errline = e.location().line(); sx_assert( e.code() != Error::LogicError, "no internal error"); }
	Ref ref; ref.s = text; bool ok = ref.grammar();
	sx_assert( ok == (def != nullptr), "a text is accepted exactly if it is a grammar");
	if (!ok && !def) { sx_assert( errline == ref.badline, "the error is located in the line of the offending token"); sx_reach("refused"); return; }
	if (!ok || !def) return;
	sx_reach("accepted");
	sx_assert( def->language == ref.language && def->typesystem == ref.typesystem && def->cmdline == ref.cmdline, "the settings are those of the text");
	sx_assert( def->nonterminals == ref.nts, "the nonterminals are those of the text in their order");
	bool same = def->prodlist.size() == ref.prods.size();
	for (std::size_t i=0; same && i<ref.prods.size(); ++i)
	{
		auto& a = def->prodlist[i]; auto& b = ref.prods[i];
		same = a.left.name() == b.left && a.left.type() == ProductionNode::NonTerminal && a.right.size() == b.right.size() && a.line == b.line;
		for (std::size_t k=0; same && k<b.right.size(); ++k) same = a.right[k].name() == b.right[k].name && (int)a.right[k].type() == b.right[k].type && a.right[k].index() == b.right[k].index && a.right[k].symbol() == b.right[k].symbol;
	}
	sx_assert( same, "the rules are those of the text"); if (!same) return;
	for (std::size_t i=0; i<ref.prods.size(); ++i)
	{
		auto& a = def->prodlist[i]; auto& b = ref.prods[i];
		sx_assert( a.priority.value == b.pv && (int)a.priority.assoziativity == b.pa, "a rule has the priority written");
		sx_assert( (int)a.scope == b.scope, "a rule has the scope attribute written");
		bool ok = b.call ? a.callidx > 0 && a.callidx <= (int)def->calls.size() : a.callidx == 0;
		if (ok && b.call) { auto& k = def->calls[ a.callidx-1]; ok = k.function() == b.fn && k.arg() == b.arg && (int)k.argtype() == b.argtype; }
		sx_assert( ok, "a rule has the function and argument written");
	}
	auto d1 = def->lexer.getDefinitions(), d2 = ref.lexer.getDefinitions(); same = d1.size() == d2.size();
	for (std::size_t i=0; same && i<d1.size(); ++i) same = d1[i].type() == d2[i].type() && d1[i].id() == d2[i].id() && d1[i].line() == d2[i].line() && d1[i].select() == d2[i].select()
		&& d1[i].bad() == d2[i].bad() && d1[i].pattern() == d2[i].pattern() && d1[i].activation() == d2[i].activation();
	sx_assert( same && def->lexer.nofTerminals() == ref.lexer.nofTerminals(), "the lexer is the one declared");
	sx_expect("accepted"); sx_expect("refused");
}
