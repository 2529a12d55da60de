From ed5fff99c0800351a7f0455db7947072f06096c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:44 +0000
Subject: [PATCH 01/45] fix: TagMask operator| keeps the tags already in the
 mask

---
 src/scope.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scope.hpp b/src/scope.hpp
index 611430a..bc825ed 100644
--- a/src/scope.hpp
+++ b/src/scope.hpp
@@ -775,7 +775,7 @@ public:
 	}
 	TagMask operator | (int tag_) const
 	{
-		TagMask rt;
+		TagMask rt( *this);
 		rt.add( tag_);
 		return rt;
 	}
-- 
2.43.0


From 857d51ccc1079ba1bc1a35242d317aaefba12afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:44 +0000
Subject: [PATCH 02/45] fix: reject definitions in an empty scope instead of
 running past the end of the map

---
 src/scope.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/scope.hpp b/src/scope.hpp
index bc825ed..d92863d 100644
--- a/src/scope.hpp
+++ b/src/scope.hpp
@@ -428,6 +428,7 @@ public:
 
 	void set( const Scope scope, const VALTYPE value)
 	{
+		if (scope.end() <= scope.start()) throw Error( Error::InvalidBoundary, scope.tostring());
 		auto rightnode = m_map.upper_bound( scope.end());
 		int uplink = (rightnode == m_map.end()) ? -1 : m_invtree.rightNeighborUpLink( rightnode->second, scope);
 		int newindex = -1;
@@ -605,6 +606,7 @@ public:
 
 	bool set( const Scope scope, const KEYTYPE& key, const VALTYPE& value)
 	{
+		if (scope.end() <= scope.start()) throw Error( Error::InvalidBoundary, scope.tostring());
 		ScopedKey<KEYTYPE> sk( key, scope.end());
 		auto rightnode = m_map.upper_bound( sk);
 		int uplink = (rightnode == m_map.end() || rightnode->first.key() != key)
@@ -640,6 +642,7 @@ public:
 
 	VALTYPE getOrSet( const Scope scope, const KEYTYPE& key, const VALTYPE value)
 	{
+		if (scope.end() <= scope.start()) throw Error( Error::InvalidBoundary, scope.tostring());
 		VALTYPE rt = m_invtree.nullval();
 		ScopedKey<KEYTYPE> sk( key, scope.end());
 		auto rightnode = m_map.upper_bound( sk);
-- 
2.43.0


From ae2fe0383013c85324a921a862eb545b8e719cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:13 +0000
Subject: [PATCH 03/45] fix: block size of an identifier key overflows for
 names of 65530 bytes and more

---
 src/identmap.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/identmap.hpp b/src/identmap.hpp
index 4d77000..66cdb12 100644
--- a/src/identmap.hpp
+++ b/src/identmap.hpp
@@ -30,7 +30,7 @@ struct IdentKey
 
 	static const IdentKey* create( std::pmr::memory_resource* memrsc, const std::string_view& src)
 	{
-		constexpr unsigned short maxsize = std::numeric_limits<unsigned short>::max()-4;
+		constexpr unsigned short maxsize = std::numeric_limits<unsigned short>::max()-6;
 		unsigned short strsize = src.size() > maxsize ? maxsize : src.size();
 		ptrdiff_t offs_buf = reinterpret_cast<const char*>(&((const IdentKey*)nullptr)->buf) - (const char*)nullptr;
 		unsigned short blksize = offs_buf + strsize + 1;
-- 
2.43.0


From a4b299b8386a9628592696c1907a70c82939705e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:29 +0000
Subject: [PATCH 04/45] fix: refuse NaN as weight of a reduction, it breaks the
 search for the path of minimal weight

---
 src/scope.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scope.hpp b/src/scope.hpp
index d92863d..dcff0b3 100644
--- a/src/scope.hpp
+++ b/src/scope.hpp
@@ -864,7 +864,7 @@ public:
  	void set( const Scope scope, const RELNODETYPE& left, const RELNODETYPE& right, const VALTYPE& value, int tag, float weight)
 	{
 		if (tag > TagMask::MaxTag || tag < TagMask::MinTag) throw Error( Error::BadRelationTag, string_format("%d",tag));
-		if (weight < 0.0) throw Error( Error::BadRelationWeight, string_format("%.4f",weight));
+		if (!(weight >= 0.0)) throw Error( Error::BadRelationWeight, string_format("%.4f",weight));
 
 		std::uint8_t tagval = TagMask::tagValFromTag( tag);
 		int newlistindex = m_list.size();
-- 
2.43.0


From 8229195c96b1a160e67b09976020c9ffcbe6ce3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:43 +0000
Subject: [PATCH 05/45] fix: skip tokens matching an IGNORE pattern, the lexer
 looped forever on them

---
 src/lexer.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lexer.cpp b/src/lexer.cpp
index dbb09e7..b90bfaf 100644
--- a/src/lexer.cpp
+++ b/src/lexer.cpp
@@ -625,6 +625,10 @@ Lexem Lexer::next( Scanner& scanner) const
 				scanner.next( maxlen);
 				return Lexem( m_defar[ matchidx].name(), m_defar[ matchidx].id(), std::string_view( matchstart, matchsize), line);
 			}
+			else
+			{
+				scanner.next( maxlen); //... token ignored, fetch next lexem
+			}
 		}
 	}
 }
-- 
2.43.0


From 0177a949a614d37efe6da69efae9628c15952156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:07 +0000
Subject: [PATCH 06/45] fix: an end of line comment without newline at the end
 of the source ended it without closing the open indentations and was
 tokenized by the following calls

---
 src/lexer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexer.cpp b/src/lexer.cpp
index b90bfaf..f88dfed 100644
--- a/src/lexer.cpp
+++ b/src/lexer.cpp
@@ -570,7 +570,7 @@ Lexem Lexer::next( Scanner& scanner) const
 				{
 					if (!scanner.scan( "\n"))
 					{
-						return Lexem( scanner.line()); //... no EOLN then return EOF
+						scanner.next( scanner.restsize()); //... no EOLN then skip to EOF
 					}
 					break; //... comment skipped, fetch next lexem
 				}
-- 
2.43.0


From e3a7cbfb28768af74f5dc4e4d2b66a8dbe9c2edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:32 +0000
Subject: [PATCH 07/45] fix: keyword tokens with the character '$' never
 matched, it was not escaped in the pattern

---
 src/lexer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexer.cpp b/src/lexer.cpp
index f88dfed..b4d7c58 100644
--- a/src/lexer.cpp
+++ b/src/lexer.cpp
@@ -16,7 +16,7 @@
 
 using namespace mewa;
 
-#define REGEX_ESCAPE_CHARS "#{}[]()*+?.-\\|&^"
+#define REGEX_ESCAPE_CHARS "#{}[]()*+?.-\\|&^$"
 
 static std::string_view parseChar( char const*& si)
 {
-- 
2.43.0


From e7931ae4f32f78e07370c64e039ae4e07bc83c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:32 +0000
Subject: [PATCH 08/45] fix: the first characters extracted from token patterns
 missed characters a match can start with

Alternatives, '?', '.', optional groups, '-' at the end of a set and inverted sets
behind an optional prefix lead to patterns that were never tried on some texts.
A set ending with the character 0x7f lead to an endless loop.
---
 src/lexer.cpp | 222 ++++++++++++++++++++++++++------------------------
 1 file changed, 116 insertions(+), 106 deletions(-)

diff --git a/src/lexer.cpp b/src/lexer.cpp
index b4d7c58..47f8b5e 100644
--- a/src/lexer.cpp
+++ b/src/lexer.cpp
@@ -32,7 +32,7 @@ static std::string_view parseChar( char const*& si)
 	}
 }
 
-static char parseFirstChar( char const*& si, bool allowNonAscii)
+static char parseFirstChar( char const*& si)
 {
 	if ((unsigned char)*si < 32U)
 	{
@@ -41,7 +41,7 @@ static char parseFirstChar( char const*& si, bool allowNonAscii)
 	else if (*si == '\\')
 	{
 		++si;
-		if (0!=std::strchr( REGEX_ESCAPE_CHARS, *si))
+		if (*si && 0!=std::strchr( REGEX_ESCAPE_CHARS, *si))
 		{
 			return *si++;
 		}
@@ -52,150 +52,160 @@ static char parseFirstChar( char const*& si, bool allowNonAscii)
 	}
 	else
 	{
-		char rt = *si;
-		int len = utf8charlen( *si);
-		if (!allowNonAscii && len > 1)
-		{
-			throw Error( Error::IllegalFirstCharacterInLexer, parseChar(si));
-		}
-		si += len;
-		return rt;
+		return *si++;
 	}
 }
 
-static bool extractFirstCharacters( std::string& res, char const*& si, char eb)
+static std::string inverseCharset( const std::string& charset)
+{
+	std::string rt;
+	std::bitset<256> cset;
+	for (char ch : charset) cset.set( (unsigned char)ch);
+	for (int ii=33; ii<256; ++ii) if (!cset.test(ii)) {rt.push_back(ii);}
+	return rt;
+}
+
+static bool isNamedCharset( char const* si)
 {
-	bool empty = true;
-	while (*si && *si != eb)
+	return *si == '[' && (si[1] == ':' || si[1] == '.' || si[1] == '=');
+}
+
+/// \brief Parse a character set "[..]" with si pointing to the character after the opening bracket
+/// \param[out] res where to append the characters of the set or NULL if only to skip the set
+static void extractCharset( std::string* res, char const*& si)
+{
+	std::string cset;
+	bool inverse = false;
+	bool namedClass = false;
+	if (*si == '^')
+	{
+		inverse = true;
+		++si;
+	}
+	while (*si && *si != ']')
 	{
-		if (*si == '-' && !empty)
+		if (isNamedCharset( si))
+		{
+			char eb = si[1];
+			for (si += 2; *si && (*si != eb || si[1] != ']'); ++si){}
+			if (*si) si += 2;
+			namedClass = true;
+		}
+		else if (!res)
 		{
+			if (*si == '\\' && si[1]) ++si;
 			++si;
-			char from = res[ res.size()-1];
-			if (!*si || *si == eb)
-			{
-				res.push_back( from);
-				break;
-			}
-			else
+		}
+		else if (*si == '-' && !cset.empty() && si[1] && si[1] != ']' && !isNamedCharset( si+1))
+		{
+			++si;
+			char from = cset.back();
+			char to = parseFirstChar( si);
+			if (to < from) std::swap( to, from);
+			for (int ch = from; ch <= to; ++ch)
 			{
-				char to = parseFirstChar( si, false/*!allowNonAscii*/);
-				if (to < from) std::swap( to, from);
-				for (++from; from <= to; ++from)
-				{
-					res.push_back( from);
-				}
+				if (ch != cset.back()) cset.push_back( ch);
 			}
 		}
 		else
 		{
-			res.push_back( parseFirstChar( si, false/*!allowNonAscii*/));
+			if (utf8charlen( *si) > 1) throw Error( Error::IllegalFirstCharacterInLexer, parseChar(si));
+			cset.push_back( parseFirstChar( si));
 		}
-		empty = false;
 	}
 	if (!*si) throw Error( Error::SyntaxErrorInLexer);
 	++si;
-	return !empty;
-}
-
-static bool skipBrackets( char const*& si, char eb)
-{
-	char sb = *si++;
-	int cnt = 1;
-
-	bool empty = true;
-	for (; *si && cnt > 0; ++si)
+	if (res)
 	{
-		if (*si == eb)
-		{
-			--cnt;
-		}
-		else if (*si == sb)
-		{
-			++cnt;
-		}
-		else
-		{
-			empty = false;
-		}
+		res->append( namedClass ? inverseCharset( "") : inverse ? inverseCharset( cset) : cset);
 	}
-	if (!*si && cnt != 0) throw Error( Error::SyntaxErrorInLexer);
-	return !empty;
 }
 
-static bool skipMultiplicator( char const*& si)
+/// \brief Skip all multiplicators of an expression
+/// \return true, if the multiplicators allow the expression to be left out
+static bool skipMultiplicators( char const*& si)
 {
-	if (*si)
+	bool rt = false;
+	for (;; ++si)
 	{
-		if (*si == '*')
+		if (*si == '*' || *si == '?')
 		{
-			++si;
-			return false;
+			rt = true;
+		}
+		else if (*si == '{')
+		{
+			int minimum = 0;
+			for (++si; *si >= '0' && *si <= '9'; ++si) minimum |= (*si - '0');
+			for (; *si && *si != '}'; ++si){}
+			if (!*si) throw Error( Error::SyntaxErrorInLexer);
+			if (minimum == 0) rt = true;
 		}
-		if (*si == '{')
+		else if (*si != '+')
 		{
-			bool empty = (si[1] == '0' && si[2] == ',');
-			(void)skipBrackets( si, '}');
-			return !empty;
+			return rt;
 		}
 	}
-	return true;
 }
 
-static std::string inverseCharset( const std::string& charset)
+/// \brief Parse an alternative of expressions until its end, that is the end of the pattern or a closing bracket
+/// \param[out] res where to append the first characters of the expressions or NULL if only to skip the expressions
+/// \return true, if the expression can match without consuming a character
+static bool extractFirstCharacters( std::string* res, char const*& si)
 {
-	std::string rt;
-	std::bitset<256> cset;
-	for (char ch : charset) cset.set( ch);
-	for (int ii=33; ii<256; ++ii) if (!cset.test(ii)) {rt.push_back(ii);}
-	return rt;
-}
-
-std::string LexemDef::activation( const std::string& source_)
-{
-	std::string rt;
-	bool empty = true;
-	char const* si = source_.c_str();
-	if (*si == '^') ++si;
-	while (empty)
+	bool rt = false;
+	for (;;)
 	{
-		if (*si == '\0')
-		{
-			return rt;
-		}
-		else if (*si == '[')
+		bool empty = true;
+		while (*si && *si != '|' && *si != ')')
 		{
-			++si;
-			bool inverse = false;
-			if (*si == '^')
+			std::string* first = empty ? res : nullptr;
+			bool emptyExpression = false;
+			if (*si == '^' || *si == '$')
 			{
-				inverse = true;
 				++si;
+				emptyExpression = true;
 			}
-			bool hasCharacters = extractFirstCharacters( rt, si, ']');
-			bool potentiallyIgnored = (skipMultiplicator( si) == false);
-			empty = !hasCharacters || potentiallyIgnored;
-			if (inverse) rt = inverseCharset( rt);
-		}
-		else if (*si == '(')
-		{
-			for (;;)
+			else if (*si == '.')
 			{
-				char const* start = si+1;
-				bool hasCharacters = skipBrackets( si, ')');
-				bool potentiallyIgnored = (skipMultiplicator( si) == false);
-				empty = !hasCharacters || potentiallyIgnored;
-				rt.append( activation( std::string( start, si-start-1)));
-				if (*si != '|') break;
 				++si;
+				if (first) first->append( inverseCharset( ""));
 			}
+			else if (*si == '[')
+			{
+				extractCharset( first, ++si);
+			}
+			else if (*si == '(')
+			{
+				++si;
+				bool lookahead = (si[0] == '?' && (si[1] == '=' || si[1] == '!'));
+				if (lookahead || (si[0] == '?' && si[1] == ':')) si += 2;
+				emptyExpression = extractFirstCharacters( lookahead ? nullptr : first, si) || lookahead;
+				if (*si != ')') throw Error( Error::SyntaxErrorInLexer);
+				++si;
+			}
+			else if (first)
+			{
+				first->push_back( parseFirstChar( si));
+			}
+			else
+			{
+				if (*si == '\\' && si[1]) ++si;
+				++si;
+			}
+			bool optional = skipMultiplicators( si);
+			if (!optional && !emptyExpression) empty = false;
 		}
-		else
-		{
-			rt.push_back( parseFirstChar( si, true/*allowNonAscii*/));
-			empty = false;
-		}
+		if (empty) rt = true;
+		if (*si != '|') return rt;
+		++si;
 	}
+}
+
+std::string LexemDef::activation( const std::string& source_)
+{
+	std::string rt;
+	char const* si = source_.c_str();
+	(void)extractFirstCharacters( &rt, si);
 	return rt;
 }
 
-- 
2.43.0


From 8339b13eac7b39a65243784db9a50e46f2fad663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:18 +0000
Subject: [PATCH 09/45] fix: a lexer built from a list of definitions lost its
 ignored tokens and had uninitialized members

---
 src/lexer.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/lexer.cpp b/src/lexer.cpp
index 47f8b5e..deb2521 100644
--- a/src/lexer.cpp
+++ b/src/lexer.cpp
@@ -687,15 +687,24 @@ std::vector<Lexer::Definition> Lexer::getDefinitions() const
 }
 
 Lexer::Lexer( const std::vector<Definition>& definitions)
+	:Lexer()
 {
 	for (auto const& def : definitions)
 	{
 		switch (def.type())
 		{
 			case Definition::BadLexem:		defineBadLexem( def.line(), def.name()); break;
-			case Definition::NamedPatternLexem:	defineLexem( def.line(), def.name(), def.pattern(), def.select()); break;
+			case Definition::NamedPatternLexem:	if (def.pattern().empty()/*indentation token*/)
+								{
+									defineLexemId( def.name());
+								}
+								else
+								{
+									defineLexem( def.line(), def.name(), def.pattern(), def.select());
+								}
+								break;
 			case Definition::KeywordLexem:		defineLexem( def.name()); break;
-			case Definition::IgnoreLexem:		defineIgnore( def.line(), def.pattern());
+			case Definition::IgnoreLexem:		defineIgnore( def.line(), def.ignore()); break;
 			case Definition::EolnComment:		defineEolnComment( def.line(), def.start()); break;
 			case Definition::BracketComment:	defineBracketComment( def.line(), def.start(), def.end()); break;
 			case Definition::IndentLexems:		m_indentLexems = {def.line(),def.openind(),def.closeind(),def.newline(),def.tabsize()}; break;
-- 
2.43.0


From 6ec159d45070f60960795b496735e4dc97eb99c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:36 +0000
Subject: [PATCH 10/45] fix: report the conflict of a reduction with the end of
 the parse also if priorities are defined

A reduction on the end of the input in a state that accepts the start symbol was
compared by priority with an unrelated or missing entry of the priority map, so it could
replace the accept action without a warning.
---
 src/automaton.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/automaton.cpp b/src/automaton.cpp
index 600f245..d95e889 100644
--- a/src/automaton.cpp
+++ b/src/automaton.cpp
@@ -899,7 +899,15 @@ static void insertAction(
 	auto ains = actionMap.insert( {key, action} );
 	auto pi =  priorityMap.find( key);
 
-	if (pi == priorityMap.end() || ains.second/*is new*/)
+	if (action.type() == Automaton::Action::Reduce && ains.first->second.type() == Automaton::Action::Accept)
+	{
+		//... the reduction of the start production is the accept action itself, any other reduction is in conflict with it
+		if (action.nonterminal() != ains.first->second.nonterminal())
+		{
+			warnings.push_back( Error( Error::ReduceReduceConflictInGrammarDef, getStateTransitionString( lr1State, terminal, prodlist, lexer, followMap)));
+		}
+	}
+	else if (pi == priorityMap.end() || ains.second/*is new*/)
 	{
 		priorityMap[ key] = priority;
 	}
-- 
2.43.0


From 42ba8da914cdb0d0fad20fc186623f54cf6be34b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:52 +0000
Subject: [PATCH 11/45] fix: check the range of numbers in grammars before
 narrowing them

A priority like L65537 was accepted as L1 and bigger numbers overflowed.
---
 src/automaton_parser.cpp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/automaton_parser.cpp b/src/automaton_parser.cpp
index da02090..2469861 100644
--- a/src/automaton_parser.cpp
+++ b/src/automaton_parser.cpp
@@ -16,6 +16,7 @@
 #include "utf8.hpp"
 #include <map>
 #include <algorithm>
+#include <limits>
 #include <type_traits>
 
 using namespace mewa;
@@ -93,8 +94,8 @@ static int convertStringToInt( const std::string_view& str)
 		char ch = str[ si];
 		if (ch >= '0' && ch <= '9')
 		{
+			if (rt > (std::numeric_limits<int>::max() - (ch - '0')) / 10) throw Error( Error::ValueOutOfRangeInGrammarDef, str);
 			rt = rt * 10 + (ch - '0');
-			if (rt < 0) throw Error( Error::ValueOutOfRangeInGrammarDef, str);
 		}
 		else
 		{
@@ -104,6 +105,16 @@ static int convertStringToInt( const std::string_view& str)
 	return rt;
 }
 
+static int convertStringToPriorityValue( const std::string_view& str)
+{
+	int rt = convertStringToInt( str);
+	if (rt >= Automaton::MaxPriority)
+	{
+		throw Error( Error::ComplexityMaxProductionPriorityInGrammarDef, str);
+	}
+	return rt;
+}
+
 static Priority convertStringToPriority( const std::string_view& str)
 {
 	Priority rt;
@@ -114,16 +125,16 @@ static Priority convertStringToPriority( const std::string_view& str)
 	if (str[0] == 'L' || str[0] == 'R')
 	{
 		Assoziativity assoz = str[0] == 'L' ? Assoziativity::Left : Assoziativity::Right;
-		rt = (str.size() == 1) ? Priority( 0, assoz) : Priority( convertStringToInt( str.substr( 1, str.size()-1)), assoz);
+		rt = (str.size() == 1) ? Priority( 0, assoz) : Priority( convertStringToPriorityValue( str.substr( 1, str.size()-1)), assoz);
 	}
 	else if (str[str.size()-1] == 'L' || str[str.size()-1] == 'R')
 	{
 		Assoziativity assoz = str[str.size()-1] == 'L' ? Assoziativity::Left : Assoziativity::Right;
-		rt = Priority( convertStringToInt( str.substr( 0, str.size()-1)), assoz);
+		rt = Priority( convertStringToPriorityValue( str.substr( 0, str.size()-1)), assoz);
 	}
 	else
 	{
-		rt = Priority( convertStringToInt( str));
+		rt = Priority( convertStringToPriorityValue( str));
 	}
 	if (rt.value >= Automaton::MaxPriority)
 	{
-- 
2.43.0


From 5606a278785f6678a82331fdcef89c90f203f3ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:30 +0000
Subject: [PATCH 12/45] fix: the pattern of a keyword ends with the keyword

The pattern of a keyword or operator defined with a part of a string, as done by the
grammar parser, was read until the end of the text behind it, so the lexer of the
automaton built did not recognize any of its keywords.
---
 src/lexer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lexer.cpp b/src/lexer.cpp
index deb2521..3d962a8 100644
--- a/src/lexer.cpp
+++ b/src/lexer.cpp
@@ -470,7 +470,8 @@ static std::string stringToRegex( const std::string_view& opr)
 {
 	std::string rt;
 	char const* si = opr.data();
-	for (; *si; ++si)
+	char const* se = si + opr.size();
+	for (; si != se; ++si)
 	{
 		if (0!=std::strchr( REGEX_ESCAPE_CHARS, *si))
 		{
-- 
2.43.0


From 556aadc099ecd09ff442c956e19f0354b6a09eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:04 +0000
Subject: [PATCH 13/45] fix: a keyword that does not match is not a token

---
 src/lexer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexer.cpp b/src/lexer.cpp
index 3d962a8..7385ff9 100644
--- a/src/lexer.cpp
+++ b/src/lexer.cpp
@@ -603,7 +603,7 @@ Lexem Lexer::next( Scanner& scanner) const
 			{
 				if (idx >= (int)m_defar.size()) throw Error( Error::ArrayBoundReadInLexer);
 				auto mm = m_defar[ idx].match( start, scanner.restsize());
-				if (maxlen <= mm.second && (maxlen < mm.second || m_defar[ idx].keyword())) //... keywords preferred if length is the same
+				if (mm.second > 0 && maxlen <= mm.second && (maxlen < mm.second || m_defar[ idx].keyword())) //... keywords preferred if length is the same
 				{
 					maxlen = mm.second;
 					matchstart = mm.first.data();
-- 
2.43.0


From 5ab582f25e13b96bbca4d29190eaad2116eecd46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:07 +0000
Subject: [PATCH 14/45] fix: keep the order of comment declarations in the list
 of definitions of a lexer

---
 src/lexer.cpp | 29 +++++++++++++++++++----------
 src/lexer.hpp |  3 ++-
 2 files changed, 21 insertions(+), 11 deletions(-)

diff --git a/src/lexer.cpp b/src/lexer.cpp
index 7385ff9..667e5b0 100644
--- a/src/lexer.cpp
+++ b/src/lexer.cpp
@@ -499,6 +499,7 @@ void Lexer::defineBadLexem( int line, const std::string_view& name_)
 void Lexer::defineEolnComment( int line, const std::string_view& opr)
 {
 	m_eolnComments.emplace_back( line, std::string(opr));
+	m_commentOrder.push_back( MATCH_EOLN_COMMENT);
 	if (opr.empty()) throw Error( Error::SyntaxErrorInLexer);
 	m_firstmap.insert( std::pair<char,int>( opr[0], MATCH_EOLN_COMMENT));
 }
@@ -506,6 +507,7 @@ void Lexer::defineEolnComment( int line, const std::string_view& opr)
 void Lexer::defineBracketComment( int line, const std::string_view& start, const std::string_view& end)
 {
 	m_bracketComments.emplace_back( line, std::string(start), std::string(end));
+	m_commentOrder.push_back( MATCH_BRACKET_COMMENT);
 	if (start.empty() || end.empty()) throw Error( Error::SyntaxErrorInLexer);
 	m_firstmap.insert( std::pair<char,int>( start[0], MATCH_BRACKET_COMMENT));
 }
@@ -666,17 +668,24 @@ std::vector<Lexer::Definition> Lexer::getDefinitions() const
 			rt.push_back( Definition( def.line(), Definition::NamedPatternLexem, {def.name(), def.source()}, def.select(), def.id(), def.activation()));
 		}
 	}
-	for (auto const& bc : m_bracketComments)
+	auto bi = m_bracketComments.begin();
+	auto ei = m_eolnComments.begin();
+	for (int kind : m_commentOrder)	//... the order of declaration decides between comments starting the same way
 	{
-		rt.push_back(
-			Definition( bc.line, Definition::BracketComment, {bc.open,bc.close}, 0/*select*/,
-					MATCH_BRACKET_COMMENT/*id*/, std::string( bc.open.c_str(), 1)/*activation*/));
-	}
-	for (auto const& cc : m_eolnComments)
-	{
-		rt.push_back(
-			Definition( cc.line, Definition::EolnComment, {cc.open}, 0/*select*/,
-					MATCH_EOLN_COMMENT/*id*/, std::string( cc.open.c_str(), 1)/*activation*/));
+		if (kind == MATCH_BRACKET_COMMENT)
+		{
+			auto const& bc = *bi++;
+			rt.push_back(
+				Definition( bc.line, Definition::BracketComment, {bc.open,bc.close}, 0/*select*/,
+						MATCH_BRACKET_COMMENT/*id*/, std::string( bc.open.c_str(), 1)/*activation*/));
+		}
+		else
+		{
+			auto const& cc = *ei++;
+			rt.push_back(
+				Definition( cc.line, Definition::EolnComment, {cc.open}, 0/*select*/,
+						MATCH_EOLN_COMMENT/*id*/, std::string( cc.open.c_str(), 1)/*activation*/));
+		}
 	}
 	if (m_indentLexems.defined())
 	{
diff --git a/src/lexer.hpp b/src/lexer.hpp
index 3c226b5..8f12f93 100644
--- a/src/lexer.hpp
+++ b/src/lexer.hpp
@@ -186,7 +186,7 @@ public:
 public:
 	Lexer()
 		:m_errorLexem(0/*no line*/,"?"),m_defar(),m_firstmap(),m_nameidmap(),m_namelist()
-		,m_id2keyword(),m_bracketComments(),m_eolnComments()
+		,m_id2keyword(),m_bracketComments(),m_eolnComments(),m_commentOrder()
 		,m_indentLexems({0,0,0,0}){}
 	Lexer( const Lexer& o) = default;
 	Lexer& operator=( const Lexer& o) = default;
@@ -291,6 +291,7 @@ private:
 	std::vector<bool> m_id2keyword;
 	BracketCommentDefList m_bracketComments;
 	EolnCommentDefList m_eolnComments;
+	std::vector<int> m_commentOrder;
 	IndentLexems m_indentLexems;
 };
 
-- 
2.43.0


From 25ce08cf4182cfdbc3e392cc8d3595f3f4d2789e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:43 +0000
Subject: [PATCH 15/45] fix: reserve space on the Lua stack for the nodes of a
 running compiler

---
 src/lua_run_compiler.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lua_run_compiler.cpp b/src/lua_run_compiler.cpp
index ab91c3c..b056d43 100644
--- a/src/lua_run_compiler.cpp
+++ b/src/lua_run_compiler.cpp
@@ -12,6 +12,7 @@
 
 #include "lua_run_compiler.hpp"
 #include "lua_serialize.hpp"
+#include "lua_parameter.hpp"
 #include "lexer.hpp"
 #include "error.hpp"
 #include "strings.hpp"
@@ -332,6 +333,7 @@ static int lua_pcall_errorhandler( lua_State* ls)
 static void luaCallNodeFunction( lua_State* ls, int li, int calltable, FILE* dbgout, int options_index)
 {
 	if (!lua_istable( ls, li)) throw mewa::Error( mewa::Error::BadElementOnCompilerStack, mewa::string_format( "%s line %d", __FILE__, (int)__LINE__));
+	mewa::lua::checkStack( "compiler:run", ls, 8);
 	lua_pushcfunction( ls, &lua_pcall_errorhandler);		// STK: [EHND] 
 	lua_pushvalue( ls, li);						// STK: [EHND] [NODE]
 	lua_pushliteral( ls, "call");					// STK: [EHND] [NODE] "call"
@@ -407,7 +409,7 @@ static void luaCallNodeFunction( lua_State* ls, int li, int calltable, FILE* dbg
 			std::string resstr( mewa::luaToString( ls, -1, true/*formatted*/, 0/*no maximum depth*/));
 			printDebug( dbgout, "%s\n", resstr.c_str());
 		}
-		lua_pop( ls, 1);					// STK: 
+		lua_pop( ls, 4);					// STK: 
 	}
 }
 
@@ -416,6 +418,8 @@ static void luaCallNodeFunction( lua_State* ls, int li, int calltable, FILE* dbg
 /// \return true, if the lexem has been consumed, false if we have to feed the same lexem again
 static bool feedLexem( lua_State* ls, CompilerContext& ctx, const mewa::Automaton& automaton, const mewa::Lexem& lexem)
 {
+	mewa::lua::checkStack( "compiler:run", ls, 8);
+
 	auto nexti = automaton.actions().find( {ctx.stateStack.back().index, lexem.id()/*terminal*/});
 	if (nexti == automaton.actions().end())
 	{
-- 
2.43.0


From 14dee2ee12b4d09c49ff5090c1f4882966ffd09c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:21 +0000
Subject: [PATCH 16/45] fix: increment the scope step for productions with (>>)
 and no function

---
 src/lua_run_compiler.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lua_run_compiler.cpp b/src/lua_run_compiler.cpp
index b056d43..f03d61f 100644
--- a/src/lua_run_compiler.cpp
+++ b/src/lua_run_compiler.cpp
@@ -461,6 +461,7 @@ static bool feedLexem( lua_State* ls, CompilerContext& ctx, const mewa::Automato
 			}
 			else
 			{
+				if (nexti->second.scopeflag() == mewa::Automaton::Action::Step) ctx.scopestep += 1;
 				luaStackNofElements = getLuaStackReductionSize( ctx.stateStack, reductionSize);
 			}
 			ctx.stateStack.resize( ctx.stateStack.size() - reductionSize);
-- 
2.43.0


From f9818da214632ac527560c880a8e992e22931312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:10 +0000
Subject: [PATCH 17/45] fix: the argument of an error starts behind its
 location, other texts are kept when parsed as error

---
 src/error.cpp | 34 +++++++++++++++++++++++++---------
 src/error.hpp |  3 ++-
 2 files changed, 27 insertions(+), 10 deletions(-)

diff --git a/src/error.cpp b/src/error.cpp
index 96ff7de..8207d3a 100644
--- a/src/error.cpp
+++ b/src/error.cpp
@@ -63,13 +63,14 @@ Error Error::parseError( const char* errstr) noexcept
 				{
 					code_ = CompileError;
 					ei += 6;
+					state = StateParseLineNo;
 				}
 				else
 				{
 					param_ = errstr;
 					code_ = RuntimeException;
+					state = (ee-ei > 8 && 0==std::memcmp( ei, "at line ", 8)) ? StateParseLineNo : StateEnd;
 				}
-				state = StateParseLineNo;
 			}
 			break;
 		case StateParseMessage:
@@ -93,7 +94,7 @@ Error Error::parseError( const char* errstr) noexcept
 				param_ = errstr;
 				state = StateEnd;
 			}
-			else if (0==std::memcmp( msgstart, code2String( code_), ei-msgstart))
+			else if ((std::size_t)(ei-msgstart) == std::strlen( code2String( code_)) && 0==std::memcmp( msgstart, code2String( code_), ei-msgstart))
 			{
 				++ei;
 				skipSpaces( ei);
@@ -327,18 +328,17 @@ std::string Error::map2string( Code code_, const std::string_view& param_, const
 	return map2string( code_, parambuf, location_);
 }
 
-std::string Error::map2string( Code code_, const char* param_, const Location& location_)
+void Error::printHeader( char* msgbuf, std::size_t msgbufsize, Code code_, const Location& location_) noexcept
 {
-	char msgbuf[ 256];
 	if (code_ == CompileError)
 	{
 		if (location_.filename()[0])
 		{
-			std::snprintf( msgbuf, sizeof(msgbuf), "Error at line %d in file \"%s\"", location_.line(), location_.filename());
+			std::snprintf( msgbuf, msgbufsize, "Error at line %d in file \"%s\"", location_.line(), location_.filename());
 		}
 		else
 		{
-			std::snprintf( msgbuf, sizeof(msgbuf), "Error at line %d", location_.line());
+			std::snprintf( msgbuf, msgbufsize, "Error at line %d", location_.line());
 		}
 	}
 	else if (code_ == Ok)
@@ -349,19 +349,35 @@ std::string Error::map2string( Code code_, const char* param_, const Location& l
 	{
 		if (location_.filename()[0])
 		{
-			std::snprintf( msgbuf, sizeof(msgbuf), "#%d \"%s\" at line %d in file \"%s\"",
+			std::snprintf( msgbuf, msgbufsize, "#%d \"%s\" at line %d in file \"%s\"",
 					(int)code_, code2String((int)code_), location_.line(), location_.filename());
 		}
 		else
 		{
-			std::snprintf( msgbuf, sizeof(msgbuf), "#%d \"%s\" at line %d",
+			std::snprintf( msgbuf, msgbufsize, "#%d \"%s\" at line %d",
 					(int)code_, code2String((int)code_), location_.line());
 		}
 	}
 	else
 	{
-		std::snprintf( msgbuf, sizeof(msgbuf), "#%d \"%s\"", (int)code_, code2String((int)code_));
+		std::snprintf( msgbuf, msgbufsize, "#%d \"%s\"", (int)code_, code2String((int)code_));
 	}
+}
+
+const char* Error::arg() const noexcept
+{
+	char msgbuf[ 256];
+	printHeader( msgbuf, sizeof(msgbuf), m_code, m_location);
+	std::size_t len = std::strlen( msgbuf);
+	char const* msg = what();
+	if (0 != std::strncmp( msg, msgbuf, len)) return nullptr;
+	return msg[ len] == ':' && msg[ len+1] == ' ' ? (msg + len + 2) : nullptr;
+}
+
+std::string Error::map2string( Code code_, const char* param_, const Location& location_)
+{
+	char msgbuf[ 256];
+	printHeader( msgbuf, sizeof(msgbuf), code_, location_);
 	try
 	{
 		std::string rt( msgbuf);
diff --git a/src/error.hpp b/src/error.hpp
index f15bd0e..0574f62 100644
--- a/src/error.hpp
+++ b/src/error.hpp
@@ -176,7 +176,7 @@ public:
 		:std::runtime_error(map2string(o.code(),o.arg(),location_)),m_code(o.m_code),m_location(location_){}
 
 	Code code() const noexcept			{return m_code;}
-	const char* arg() const noexcept		{char const* rt = std::strstr( what(), ": "); return rt?(rt+2):rt;}
+	const char* arg() const noexcept;
 	const Location& location() const noexcept	{return m_location;}
 
 	const char* what() const noexcept override
@@ -194,6 +194,7 @@ public:
 	static const char* code2String( int code_) noexcept;
 
 private:
+	static void printHeader( char* msgbuf, std::size_t msgbufsize, Code code_, const Location& location_) noexcept;
 	static std::string map2string( Code code_, const char* param_, const Location& location_);
 	static std::string map2string( Code code_, const std::string_view& param_, const Location& location_);
 
-- 
2.43.0


From a8a59ebf03410db5c729c382dc1226b9046f0867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:52 +0000
Subject: [PATCH 18/45] fix: keep the order of the definitions of a lexer in a
 printed automaton

---
 src/automaton_tostring.cpp | 35 ++++++++++++++++++++++
 src/lua_load_automaton.cpp | 61 +++++++++++++++++++++++---------------
 2 files changed, 72 insertions(+), 24 deletions(-)

diff --git a/src/automaton_tostring.cpp b/src/automaton_tostring.cpp
index 9ee3cc7..ba68a38 100644
--- a/src/automaton_tostring.cpp
+++ b/src/automaton_tostring.cpp
@@ -16,6 +16,7 @@
 #include "error.hpp"
 #include <iostream>
 #include <sstream>
+#include <algorithm>
 
 using namespace mewa;
 
@@ -60,20 +61,54 @@ static bool isConstantArgument( const std::string& val)
 	return false;
 }
 
+static bool loadedBefore( Lexer::Definition::Type t1, Lexer::Definition::Type t2)
+{
+	auto rank = []( Lexer::Definition::Type t)
+	{
+		return t == Lexer::Definition::NamedPatternLexem ? 0 : t == Lexer::Definition::IgnoreLexem ? 1 : 2;
+	};
+	return rank( t1) < rank( t2);
+}
+
 static void printLexer( std::ostream& outstream, const char* tablename, const Lexer& lexer, bool sep)
 {
 	auto definitions = lexer.getDefinitions();
 	if (!definitions.empty())
 	{
 		std::map<std::string, std::vector<int> > defclassmap;
+		std::vector<Lexer::Definition::Type> order;
 		int di = 0;
 		for (auto def : definitions)
 		{
 			defclassmap[ def.typeName()].push_back( di++);
+			switch (def.type())
+			{
+				case Lexer::Definition::NamedPatternLexem:
+				case Lexer::Definition::IgnoreLexem:
+				case Lexer::Definition::KeywordLexem:
+					order.push_back( def.type());
+					break;
+				default:
+					break;
+			}
 		}
 		outstream << "\t" << tablename << " = {";
 
 		int defclassidx = 0;
+		if (!std::is_sorted( order.begin(), order.end(), &loadedBefore))
+		{
+			// The tokens, the patterns ignored and the keywords are not defined in the order they are loaded, so we have to print it:
+			outstream << "\n\t\torder = {";
+			int ordercnt = 0;
+			for (auto type : order)
+			{
+				outstream << (ordercnt ? ",":"") << ((ordercnt & 7) == 0 ? "\n\t\t\t" : " ");
+				++ordercnt;
+				printString( outstream, Lexer::Definition::typeName( type));
+			}
+			outstream << " }";
+			++defclassidx;
+		}
 		for (auto defclass : defclassmap)
 		{
 			outstream << (defclassidx ? ",\n\t\t" : "\n\t\t") << defclass.first << " = {";
diff --git a/src/lua_load_automaton.cpp b/src/lua_load_automaton.cpp
index ac1dc57..a321fd6 100644
--- a/src/lua_load_automaton.cpp
+++ b/src/lua_load_automaton.cpp
@@ -135,9 +135,13 @@ static int string2int( const std::string& value)
 
 static mewa::Lexer parseLexerDefinitions( lua_State *ls, int li, const char* tableName)
 {
-	mewa::Lexer rt;
-	std::vector<std::string> keywords;
-	// ... because keywords need to be loaded after the named token lexems, we need to store them first
+	typedef mewa::Lexer::Definition Definition;
+	std::vector<std::string> order;
+	std::vector<Definition> tokens;
+	std::vector<Definition> ignores;
+	std::vector<Definition> keywords;
+	std::vector<Definition> others;
+	// ... because the definitions need to be loaded in their original order, we need to store them first
 	//     and apply the definitions at the end of parsing, because in a lua map they can appear in any order.
 	int rowcnt = 0;
 
@@ -181,17 +185,17 @@ static mewa::Lexer parseLexerDefinitions( lua_State *ls, int li, const char* tab
 					}
 					else if (arg.size() == 1)
 					{
-						rt.defineEolnComment( 0/*no line*/, arg[ 0]);
+						others.push_back( Definition( 0/*no line*/, Definition::EolnComment, arg, 0, 0, ""));
 					}
 					else
 					{
-						rt.defineBracketComment( 0/*no line*/, arg[0], arg[1]);
+						others.push_back( Definition( 0/*no line*/, Definition::BracketComment, arg, 0, 0, ""));
 					}
 				}
 				else if (lua_type( ls, -1) == LUA_TSTRING)
 				{
 					auto arg = lua_tostring( ls, -1);
-					rt.defineEolnComment( 0/*no line*/, arg);
+					others.push_back( Definition( 0/*no line*/, Definition::EolnComment, {arg}, 0, 0, ""));
 				}
 				else
 				{
@@ -204,7 +208,14 @@ static mewa::Lexer parseLexerDefinitions( lua_State *ls, int li, const char* tab
 		}
 		else if (0==std::strcmp( keystr, "keyword"))
 		{
-			keywords = parseStringArray( ls, -1, mewa::string_format( "%s/%s", tableName, keystr));
+			for (auto const& keyword : parseStringArray( ls, -1, mewa::string_format( "%s/%s", tableName, keystr)))
+			{
+				keywords.push_back( Definition( 0/*no line*/, Definition::KeywordLexem, {keyword}, 0, 0, ""));
+			}
+		}
+		else if (0==std::strcmp( keystr, "order"))
+		{
+			order = parseStringArray( ls, -1, mewa::string_format( "%s/%s", tableName, keystr));
 		}
 		else if (0==std::strcmp( keystr, "token"))
 		{
@@ -225,14 +236,8 @@ static mewa::Lexer parseLexerDefinitions( lua_State *ls, int li, const char* tab
 					throw mewa::Error( mewa::Error::BadValueInGeneratedLuaTable,
 								mewa::string_format( "table '%s/%s', row %d", tableName, keystr, rowcnt));
 				}
-				else if (arg.size() > 2)
-				{
-					rt.defineLexem( 0/*no line*/, arg[0], arg[1], string2int( arg[2]));
-				}
-				else
-				{
-					rt.defineLexem( 0/*no line*/, arg[0], arg[1]);
-				}
+				int select = arg.size() > 2 ? string2int( arg[2]) : 0;
+				tokens.push_back( Definition( 0/*no line*/, Definition::NamedPatternLexem, arg, select, 0, ""));
 				lua_pop( ls, 1);
 			}
 			lua_pop( ls, 1);
@@ -240,17 +245,16 @@ static mewa::Lexer parseLexerDefinitions( lua_State *ls, int li, const char* tab
 		else if (0==std::strcmp( keystr, "bad"))
 		{
 			auto badlexems = parseStringArray( ls, -1, mewa::string_format( "%s/%s", tableName, keystr));
-			for (auto badlexem : badlexems)
+			for (auto const& badlexem : badlexems)
 			{
-				rt.defineBadLexem( 0/*no line*/, badlexem);
+				others.push_back( Definition( 0/*no line*/, Definition::BadLexem, {badlexem}, 0, 0, ""));
 			}
 		}
 		else if (0==std::strcmp( keystr, "ignore"))
 		{
-			auto ignores = parseStringArray( ls, -1, mewa::string_format( "%s/%s", tableName, keystr));
-			for (auto ignore : ignores)
+			for (auto const& ignore : parseStringArray( ls, -1, mewa::string_format( "%s/%s", tableName, keystr)))
 			{
-				rt.defineIgnore( 0/*no line*/, ignore);
+				ignores.push_back( Definition( 0/*no line*/, Definition::IgnoreLexem, {ignore}, 0, 0, ""));
 			}
 		}
 		else if (0==std::strcmp( keystr, "indentl"))
@@ -261,16 +265,25 @@ static mewa::Lexer parseLexerDefinitions( lua_State *ls, int li, const char* tab
 				throw mewa::Error( mewa::Error::BadValueInGeneratedLuaTable,
 							mewa::string_format( "table '%s/%s'", tableName, keystr));
 			}
-			rt.setIndentLexems( {0/*no line*/,indentLexems[0]+0,indentLexems[0]+1,indentLexems[0]+2,indentLexems[1]} );
+			others.push_back( Definition( 0/*no line*/, Definition::IndentLexems, {}, indentLexems[1]/*tabsize*/, indentLexems[0]/*open*/, ""));
 		}
 		lua_pop( ls, 1);
 	}
 	lua_pop( ls, 1);
-	for (auto keyword : keywords)
+	std::vector<Definition> definitions;
+	std::size_t ti = 0, ii = 0, ki = 0;
+	for (auto const& type : order)
 	{
-		rt.defineLexem( keyword);
+		if (ti < tokens.size() && type == tokens[ ti].typeName()) definitions.push_back( tokens[ ti++]);
+		else if (ii < ignores.size() && type == ignores[ ii].typeName()) definitions.push_back( ignores[ ii++]);
+		else if (ki < keywords.size() && type == keywords[ ki].typeName()) definitions.push_back( keywords[ ki++]);
+		else throw mewa::Error( mewa::Error::BadValueInGeneratedLuaTable, mewa::string_format( "table '%s/order'", tableName));
 	}
-	return rt;
+	definitions.insert( definitions.end(), tokens.begin() + ti, tokens.end());
+	definitions.insert( definitions.end(), ignores.begin() + ii, ignores.end());
+	definitions.insert( definitions.end(), keywords.begin() + ki, keywords.end());
+	definitions.insert( definitions.end(), others.begin(), others.end());
+	return mewa::Lexer( definitions);
 }
 
 static mewa::Automaton::Call parseCall( lua_State *ls, int li, const std::string& tableName)
-- 
2.43.0


From 732e0e732bb1503074f580043c4a36dec2dc3480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:52 +0000
Subject: [PATCH 19/45] fix: print strings with quotes and control characters
 as strings of Lua

---
 src/automaton_tostring.cpp   | 28 +++++++++++++++---
 src/languagedef_tostring.cpp | 55 +++++++++---------------------------
 2 files changed, 38 insertions(+), 45 deletions(-)

diff --git a/src/automaton_tostring.cpp b/src/automaton_tostring.cpp
index ba68a38..6ac3b8f 100644
--- a/src/automaton_tostring.cpp
+++ b/src/automaton_tostring.cpp
@@ -52,6 +52,19 @@ static void printStringArray( std::ostream& outstream, const char* tablename, co
 	outstream << (sep ? "},\n" : "}\n");
 }
 
+/// \brief Print the contents of a string of the grammar, where escape sequences are left to Lua
+static void printStringLiteral( std::ostream& outstream, const std::string& str)
+{
+	// A string of the grammar never contains the quotes it is delimited by:
+	char quote = str.find( '\"') == std::string::npos ? '\"' : '\'';
+	outstream << quote;
+	for (char ch : str)
+	{
+		if (ch == '\r') outstream << "\\r"; else outstream << ch;
+	}
+	outstream << quote;
+}
+
 static bool isConstantArgument( const std::string& val)
 {
 	if (val.empty()) return false;
@@ -188,7 +201,8 @@ static void printCallTable( std::ostream& outstream, const char* tablename, cons
 				outstream << "name=";
 				printString( outstream, call.function() + " " + call.arg());
 				outstream << ", proc=" << g_typeSystemModulePrefix << call.function();
-				outstream << ", obj=\"" << call.arg() << "\"";
+				outstream << ", obj=";
+				printStringLiteral( outstream, call.arg());
 				break;
 			case Automaton::Call::ReferenceArg:
 				outstream << "name=";
@@ -217,15 +231,21 @@ std::string Automaton::tostring() const
 	outstream << "\tmewa = \"" << MEWA_VERSION_STRING << "\",\n";
 	if (!language().empty())
 	{
-		outstream << "\tlanguage = \"" << language() << "\",\n";
+		outstream << "\tlanguage = ";
+		printString( outstream, language());
+		outstream << ",\n";
 	}
 	if (!typesystem().empty())
 	{
-		outstream << "\ttypesystem = \"" << typesystem() << "\",\n";
+		outstream << "\ttypesystem = ";
+		printString( outstream, typesystem());
+		outstream << ",\n";
 	}
 	if (!cmdline().empty())
 	{
-		outstream << "\tcmdline = \"" << cmdline() << "\",\n";
+		outstream << "\tcmdline = ";
+		printString( outstream, cmdline());
+		outstream << ",\n";
 	}
 	printLexer( outstream, "lexer", lexer(), true/*sep*/);
 	printStringArray( outstream, "nonterminal", m_nonterminals, true/*sep*/);
diff --git a/src/languagedef_tostring.cpp b/src/languagedef_tostring.cpp
index 50904dc..3fdafdf 100644
--- a/src/languagedef_tostring.cpp
+++ b/src/languagedef_tostring.cpp
@@ -14,19 +14,20 @@
 
 using namespace mewa;
 
-static std::string escapeString( const std::string& str)
+static std::string escapeString( const std::string& str, char quote)
 {
 	std::string rt;
-	char const* si = str.c_str();
-	for (; *si; ++si)
+	for (char ch : str)
 	{
-		if (*si == '\\')
+		switch (ch)
 		{
-			rt.append( "\\\\");
-		}
-		else
-		{
-			rt.push_back( *si);
+			case '\\': rt.append( "\\\\"); break;
+			case '\n': rt.append( "\\n"); break;
+			case '\r': rt.append( "\\r"); break;
+			case '\0': rt.append( "\\000"); break;
+			default:
+				if (ch == quote) rt.push_back( '\\');
+				rt.push_back( ch);
 		}
 	}
 	return rt;
@@ -34,38 +35,10 @@ static std::string escapeString( const std::string& str)
 
 void mewa::printString( std::ostream& outstream, const std::string& str)
 {
-	char const* sqpos = std::strchr( str.c_str(), '\'');
-	char const* dqpos = std::strchr( str.c_str(), '\"');
-	if (sqpos && dqpos)
-	{
-		sqpos = 0;
-		dqpos = 0;
-		char const* si = str.c_str();
-		for (; si; ++si)
-		{
-			if (*si == '\\')
-			{
-				++si;
-			}
-			else if (*si == '\'')
-			{
-				sqpos = si;
-			}
-			else if (*si == '\"')
-			{
-				dqpos = si;
-			}
-		}
-	}
-	if (dqpos)
-	{
-		if (sqpos) throw Error( Error::EscapeQuoteErrorInString, str);
-		outstream << "\'" << escapeString( str) << "\'";
-	}
-	else
-	{
-		outstream << "\"" << escapeString( str) << "\"";
-	}
+	bool hasSingleQuote = str.find( '\'') != std::string::npos;
+	bool hasDoubleQuote = str.find( '\"') != std::string::npos;
+	char quote = hasDoubleQuote && !hasSingleQuote ? '\'' : '\"';
+	outstream << quote << escapeString( str, quote) << quote;
 }
 
 static void printArgument( std::ostream& outstream, const char* type, const std::vector<std::string>& args)
-- 
2.43.0


From 7d2b4db4a0159e5eb91a4da7e0883ba16a46ad98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:17 +0000
Subject: [PATCH 20/45] fix: iteration over the children of a tree node did not
 reach the third child

---
 src/lualib_mewa.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lualib_mewa.cpp b/src/lualib_mewa.cpp
index 2275ac5..9bd72d9 100644
--- a/src/lualib_mewa.cpp
+++ b/src/lualib_mewa.cpp
@@ -1167,7 +1167,7 @@ struct LuaTreeMetaMethods
 			luaL_getmetatable( ls, UD::metatableName());
 			lua_setmetatable( ls, -2);
 
-			iter = (*ud->tree)[ ud->nodeidx].next();
+			iter = (*ud->tree)[ iter].next();
 			lua_pushinteger( ls, iter);
 			lua_replace( ls, lua_upvalueindex(2));
 		}
-- 
2.43.0


From 69b96a36b827fefa9de29b2242069373f040531a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:41 +0000
Subject: [PATCH 21/45] fix: integer arguments of Lua functions were truncated,
 negative ones shifted

---
 src/lua_parameter.cpp | 48 +++++++++++++++++++++++++++----------------
 1 file changed, 30 insertions(+), 18 deletions(-)

diff --git a/src/lua_parameter.cpp b/src/lua_parameter.cpp
index 3d5b316..dc227ea 100644
--- a/src/lua_parameter.cpp
+++ b/src/lua_parameter.cpp
@@ -101,21 +101,29 @@ const char* mewa::lua::getArgumentAsCString( const char* functionName, lua_State
 	return lua_tostring( ls, li);
 }
 
+/// \brief Get a Lua number as integer
+/// \return false, if the number is not integral (with some tolerance) or not in the range [minval,maxval]
+static bool getNumberAsInteger( double val, long minval, long maxval, long& result)
+{
+	double floorval = std::floor( val);
+	if (!(val - floorval < std::numeric_limits<double>::epsilon()*4)) return false;
+	if (floorval < (double)minval || floorval > (double)maxval) return false;
+	result = (long)floorval;
+	return true;
+}
+
 long mewa::lua::getArgumentAsInteger( const char* functionName, lua_State* ls, int li, mewa::Error::Code ec)
 {
 	if (!mewa::lua::isArgumentType( functionName, ls, li, (1 << LUA_TNUMBER)))
 	{
 		mewa::lua::throwArgumentError( functionName, li, ec);
 	}
-	double val = lua_tonumber( ls, li);
-	if (val - std::floor( val) < std::numeric_limits<double>::epsilon()*4)
-	{
-		return (long)(val + std::numeric_limits<double>::epsilon()*4);
-	}
-	else
+	long rt = 0;
+	if (!getNumberAsInteger( lua_tonumber( ls, li), std::numeric_limits<int>::min(), std::numeric_limits<int>::max(), rt))
 	{
 		mewa::lua::throwArgumentError( functionName, li, ec);
 	}
+	return rt;
 }
 
 long mewa::lua::getArgumentAsUnsignedInteger( const char* functionName, lua_State* ls, int li)
@@ -160,15 +168,8 @@ void mewa::lua::checkArgumentAsTable( const char* functionName, lua_State* ls, i
 
 static int getTableIndex( lua_State* ls, int li)
 {
-	double kk = lua_tonumber( ls, li);
-	if (kk - std::floor( kk) < std::numeric_limits<double>::epsilon()*4)
-	{
-		return (int)(kk + std::numeric_limits<double>::epsilon()*4);
-	}
-	else
-	{
-		return 0;
-	}
+	long rt = 0;
+	return getNumberAsInteger( lua_tonumber( ls, li), 1, std::numeric_limits<int>::max(), rt) ? (int)rt : 0;
 }
 
 mewa::Scope mewa::lua::getArgumentAsScope( const char* functionName, lua_State* ls, int li)
@@ -184,13 +185,19 @@ mewa::Scope mewa::lua::getArgumentAsScope( const char* functionName, lua_State*
 		if (lua_type( ls, -2) == LUA_TNUMBER && lua_type( ls, -1) == LUA_TNUMBER)
 		{
 			int kidx = getTableIndex( ls, -2);
+			long step = 0;
+			if (!getNumberAsInteger(
+				lua_tonumber( ls, -1), std::numeric_limits<Scope::Step>::min(), std::numeric_limits<Scope::Step>::max(), step))
+			{
+				mewa::lua::throwArgumentError( functionName, li, mewa::Error::ExpectedArgumentScopeStructure);
+			}
 			if (kidx == 1)
 			{
-				start = lua_tointeger( ls, -1);
+				start = step;
 			}
 			else if (kidx == 2)
 			{
-				end = lua_tointeger( ls, -1);
+				end = step;
 				if (end < 0)
 				{
 					end = std::numeric_limits<Scope::Step>::max() + end + 1;
@@ -217,7 +224,12 @@ mewa::Scope mewa::lua::getArgumentAsScope( const char* functionName, lua_State*
 
 mewa::TagMask mewa::lua::getArgumentAsTagMask( const char* functionName, lua_State* ls, int li)
 {
-	mewa::TagMask::BitSet bs = mewa::lua::getArgumentAsNonNegativeInteger( functionName, ls, li);
+	long bs = 0;
+	if (!mewa::lua::isArgumentType( functionName, ls, li, (1 << LUA_TNUMBER))
+		|| !getNumberAsInteger( lua_tonumber( ls, li), 0, std::numeric_limits<mewa::TagMask::BitSet>::max(), bs))
+	{
+		mewa::lua::throwArgumentError( functionName, li, mewa::Error::ExpectedNonNegativeIntegerArgument);
+	}
 	return mewa::TagMask( bs);
 }
 
-- 
2.43.0


From ff3382d7d6ca0bdc870055905d03922daae00449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:06 +0000
Subject: [PATCH 22/45] fix: typedb:scope changed the scope when the step was
 refused

---
 src/lualib_mewa.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lualib_mewa.cpp b/src/lualib_mewa.cpp
index 9bd72d9..e993185 100644
--- a/src/lualib_mewa.cpp
+++ b/src/lualib_mewa.cpp
@@ -555,8 +555,9 @@ static int mewa_typedb_scope( lua_State* ls)
 		mewa::Scope::Step rt_step = td->curStep;
 		if (nargs >= 2)
 		{
-			td->curScope = mewa::lua::getArgumentAsScope( functionName, ls, 2);
-			td->curStep = (nargs >= 3) ? mewa::lua::getArgumentAsNonNegativeInteger( functionName, ls, 3) : (td->curScope.end()-1);
+			mewa::Scope scope = mewa::lua::getArgumentAsScope( functionName, ls, 2);
+			td->curStep = (nargs >= 3) ? mewa::lua::getArgumentAsNonNegativeInteger( functionName, ls, 3) : (scope.end()-1);
+			td->curScope = scope;
 		}
 		mewa::lua::pushScope( ls, functionName, rt_scope);
 		lua_pushinteger( ls, rt_step);
-- 
2.43.0


From da25949296889a7d1eacd454083f6cc6078e5c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:27 +0000
Subject: [PATCH 23/45] fix: lists passed as arguments were neither checked for
 their keys nor for their elements

---
 src/lua_parameter.cpp | 207 +++++++++++++++---------------------------
 1 file changed, 75 insertions(+), 132 deletions(-)

diff --git a/src/lua_parameter.cpp b/src/lua_parameter.cpp
index dc227ea..d41c188 100644
--- a/src/lua_parameter.cpp
+++ b/src/lua_parameter.cpp
@@ -64,19 +64,11 @@ void mewa::lua::throwArgumentError( const char* functionName, int li, mewa::Erro
 bool mewa::lua::argumentIsArray( lua_State* ls, int li)
 {
 	bool rt = false;
-	if (lua_type( ls, 2) == LUA_TTABLE)
+	if (lua_type( ls, li) == LUA_TTABLE)
 	{
-		lua_pushvalue( ls, li);
-		lua_pushnil( ls);
-		if (lua_next( ls, -2))
-		{
-			rt = lua_isinteger( ls, -2) && 1==lua_tointeger( ls, -2);
-			lua_pop( ls, 2);
-		}
-		else
-		{
-			lua_pop( ls, 1);
-		}
+		lua_rawgeti( ls, li, 1);
+		rt = !lua_isnil( ls, -1);
+		lua_pop( ls, 1);
 	}
 	return rt;
 }
@@ -172,6 +164,30 @@ static int getTableIndex( lua_State* ls, int li)
 	return getNumberAsInteger( lua_tonumber( ls, li), 1, std::numeric_limits<int>::max(), rt) ? (int)rt : 0;
 }
 
+/// \brief Get the number of elements of a table with the keys 1..N
+/// \return the number of elements or -1 if the table has other keys
+static int getArraySize( lua_State* ls, int li)
+{
+	int maxidx = 0;
+	int cnt = 0;
+	lua_pushvalue( ls, li);
+	lua_pushnil( ls);				//STK: [TAB] NIL
+	while (lua_next( ls, -2))			//STK: [TAB] [KEY] [VAL]
+	{
+		int kidx = lua_type( ls, -2) == LUA_TNUMBER ? getTableIndex( ls, -2) : 0;
+		if (!kidx)
+		{
+			lua_pop( ls, 3);		//STK:
+			return -1;
+		}
+		if (kidx > maxidx) maxidx = kidx;
+		++cnt;
+		lua_pop( ls, 1);			//STK: [TAB] [KEY]
+	}
+	lua_pop( ls, 1);				//STK:
+	return maxidx == cnt ? cnt : -1;
+}
+
 mewa::Scope mewa::lua::getArgumentAsScope( const char* functionName, lua_State* ls, int li)
 {
 	checkArgumentAsTable( functionName, ls, li);
@@ -240,6 +256,17 @@ int mewa::lua::getArgumentAsConstructor( const char* functionName, lua_State* ls
 	return luaL_ref( ls, LUA_REGISTRYINDEX);
 }
 
+/// \brief Get a type stored in a table, value on top of the stack
+static int getTypeMember( const char* functionName, lua_State* ls, int li, mewa::Error::Code ec)
+{
+	long rt = 0;
+	if (lua_type( ls, -1) != LUA_TNUMBER || !getNumberAsInteger( lua_tonumber( ls, -1), 0, std::numeric_limits<int>::max(), rt))
+	{
+		mewa::lua::throwArgumentError( functionName, li, ec);
+	}
+	return rt;
+}
+
 static mewa::TypeDatabase::TypeConstructorPair getArgumentAsTypeConstructorPair( const char* functionName, lua_State* ls, int li)
 {
 	if (lua_type( ls, li) == LUA_TNUMBER)
@@ -247,6 +274,10 @@ static mewa::TypeDatabase::TypeConstructorPair getArgumentAsTypeConstructorPair(
 		int type = mewa::lua::getArgumentAsNonNegativeInteger( functionName, ls, li);
 		return mewa::TypeDatabase::TypeConstructorPair( type, 0/*constructor*/);
 	}
+	else if (lua_type( ls, li) != LUA_TTABLE)
+	{
+		mewa::lua::throwArgumentError( functionName, -1, mewa::Error::ExpectedArgumentTypeConstructorPairList);
+	}
 	else
 	{
 		lua_pushvalue( ls, li);
@@ -261,7 +292,7 @@ static mewa::TypeDatabase::TypeConstructorPair getArgumentAsTypeConstructorPair(
 				int kidx = getTableIndex( ls, -2);
 				if (kidx == 1)
 				{
-					type = lua_tointeger( ls, -1);
+					type = getTypeMember( functionName, ls, -1, mewa::Error::ExpectedArgumentTypeConstructorPairList);
 				}
 				else if (kidx == 2)
 				{
@@ -279,7 +310,7 @@ static mewa::TypeDatabase::TypeConstructorPair getArgumentAsTypeConstructorPair(
 				char const* str = lua_tolstring( ls, -2, &len);
 				if (len == 4 && 0==std::memcmp( str, "type", len))
 				{
-					type = lua_tointeger( ls, -1);
+					type = getTypeMember( functionName, ls, -1, mewa::Error::ExpectedArgumentTypeConstructorPairList);
 				}
 				else if (len == 11 && 0==std::memcmp( str, "constructor", len))
 				{
@@ -309,36 +340,14 @@ std::pmr::vector<mewa::TypeDatabase::TypeConstructorPair>
 	if (lua_isnil( ls, li)) return rt;
 	checkArgumentAsTable( functionName, ls, li);
 
-	lua_pushvalue( ls, li);
-	lua_pushnil( ls);								//STK: [PARAMTAB] NIL
-	while (lua_next( ls, -2))							//STK: [PARAMTAB] [KEY] [VAL]
+	int size = getArraySize( ls, li);
+	if (size < 0) mewa::lua::throwArgumentError( functionName, li, mewa::Error::ExpectedArgumentTypeConstructorPairList);
+	for (int index = 1; index <= size; ++index)
 	{
-		if (lua_type( ls, -2) == LUA_TNUMBER)
-		{
-			int kidx = getTableIndex( ls, -2);
-			if (!kidx) mewa::lua::throwArgumentError( functionName, li, mewa::Error::ExpectedArgumentTypeConstructorPairList);
-
-			std::size_t index = kidx-1;
-			if (index == rt.size())
-			{
-				rt.emplace_back( getArgumentAsTypeConstructorPair( functionName, ls, -1));	//STK: [PARAMTAB] [KEY] [VAL]
-			}
-			else
-			{
-				if (index > rt.size())
-				{
-					rt.resize( index+1, mewa::TypeDatabase::TypeConstructorPair( -1, -1));
-				}
-			}
-				rt[ index] = getArgumentAsTypeConstructorPair( functionName, ls, -1);		//STK: [PARAMTAB] [KEY] [VAL]
-		}
-		else
-		{
-			throwArgumentError( functionName, li, mewa::Error::ExpectedArgumentTypeConstructorPairList);
-		}
-		lua_pop( ls, 1);											//STK: [PARAMTAB] [KEY]
+		lua_rawgeti( ls, li, index);									//STK: [VAL]
+		rt.emplace_back( getArgumentAsTypeConstructorPair( functionName, ls, -1));			//STK: [VAL]
+		lua_pop( ls, 1);										//STK:
 	}
-	lua_pop( ls, 1);												//STK:
 	return rt;
 }
 
@@ -348,27 +357,15 @@ std::vector<std::string> mewa::lua::getArgumentAsStringList( const char* functio
 	if (lua_isnil( ls, li)) return rt;
 	checkArgumentAsTable( functionName, ls, li);
 
-	lua_pushvalue( ls, li);
-	lua_pushnil( ls);		//STK: [STRLIST] NIL
-	while (lua_next( ls, -2))	//STK: [STRLIST] [KEY] [VAL]
+	int size = getArraySize( ls, li);
+	if (size < 0) throwArgumentError( functionName, li, mewa::Error::ExpectedArgumentStringList);
+	for (int index = 1; index <= size; ++index)
 	{
-		if (lua_type( ls, -2) == LUA_TNUMBER && lua_type( ls, -1) == LUA_TSTRING)
-		{
-			int kidx = getTableIndex( ls, -2);
-			if (!kidx) throwArgumentError( functionName, li, mewa::Error::ExpectedArgumentStringList);
-			while (kidx > (int)rt.size())
-			{
-				rt.push_back( std::string());
-			}
-			rt[ kidx-1] = lua_tostring( ls, -1);
-		}
-		else
-		{
-			throwArgumentError( functionName, li, mewa::Error::ExpectedArgumentStringList);
-		}
-		lua_pop( ls, 1);	//STK: [STRLIST] [KEY]
+		lua_rawgeti( ls, li, index);	//STK: [VAL]
+		if (lua_type( ls, -1) != LUA_TSTRING) throwArgumentError( functionName, li, mewa::Error::ExpectedArgumentStringList);
+		rt.push_back( lua_tostring( ls, -1));
+		lua_pop( ls, 1);		//STK:
 	}
-	lua_pop( ls, 1);		//STK:
 	return rt;
 }
 
@@ -379,16 +376,8 @@ int mewa::lua::getArgumentAsType( const char* functionName, lua_State* ls, int l
 	{
 		lua_pushliteral( ls, "type");			// STK: [ARG] "type"
 		lua_rawget( ls, li > 0 ? li : (li-1));		// STK: [ARG] [TYPE]
-		if (lua_isnumber( ls, -1))
-		{
-			rt = lua_tointeger( ls, -1);
-			if (rt < 0) mewa::lua::throwArgumentError( functionName, li, mewa::Error::ExpectedArgumentType);
-			lua_pop( ls, 1);
-		}
-		else
-		{
-			mewa::lua::throwArgumentError( functionName, li, mewa::Error::ExpectedArgumentType);
-		}
+		rt = getTypeMember( functionName, ls, li, mewa::Error::ExpectedArgumentType);
+		lua_pop( ls, 1);
 	}
 	else
 	{
@@ -404,74 +393,28 @@ std::pmr::vector<int> mewa::lua::getArgumentAsTypeList(
 	if (lua_isnil( ls, li)) return rt;
 	checkArgumentAsTable( functionName, ls, li);
 
-	lua_pushvalue( ls, li);
-	lua_pushnil( ls);		//STK: [PARAMTAB] NIL
-	while (lua_next( ls, -2))	//STK: [PARAMTAB] [KEY] [VAL]
+	mewa::Error::Code ec = allowTypeConstructorPairs ? mewa::Error::ExpectedArgumentTypeOrTypeConstructorPairList : mewa::Error::ExpectedArgumentTypeList;
+	int size = getArraySize( ls, li);
+	if (size < 0) mewa::lua::throwArgumentError( functionName, li, ec);
+	for (int index = 1; index <= size; ++index)
 	{
-		if (lua_type( ls, -2) == LUA_TNUMBER)
+		lua_rawgeti( ls, li, index);	//STK: [VAL]
+		int type = -1;
+		if (lua_type( ls, -1) == LUA_TTABLE)
 		{
-			int kidx = getTableIndex( ls, -2);
-			if (!kidx) mewa::lua::throwArgumentError(
-					functionName, li, allowTypeConstructorPairs
-								? mewa::Error::ExpectedArgumentTypeList
-								: mewa::Error::ExpectedArgumentTypeOrTypeConstructorPairList);
-
-			int type = -1;
-			if (lua_type( ls, -1) == LUA_TTABLE)
-			{
-				if (allowTypeConstructorPairs)
-				{
-					lua_pushliteral( ls, "type");					// STK: [KEY] [VAL] "type"
-					lua_rawget( ls, -2);						// STK: [KEY] [VAL] [TYPE]
-					if (lua_isnumber( ls, -1))
-					{
-						type = lua_tointeger( ls, -1);
-					}
-					else
-					{
-						mewa::lua::throwArgumentError(
-								functionName, li, allowTypeConstructorPairs
-											? mewa::Error::ExpectedArgumentTypeList
-											: mewa::Error::ExpectedArgumentTypeOrTypeConstructorPairList);
-					}
-					lua_pop( ls, 1);						// STK: [KEY] [VAL]
-				}
-				else
-				{
-					mewa::lua::throwArgumentError(
-						functionName, li, allowTypeConstructorPairs
-									? mewa::Error::ExpectedArgumentTypeList
-									: mewa::Error::ExpectedArgumentTypeOrTypeConstructorPairList);
-				}
-			}
-			else
-			{
-				type = mewa::lua::getArgumentAsNonNegativeInteger( functionName, ls, -1);
-			}
-			std::size_t index = kidx-1;
-			if (index == rt.size())
-			{
-				rt.push_back( type);
-			}
-			else
-			{
-				if (index > rt.size())
-				{
-					rt.resize( index+1, 0);
-				}
-				rt[ index] = type;
-			}
+			if (!allowTypeConstructorPairs) mewa::lua::throwArgumentError( functionName, li, ec);
+			lua_pushliteral( ls, "type");						// STK: [VAL] "type"
+			lua_rawget( ls, -2);							// STK: [VAL] [TYPE]
+			type = getTypeMember( functionName, ls, li, ec);
+			lua_pop( ls, 1);							// STK: [VAL]
 		}
 		else
 		{
-			mewa::lua::throwArgumentError(
-				functionName, li, allowTypeConstructorPairs
-							? mewa::Error::ExpectedArgumentTypeList
-							: mewa::Error::ExpectedArgumentTypeOrTypeConstructorPairList);
+			type = mewa::lua::getArgumentAsNonNegativeInteger( functionName, ls, -1);
 		}
-		lua_pop( ls, 1);	//STK: [PARAMTAB] [KEY]
+		rt.push_back( type);
+		lua_pop( ls, 1);		//STK:
 	}
-	lua_pop( ls, 1);		//STK:
 	return rt;
 }
 
-- 
2.43.0


From 9d99a11007bed0d64e672cfe9c94e8283a54a38e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:48 +0000
Subject: [PATCH 24/45] fix: mewa.stacktrace read outside of the list of lines
 for the main chunk

---
 src/lua_parameter.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/lua_parameter.cpp b/src/lua_parameter.cpp
index d41c188..f87f1f1 100644
--- a/src/lua_parameter.cpp
+++ b/src/lua_parameter.cpp
@@ -632,6 +632,14 @@ void mewa::lua::pushStackTrace( lua_State* ls, const char* functionName, int nn,
 		lua_pushliteral( ls, "file");						// STK: [STKTR] [ELEM] "file"
 		lua_pushstring( ls, ar.short_src);					// STK: [STKTR] [ELEM] "file" [FILENAME]
 		lua_rawset( ls, -3);							// STK: [STKTR] [ELEM]
+		if (ar.linedefined < 1)
+		{
+			// ... main chunk of a script, not a function
+			lua_rawseti( ls, -2, resultIndex);				// STK: [STKTR]
+			++resultIndex;
+			++ridx;
+			continue;
+		}
 		auto fi = locationMap.find( ar.short_src);
 		if (fi == locationMap.end())
 		{
-- 
2.43.0


From 3bcbfc5c0fbe0bfaf97ae0145af2478592e1f3d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:24 +0000
Subject: [PATCH 25/45] fix: serialization of nested tables overran the Lua
 stack

---
 src/lua_serialize.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lua_serialize.cpp b/src/lua_serialize.cpp
index bf9e705..843a4ce 100644
--- a/src/lua_serialize.cpp
+++ b/src/lua_serialize.cpp
@@ -10,6 +10,7 @@
 /// \brief Serialization of lua data structures
 /// \file "lua_serialize.hpp"
 #include "lua_serialize.hpp"
+#include "error.hpp"
 #include <vector>
 #include <iostream>
 #include <sstream>
@@ -125,6 +126,8 @@ struct LuaTableKey
 
 static void serializeLuaTable( std::ostream& out, lua_State* ls, int li, const std::string& indent, int depth)
 {
+	if (!lua_checkstack( ls, 6)) throw mewa::Error( mewa::Error::LuaStackOutOfMemory, "mewa.tostring");
+
 	std::vector<LuaTableKey> keyvec;
 	keyvec.reserve( 1024);
 	bool hasNameKeys = false;
-- 
2.43.0


From 80c399fe946a8e44cd470815627516b589926077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:46 +0000
Subject: [PATCH 26/45] fix: serialization printed other numbers and keys than
 the ones of the table

---
 src/lua_serialize.cpp | 44 +++++++++++++++++++++++++------------------
 1 file changed, 26 insertions(+), 18 deletions(-)

diff --git a/src/lua_serialize.cpp b/src/lua_serialize.cpp
index 843a4ce..f05fc5d 100644
--- a/src/lua_serialize.cpp
+++ b/src/lua_serialize.cpp
@@ -17,6 +17,10 @@
 #include <variant>
 #include <limits>
 #include <cmath>
+#include <cstdio>
+#include <cstdlib>
+#include <cstring>
+#include <string_view>
 #include <algorithm>
 
 extern "C" {
@@ -32,20 +36,31 @@ using namespace mewa;
 
 static void serializeLuaValue( std::ostream& out, lua_State* ls, int li, const std::string& indent, int depth);
 
-static void serializeLuaNumber( std::ostream& out, lua_State* ls, int li)
+/// \brief Print a number with as many digits as needed to get the same number when reading it
+static void serializeNumber( std::ostream& out, double num)
 {
-	double num;
-	num = lua_tonumber( ls, li);
-	if (num - std::floor( num) < std::numeric_limits<double>::epsilon()*4)
+	if (num == std::floor( num) && std::fabs( num) < 1e15)
 	{
-		out << lua_tointeger( ls, li);
+		out << (long long)num;
 	}
 	else
 	{
-		out << num;
+		char buf[ 64];
+		int precision = 6;
+		do
+		{
+			std::snprintf( buf, sizeof(buf), "%.*g", precision, num);
+		}
+		while (std::strtod( buf, nullptr) != num && ++precision <= 17);
+		out << buf;
 	}
 }
 
+static void serializeLuaNumber( std::ostream& out, lua_State* ls, int li)
+{
+	serializeNumber( out, lua_tonumber( ls, li));
+}
+
 struct LuaTableKey
 {
 	enum Type {NumberType,StringType};
@@ -91,15 +106,9 @@ struct LuaTableKey
 		{
 			case NumberType:
 			{
-				double num = std::get<double>(value);
-				if (num - std::floor( num) < std::numeric_limits<double>::epsilon()*4)
-				{
-					out << "[" << (int)(num + std::numeric_limits<double>::epsilon()*4) << "]";
-				}
-				else
-				{
-					out << "[" << std::get<double>(value) << "]";
-				}
+				out << "[";
+				serializeNumber( out, std::get<double>(value));
+				out << "]";
 				break;
 			}
 			case StringType:
@@ -148,7 +157,7 @@ static void serializeLuaTable( std::ostream& out, lua_State* ls, int li, const s
 		{
 			double kk = lua_tonumber( ls, -2);
 			++rowcnt;
-			if (!hasNameKeys && (kk - std::floor( kk) > std::numeric_limits<double>::epsilon()*4))
+			if (!hasNameKeys && kk != std::floor( kk))
 			{
 				hasNameKeys = true;
 			}
@@ -164,8 +173,7 @@ static void serializeLuaTable( std::ostream& out, lua_State* ls, int li, const s
 			hasNameKeys = true;
 		}
 		else if (rowcnt
-			&& (int)(std::get<double>(keyvec[0].value) + std::numeric_limits<double>::epsilon()*4) != 1
-			&& (int)(std::get<double>(keyvec.back().value) + std::numeric_limits<double>::epsilon()*4) != rowcnt)
+			&& (std::get<double>(keyvec[0].value) != 1.0 || std::get<double>(keyvec.back().value) != (double)rowcnt))
 		{
 			hasNameKeys = true;
 		}
-- 
2.43.0


From 2a51fd749269f9e51e65f6d8bbb40fba49843001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:06 +0000
Subject: [PATCH 27/45] fix: serialized strings and keys were not escaped or
 cut at a null character

---
 src/lua_serialize.cpp | 56 +++++++++++++++++++++++++++++--------------
 1 file changed, 38 insertions(+), 18 deletions(-)

diff --git a/src/lua_serialize.cpp b/src/lua_serialize.cpp
index f05fc5d..99c94a6 100644
--- a/src/lua_serialize.cpp
+++ b/src/lua_serialize.cpp
@@ -61,13 +61,22 @@ static void serializeLuaNumber( std::ostream& out, lua_State* ls, int li)
 	serializeNumber( out, lua_tonumber( ls, li));
 }
 
+static std::string encodeCString( std::string_view str);
+
+static std::string_view getLuaString( lua_State* ls, int li)
+{
+	std::size_t len = 0;
+	const char* str = lua_tolstring( ls, li, &len);
+	return std::string_view( str, len);
+}
+
 struct LuaTableKey
 {
 	enum Type {NumberType,StringType};
 	Type type;
-	std::variant<double,const char*> value;
+	std::variant<double,std::string_view> value;
 
-	LuaTableKey( const char* value_)
+	LuaTableKey( std::string_view value_)
 		:type(StringType),value(value_){}
 	LuaTableKey( const double value_)
 		:type(NumberType),value(value_){}
@@ -81,7 +90,7 @@ struct LuaTableKey
 			switch (type)
 			{
 				case NumberType: return std::get<double>(value) < std::get<double>(o.value);
-				case StringType: return std::strcmp( std::get<const char*>(value), std::get<const char*>(o.value)) < 0;
+				case StringType: return std::get<std::string_view>(value) < std::get<std::string_view>(o.value);
 			}
 		}
 		return (int)type < (int)o.type;
@@ -95,7 +104,7 @@ struct LuaTableKey
 				lua_pushnumber( ls, std::get<double>(value));
 				break;
 			case StringType:
-				lua_pushstring( ls, std::get<const char*>(value));
+				lua_pushlstring( ls, std::get<std::string_view>(value).data(), std::get<std::string_view>(value).size());
 				break;
 		}
 	}
@@ -114,11 +123,11 @@ struct LuaTableKey
 			case StringType:
 				if (isIdentifier())
 				{
-					out << std::get<const char*>(value);
+					out << std::get<std::string_view>(value);
 				}
 				else
 				{
-					out << "[\"" << std::get<const char*>(value) << "\"]";
+					out << "[\"" << encodeCString( std::get<std::string_view>(value)) << "\"]";
 				}
 				break;
 		}
@@ -126,10 +135,21 @@ struct LuaTableKey
 
 	bool isIdentifier() const noexcept
 	{
-		char const* si = std::get<const char*>(value);
-		if (*si >= '0' && *si <= '9') return false;
-		for (; *si && (((*si|32) >= 'a' && (*si|32) <= 'z') || (*si >= '0' && *si <= '9') || *si == '_'); ++si){}
-		return !*si;
+		static const char* keywords[] = {
+			"and","break","do","else","elseif","end","false","for","function","goto","if","in",
+			"local","nil","not","or","repeat","return","then","true","until","while"};
+
+		std::string_view str = std::get<std::string_view>(value);
+		if (str.empty() || (str[0] >= '0' && str[0] <= '9')) return false;
+		for (char ch : str)
+		{
+			if (!(((ch|32) >= 'a' && (ch|32) <= 'z') || (ch >= '0' && ch <= '9') || ch == '_')) return false;
+		}
+		for (const char* keyword : keywords)
+		{
+			if (str == keyword) return false;
+		}
+		return true;
 	}
 };
 
@@ -149,8 +169,7 @@ static void serializeLuaTable( std::ostream& out, lua_State* ls, int li, const s
 	{
 		if (lua_type( ls, -2) == LUA_TSTRING)
 		{
-			const char* sptr = lua_tostring( ls, -2);
-			keyvec.push_back( sptr);
+			keyvec.push_back( getLuaString( ls, -2));
 			hasNameKeys = true;
 		}
 		else if (lua_type( ls, -2) == LUA_TNUMBER)
@@ -213,12 +232,13 @@ static void serializeLuaTable( std::ostream& out, lua_State* ls, int li, const s
 	lua_pop( ls, 1); // ... pop table and keyvec
 }
 
-static std::string encodeCString( const char* str)
+static std::string encodeCString( std::string_view str)
 {
 	const char* HEX = "0123456789ABCDEF";
 	std::string rt;
-	char const* si = str;
-	for (; *si; ++si)
+	char const* si = str.data();
+	char const* se = si + str.size();
+	for (; si != se; ++si)
 	{
 		unsigned char ch = (unsigned char)*si;
 		if (ch < 32)
@@ -246,9 +266,9 @@ static std::string encodeCString( const char* str)
 				rt.append( buf);
 			}
 		}
-		else if (ch == '\\')
+		else if (ch == '\\' || ch == '"')
 		{
-			rt.push_back( ch);
+			rt.push_back( '\\');
 			rt.push_back( ch);
 		}
 		else
@@ -274,7 +294,7 @@ static void serializeLuaValue( std::ostream& out, lua_State* ls, int li, const s
 			out << (lua_toboolean( ls, li) ? "true" : "false");
 			break;
 		case LUA_TSTRING:
-			out << '"' << encodeCString( lua_tostring( ls, li)) << '"';
+			out << '"' << encodeCString( getLuaString( ls, li)) << '"';
 			break;
 		case LUA_TTABLE:
 			if (depth)
-- 
2.43.0


From 620cfd4b3c7fc31901fc72b1e58c964380e7ab4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:05 +0000
Subject: [PATCH 28/45] fix: typedb:def_type_as returned 0 instead of -1 for a
 duplicate definition

---
 src/lualib_mewa.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lualib_mewa.cpp b/src/lualib_mewa.cpp
index e993185..3f4244d 100644
--- a/src/lualib_mewa.cpp
+++ b/src/lualib_mewa.cpp
@@ -726,7 +726,7 @@ static int mewa_typedb_def_type_as( lua_State* ls)
 		std::string_view name = mewa::lua::getArgumentAsString( functionName, ls, 3);
 		int asType = mewa::lua::getArgumentAsUnsignedInteger( functionName, ls, 4);
 		int rt = td->impl->defineTypeAs( td->curScope, contextType, name, asType);
-		lua_pushinteger( ls, rt);
+		lua_pushinteger( ls, rt ? rt : -1/*duplicate definition*/);
 	}
 	catch (...) { lippincottFunction( ls); }
 	return 1;
-- 
2.43.0


From cc269ba09049d945c2ff784a3f76709cf3e50ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:27 +0000
Subject: [PATCH 29/45] fix: typedb:type_constructor refused the type 0 instead
 of returning nil

---
 src/lualib_mewa.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lualib_mewa.cpp b/src/lualib_mewa.cpp
index 3f4244d..34d28f2 100644
--- a/src/lualib_mewa.cpp
+++ b/src/lualib_mewa.cpp
@@ -1013,7 +1013,7 @@ static int mewa_typedb_type_constructor( lua_State* ls)
 	{
 		mewa::lua::checkNofArguments( functionName, ls, 2/*minNofArgs*/, 2/*maxNofArgs*/);
 		mewa::lua::checkStack( functionName, ls, 2);
-		int type = mewa::lua::getArgumentAsUnsignedInteger( functionName, ls, 2);
+		int type = mewa::lua::getArgumentAsNonNegativeInteger( functionName, ls, 2);
 		auto rt = td->impl->typeConstructor( type);
 		mewa::lua::pushTypeConstructor( ls, functionName, rt);
 	}
-- 
2.43.0


From 6fc30d7c71e26e17093d1c716cf254c265c2e07e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:14 +0000
Subject: [PATCH 30/45] fix: template_format keeps an empty pair of braces

---
 src/strings.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/strings.cpp b/src/strings.cpp
index 5351b97..316b4b5 100644
--- a/src/strings.cpp
+++ b/src/strings.cpp
@@ -105,7 +105,7 @@ std::string mewa::template_format( const std::string_view& templatstr, char sb,
 				{
 					for (++ki; ki != ke && isAlphaNum(*ki); ++ki){}
 				}
-				if (ki == ke)
+				if (ki == ke && ke != keystart)
 				{
 					rt.append( ti, ts-ti);
 					ti = te + 1;
-- 
2.43.0


From 41a94c9f9d1b2e4ba289a748e8bdc8902c90c15e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:52 +0000
Subject: [PATCH 31/45] fix: compiler:run without target file writes the code
 printed

---
 src/lualib_mewa.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/lualib_mewa.cpp b/src/lualib_mewa.cpp
index 34d28f2..2bd39b3 100644
--- a/src/lualib_mewa.cpp
+++ b/src/lualib_mewa.cpp
@@ -432,8 +432,7 @@ static int mewa_compiler_run( lua_State* ls)
 
 		std::string sourcestr_ = mewa::readFile( std::string(filename));
 		std::string_view sourceptr = move_string_on_lua_stack( ls, std::move( sourcestr_));	// STK: [COMPILER] [INPUTFILE] [SOURCE]
-		std::string targetstr_;
-		if (targetfn[0]) targetstr_ = mewa::readFile( std::string(targetfn));
+		std::string targetstr_ = targetfn[0] ? mewa::readFile( std::string(targetfn)) : std::string("{Code}");
 		std::string_view targetptr = move_string_on_lua_stack( ls, std::move( targetstr_));	// STK: [COMPILER] [INPUTFILE] [SOURCE] [TARGET]
 
 		if (nargs >= 5)
-- 
2.43.0


From 79f14745c0fa6c82d17faa7cd8d6565b7c84c539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:33 +0000
Subject: [PATCH 32/45] fix: compiler:run starts with empty output buffers

---
 src/lua_userdata.hpp | 5 +++++
 src/lualib_mewa.cpp  | 1 +
 2 files changed, 6 insertions(+)

diff --git a/src/lua_userdata.hpp b/src/lua_userdata.hpp
index 2028c1d..6af2e0e 100644
--- a/src/lua_userdata.hpp
+++ b/src/lua_userdata.hpp
@@ -81,6 +81,11 @@ struct mewa_compiler_userdata_t
 		new (&outputSectionMap) OutputSectionMap();
 		callTableName.init();
 	}
+	void clearOutput()
+	{
+		outputBuffer.clear();
+		outputSectionMap.clear();
+	}
 	void closeOutput() noexcept
 	{
 		closeFile( debugFileHandle);
diff --git a/src/lualib_mewa.cpp b/src/lualib_mewa.cpp
index 2bd39b3..a2b90db 100644
--- a/src/lualib_mewa.cpp
+++ b/src/lualib_mewa.cpp
@@ -429,6 +429,7 @@ static int mewa_compiler_run( lua_State* ls)
 		char filename[ 256]; 	//... source filename
 		copyFileNameToBuffer( filename, sizeof(filename), mewa::lua::getArgumentAsString( functionName, ls, 4));
 		std::string_view outputfn = "stdout";
+		cp->clearOutput();
 
 		std::string sourcestr_ = mewa::readFile( std::string(filename));
 		std::string_view sourceptr = move_string_on_lua_stack( ls, std::move( sourcestr_));	// STK: [COMPILER] [INPUTFILE] [SOURCE]
-- 
2.43.0


From 418af605d169fa42dbc45a75e9b3fcdea854fb1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:04 +0000
Subject: [PATCH 33/45] fix: restore print and debug and close the debug file
 after an error in compiler:run

---
 src/lualib_mewa.cpp | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/src/lualib_mewa.cpp b/src/lualib_mewa.cpp
index a2b90db..d5a3ec7 100644
--- a/src/lualib_mewa.cpp
+++ b/src/lualib_mewa.cpp
@@ -407,10 +407,21 @@ static void copyFileNameToBuffer( char* buf, std::size_t bufsize, std::string_vi
 	std::memcpy( buf, str.data(), str.size());
 	buf[ str.size()] = 0;
 }
+
+/// \brief Restore the functions print and debug that have been left on the stack
+static void restorePrintFunctions( lua_State* ls)
+{
+				//STK: table=_G, key=print, value=function key=debug, value=function
+	lua_settable( ls, -5);	//STK: table=_G, key=print, value=function
+	lua_settable( ls, -3);	//STK: table=_G
+	lua_pop( ls, 1);	//STK:
+}
+
 static int mewa_compiler_run( lua_State* ls)
 {
 	[[maybe_unused]] static const char* functionName = "compiler:run( target, options, inputfile, [,outputfile [,dbgoutput]])";
 	mewa_compiler_userdata_t* cp = (mewa_compiler_userdata_t*)luaL_checkudata( ls, 1, mewa_compiler_userdata_t::metatableName());
+	int restore_top = 0;	//... stack size with the functions to restore after the run on top
 	try
 	{
 		int nargs = mewa::lua::checkNofArguments( functionName, ls, 4/*minNofArgs*/, 6/*maxNofArgs*/);
@@ -457,6 +468,8 @@ static int mewa_compiler_run( lua_State* ls)
 		lua_pushliteral( ls, "debug");		// STK: table=_G, key=print, value=function key=debug key=debug
 		lua_gettable( ls, -5);			// STK: table=_G, key=print, value=function key=debug value=function
 
+		restore_top = lua_gettop( ls);
+
 		lua_getglobal( ls, "_G");
 		lua_pushlightuserdata( ls, cp);
 		luaL_setfuncs( ls, g_printlib, 1/*number of closure elements*/);
@@ -485,11 +498,8 @@ static int mewa_compiler_run( lua_State* ls)
 			}
 		}
 
-		// Restore old print function that has been left on the stack:
-					//STK: table=_G, key=print, value=function key=debug, value=function
-		lua_settable( ls, -5);	//STK: table=_G, key=print, value=function
-		lua_settable( ls, -3);	//STK: table=_G
-		lua_pop( ls, 1);	//STK:
+		restorePrintFunctions( ls);
+		restore_top = 0;
 		cp->closeOutput();
 		lua_pop( ls, 3);	// ... destroy strings on lua stack created with move_string_on_lua_stack and options
 
@@ -502,7 +512,16 @@ static int mewa_compiler_run( lua_State* ls)
 			std::cerr << "Warning: Called deprecated function typedb:get_type. This function has been renamed to typedb:this_type (issue #4)" << std::endl;
 		}
 	}
-	catch (...) { lippincottFunction( ls); }
+	catch (...)
+	{
+		if (restore_top)
+		{
+			lua_settop( ls, restore_top);
+			restorePrintFunctions( ls);
+		}
+		cp->closeOutput();
+		lippincottFunction( ls);
+	}
 	return 0;
 }
 
-- 
2.43.0


From 25a7f24fc8733c26d03926ffca700ab16f37a271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:29 +0000
Subject: [PATCH 34/45] fix: fileBaseName reads behind the end of the file name

---
 src/fileio.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fileio.cpp b/src/fileio.cpp
index 9288202..0ba4629 100644
--- a/src/fileio.cpp
+++ b/src/fileio.cpp
@@ -106,8 +106,10 @@ std::string mewa::fileBaseName( const std::string_view& fnam)
 	if (nn >= sizeof(buf)) throw Error( Error::InternalBufferOverflow, fnam);
 	std::memcpy( buf, fnam.data(), nn);
 	buf[ nn] = 0;
+	if (!nn) return std::string();
 	char* bn = ::basename( buf);
-	std::size_t ee = std::strchr( bn, '\0')-bn;
+	nn = std::strlen( bn);
+	std::size_t ee = nn;
 	for (; ee > 0 && bn[ ee] != '.'; --ee){}
 	if (ee != 0) nn = ee;
 	return std::string( bn, nn);
-- 
2.43.0


From eed95a22c05c7b0970ecaae6ae851a35686e94ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:00 +0000
Subject: [PATCH 35/45] fix: report the error code of failed file operations

---
 src/fileio.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/fileio.cpp b/src/fileio.cpp
index 0ba4629..e21b86f 100644
--- a/src/fileio.cpp
+++ b/src/fileio.cpp
@@ -25,10 +25,11 @@ void mewa::writeFile( const char* filename, const std::string& content)
 	if (!ff) throw Error( (Error::Code)errno, filename);
 	if (content.size() != std::fwrite( content.c_str(), 1, content.size(), ff))
 	{
+		int eno = errno;
 		std::fclose( ff);
-		throw Error( (Error::Code)std::ferror( ff), filename);
+		throw Error( (Error::Code)eno, filename);
 	}
-	std::fclose( ff);
+	if (std::fclose( ff) != 0) throw Error( (Error::Code)errno, filename);
 }
 
 void mewa::writeFile( const std::string& filename, const std::string& content)
@@ -51,7 +52,7 @@ std::string mewa::readFile( const char* filename)
 	}
 	rt.append( rbuf, nn);
 
-	int eno = std::ferror( ff);
+	int eno = std::ferror( ff) ? errno : 0;
 	bool eof = std::feof( ff);
 	std::fclose( ff);
 
-- 
2.43.0


From 1c35385d4378c9ae3cbeaa0f97cf4465e3388d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:41 +0000
Subject: [PATCH 36/45] fix: detect failed writes of debug output

---
 src/lualib_mewa.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lualib_mewa.cpp b/src/lualib_mewa.cpp
index d5a3ec7..f22cfc5 100644
--- a/src/lualib_mewa.cpp
+++ b/src/lualib_mewa.cpp
@@ -144,9 +144,9 @@ static int lua_print_redirected_impl( lua_State* ls, FILE* fh)
 			}
 			catch (...) {lippincottFunction( ls);}
 		}
-		if (len < std::fwrite( str, 1, len, fh))
+		if (len > std::fwrite( str, 1, len, fh))
 		{
-			int ec = std::ferror( fh);
+			int ec = errno;
 			mewa::Error err( (mewa::Error::Code)ec, functionName);
 			luaL_error( ls, "%s", err.what());
 		}
@@ -154,7 +154,7 @@ static int lua_print_redirected_impl( lua_State* ls, FILE* fh)
 	// Print eoln:
 	if (1 > std::fwrite( "\n", 1, 1, fh))
 	{
-		int ec = std::ferror( fh);
+		int ec = errno;
 		mewa::Error err( (mewa::Error::Code)ec, functionName);
 		luaL_error( ls, "%s", err.what());
 	}
-- 
2.43.0


From 9a2886f88c1d39abec5ade44fa748d732ac4229f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:46 +0000
Subject: [PATCH 37/45] fix: llvm_float_tohex prints numbers out of the range
 of normal floats as constants that are refused by LLVM

---
 src/lualib_mewa.cpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/lualib_mewa.cpp b/src/lualib_mewa.cpp
index f22cfc5..37d4dfc 100644
--- a/src/lualib_mewa.cpp
+++ b/src/lualib_mewa.cpp
@@ -278,15 +278,11 @@ static int mewa_llvm_float_tohex( lua_State* ls)
 	try
 	{
 		mewa::lua::checkNofArguments( functionName, ls, 1/*minNofArgs*/, 1/*maxNofArgs*/);
-		double num = mewa::lua::getArgumentAsFloatingPoint( functionName, ls, 1);
+		// LLVM accepts only constants that are exactly representable as float:
+		double num = (float)mewa::lua::getArgumentAsFloatingPoint( functionName, ls, 1);
 		char buf[ 64];
 		int64_t encnum;
 		std::memmove( &encnum, &num, sizeof( encnum));
-		encnum >>= 28;
-		bool doinc = (encnum & 1);
-		if (doinc) ++encnum;
-		encnum = (encnum >> 1);
-		encnum = (encnum << 29);
 		const char* fmt64 = sizeof(long) == 8 ? "%lx" : "%llx";
 		std::snprintf( buf, sizeof(buf), fmt64, encnum);
 		for (char* bi = buf; *bi; ++bi) if (*bi >= 'a' && *bi <= 'z') {*bi -= 32;}
-- 
2.43.0


From e886ae9f6bfbb998f66a2ffeef834202436fadbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:55 +0000
Subject: [PATCH 38/45] fix: block comments in grammar files with more than one
 line caused an endless loop when printing the language description

---
 src/automaton_parser.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/automaton_parser.cpp b/src/automaton_parser.cpp
index 2469861..e2a13d0 100644
--- a/src/automaton_parser.cpp
+++ b/src/automaton_parser.cpp
@@ -742,15 +742,15 @@ std::string mewa::printLuaTypeSystemStub( const LanguageDef& langdef)
 	return rt;
 }
 
-static char const* skipSpaces( char const* str, const char* end=nullptr)
+static char const* skipSpaces( char const* str, const char* end)
 {
-	for (; (unsigned char)*str <= 32 && *str != '\n' && str != end; ++str){}
+	for (; str != end && (unsigned char)*str <= 32 && *str != '\n'; ++str){}
 	return str;
 }
 
-static char const* skipEoln( char const* str, const char* end=nullptr)
+static char const* skipEoln( char const* str, const char* end)
 {
-	for (; *str != '\n' && str != end; ++str){}
+	for (; str != end && *str != '\n'; ++str){}
 	return str;
 }
 
@@ -763,6 +763,7 @@ static std::vector<std::string> splitLines( char const* str, std::size_t sz)
 		const char* start = skipSpaces( str, end); //skip leading spaces
 		str = skipEoln( start, end);
 		std::size_t nn = str-start;
+		if (str < end) ++str; //skip end of line
 		while (nn > 0 && (unsigned char)start[ nn-1] <= 32)
 		{
 			--nn;
-- 
2.43.0


From 860f57dfd3dcfffa6be6e252478cc0d3cf9606e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:23 +0000
Subject: [PATCH 39/45] fix: the contents of comments in a grammar attached as
 attributes to definitions had their end marker and following white space
 included, and characters after block comments were skipped

---
 src/automaton_parser.cpp | 32 +++++++++++---------------------
 1 file changed, 11 insertions(+), 21 deletions(-)

diff --git a/src/automaton_parser.cpp b/src/automaton_parser.cpp
index e2a13d0..c9a11db 100644
--- a/src/automaton_parser.cpp
+++ b/src/automaton_parser.cpp
@@ -17,6 +17,7 @@
 #include <map>
 #include <algorithm>
 #include <limits>
+#include <cstring>
 #include <type_traits>
 
 using namespace mewa;
@@ -827,39 +828,28 @@ LanguageDecoratorMap mewa::parseLanguageDecoratorMap( const std::string& source)
 	Lexem lexem( 1/*line*/);
 	std::vector<std::string> comment;
 	std::vector<LanguageDecorator> decorators;
-	std::size_t symlen = 0;
 	int line = 0;
 	char const* start = scanner.next();
-	for (; *start; start = scanner.next( symlen))
+	for (; *start; start = scanner.next())
 	{
 		comment.clear();
 		if (start[0] == '#' || (start[0] == '/' && start[1] == '/'))
 		{
-			line = scanner.line();
-			start += start[0] == '#' ? 1:2;
-			if (scanner.scan( "\n"))
-			{
-				comment.emplace_back( start, scanner.current() - start - 1);
-			}
-			else
-			{
-				comment.emplace_back( start);
-			}
-			symlen = 0;
+			char const* content = start + (start[0] == '#' ? 1:2);
+			char const* end = skipEoln( content, source.c_str() + source.size());
+			comment.emplace_back( content, end - content);
+			scanner.next( end - start);
 		}
 		else if (start[0] == '/' && start[1] == '*')
 		{
-			line = scanner.line();
-			start += 2;
-			if (scanner.scan( "*/"))
-			{
-				comment = splitLines( start, scanner.current() - start);
-			}
-			else
+			char const* content = start + 2;
+			char const* end = std::strstr( content, "*/");
+			if (!end)
 			{
 				throw Error( Error::UnexpectedEofInGrammarDef);
 			}
-			symlen = 1;
+			comment = splitLines( content, end - content);
+			scanner.next( end + 2 - start);
 		}
 		else
 		{
-- 
2.43.0


From 992a2b19454c711c94033ee5ded68a39de7064d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:54 +0000
Subject: [PATCH 40/45] fix: lines of comments in a grammar with an '@' without
 a name are content of an attribute

---
 src/automaton_parser.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/automaton_parser.cpp b/src/automaton_parser.cpp
index c9a11db..3095c62 100644
--- a/src/automaton_parser.cpp
+++ b/src/automaton_parser.cpp
@@ -789,14 +789,14 @@ static std::pair<std::string,std::string> splitDecoratorDef( const std::string&
 		{
 			++cc;
 		}
-		std::string id( start,cc-start);
-		cc = skipSpaces( cc, ln.c_str() + ln.size());
-		return {id, std::string(cc)};
-	}
-	else
-	{
-		return {"",lp};
+		if (cc != start)
+		{
+			std::string id( start,cc-start);
+			cc = skipSpaces( cc, ln.c_str() + ln.size());
+			return {id, std::string(cc)};
+		}
 	}
+	return {"",lp};
 }
 
 static void extractDecorators( std::vector<LanguageDecorator>& res, const std::vector<std::string>& comment)
-- 
2.43.0


From da2ae37d68797f70d73153bf766c85da3600fbcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:27 +0000
Subject: [PATCH 41/45] fix: the type system stub generated had functions
 without the declaration parameter though called with an argument

---
 src/automaton_parser.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/automaton_parser.cpp b/src/automaton_parser.cpp
index 3095c62..ab7af1f 100644
--- a/src/automaton_parser.cpp
+++ b/src/automaton_parser.cpp
@@ -726,13 +726,18 @@ std::string mewa::printLuaTypeSystemStub( const LanguageDef& langdef)
 {
 	std::string rt = mewa::string_format( "local mewa = require \"mewa\"\nlocal typedb = mewa.typedb()\nlocal typesystem = {}\n\n");
 	std::set<std::string> fset;
-	for (auto call : langdef.calls)
+	std::set<std::string> argset;
+	for (auto const& call : langdef.calls)
+	{
+		if (call.argtype() != Automaton::Call::NoArg) argset.insert( call.function());
+	}
+	for (auto const& call : langdef.calls)
 	{
 		auto ins = fset.insert( call.function());
 		if (ins.second == true/*insert took place*/)
 		{
 			std::string argstr;
-			if (call.argtype() != Automaton::Call::NoArg)
+			if (argset.count( call.function()))
 			{
 				argstr.append(", decl");
 			}
-- 
2.43.0


From 7ecd8d11db715b097b54c143d7b9f1bcf99b9b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:57 +0000
Subject: [PATCH 42/45] fix: attributes in the language description printed
 that are no names in Lua made it unreadable

---
 src/languagedef_tostring.cpp | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/languagedef_tostring.cpp b/src/languagedef_tostring.cpp
index 3fdafdf..e5f97d5 100644
--- a/src/languagedef_tostring.cpp
+++ b/src/languagedef_tostring.cpp
@@ -65,12 +65,31 @@ static void printArgument( std::ostream& outstream, const char* type, int arg)
 	outstream << arg;
 }
 
+static void printName( std::ostream& outstream, const std::string& name)
+{
+	static const char* keywords[] = {"and","break","do","else","elseif","end","false","for","function","goto","if","in","local","nil","not","or","repeat","return","then","true","until","while",nullptr};
+	bool valid = !(name[0] >= '0' && name[0] <= '9');
+	for (int ki=0; keywords[ ki]; ++ki)
+	{
+		if (name == keywords[ ki]) valid = false;
+	}
+	if (valid)
+	{
+		outstream << name;
+	}
+	else
+	{
+		outstream << "[\"" << name << "\"]";
+	}
+}
+
 static void printDecorators( std::ostream& outstream, const std::vector<LanguageDecorator>& decorators)
 {
 	for (auto const& dc : decorators)
 	{
 		outstream << ",";
-		printArgument( outstream, dc.name.c_str(), dc.content);
+		printName( outstream, dc.name);
+		printArgument( outstream, "", dc.content);
 	}
 }
 
-- 
2.43.0


From 868909a8e502f331245195d6537c66368029a463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:41 +0000
Subject: [PATCH 43/45] fix: options of the program mewa with the argument
 separated (--output FILE) were refused, -tFILE took the name of the file as
 template, short arguments were read beyond their end

---
 src/mewa.cpp | 32 +++++++++++++++++++++++---------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/src/mewa.cpp b/src/mewa.cpp
index 687aa01..6f22cde 100644
--- a/src/mewa.cpp
+++ b/src/mewa.cpp
@@ -154,6 +154,20 @@ static void printAutomaton( const std::string& filename, const std::string& temp
 	}
 }
 
+static bool isOptionWithArgument( char const* arg, char const* shortopt, char const* longopt)
+{
+	if (0==std::strncmp( arg, shortopt, std::strlen( shortopt))) return true;
+	std::size_t longoptlen = std::strlen( longopt);
+	return 0==std::strncmp( arg, longopt, longoptlen) && (arg[ longoptlen] == '=' || arg[ longoptlen] == '\0');
+}
+
+static int optionArgumentOffset( char const* arg)
+{
+	if (arg[1] != '-') return 2;
+	char const* eq = std::strchr( arg, '=');
+	return eq ? (eq - arg + 1) : std::strlen( arg);
+}
+
 int main( int argc, const char* argv[] )
 {
 	try
@@ -219,7 +233,7 @@ int main( int argc, const char* argv[] )
 				}
 				cmd = GenerateLanguageDescriptionForLua;
 			}
-			else if (0==std::memcmp( argv[argi], "-b", 2) || 0==std::memcmp( argv[argi], "--luabin=", 9))
+			else if (isOptionWithArgument( argv[argi], "-b", "--luabin"))
 			{
 				if (cmd == GenerateTypesystemTemplateForLua)
 				{
@@ -227,7 +241,7 @@ int main( int argc, const char* argv[] )
 					printUsage();
 					return ERRCODE_INVALID_ARGUMENTS;
 				}
-				int optofs = (argv[argi][1] == '-') ? 9:2;
+				int optofs = optionArgumentOffset( argv[argi]);
 				if (argv[argi][ optofs])
 				{
 					luabin = argv[argi]+optofs;
@@ -244,9 +258,9 @@ int main( int argc, const char* argv[] )
 					luabin = argv[argi];
 				}
 			}
-			else if (0==std::memcmp( argv[argi], "-o", 2) || 0==std::memcmp( argv[argi], "--output=", 9))
+			else if (isOptionWithArgument( argv[argi], "-o", "--output"))
 			{
-				int optofs = (argv[argi][1] == '-') ? 9:2;
+				int optofs = optionArgumentOffset( argv[argi]);
 				if (argv[argi][ optofs])
 				{
 					outputFilename = argv[argi]+optofs;
@@ -263,7 +277,7 @@ int main( int argc, const char* argv[] )
 					outputFilename = argv[argi];
 				}
 			}
-			else if (0==std::memcmp( argv[argi], "-d", 2) || 0==std::memcmp( argv[argi], "--dbgout=", 9))
+			else if (isOptionWithArgument( argv[argi], "-d", "--dbgout"))
 			{
 				if (cmd == GenerateTypesystemTemplateForLua)
 				{
@@ -271,7 +285,7 @@ int main( int argc, const char* argv[] )
 					printUsage();
 					return ERRCODE_INVALID_ARGUMENTS;
 				}
-				int optofs = (argv[argi][1] == '-') ? 9:2;
+				int optofs = optionArgumentOffset( argv[argi]);
 				if (argv[argi][ optofs])
 				{
 					debugFilename = argv[argi]+optofs;
@@ -290,7 +304,7 @@ int main( int argc, const char* argv[] )
 					verbose = true;
 				}
 			}
-			else if (0==std::memcmp( argv[argi], "-t", 2) || 0==std::memcmp( argv[argi], "--template=", 11))
+			else if (isOptionWithArgument( argv[argi], "-t", "--template"))
 			{
 				if (cmd == GenerateTypesystemTemplateForLua)
 				{
@@ -298,10 +312,10 @@ int main( int argc, const char* argv[] )
 					printUsage();
 					return ERRCODE_INVALID_ARGUMENTS;
 				}
-				int optofs = (argv[argi][1] == '-') ? 11:2;
+				int optofs = optionArgumentOffset( argv[argi]);
 				if (argv[argi][ optofs])
 				{
-					templat = argv[argi]+optofs;
+					templat = readFile( argv[argi]+optofs);
 				}
 				else
 				{
-- 
2.43.0


From e5d1bf14015a3d8519ef35b8179c89328082a1aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:16 +0000
Subject: [PATCH 44/45] fix: variables in templates of the program mewa were
 replaced only once and searched for in the values inserted too

---
 src/mewa.cpp | 43 +++++++++++++++++++++----------------------
 1 file changed, 21 insertions(+), 22 deletions(-)

diff --git a/src/mewa.cpp b/src/mewa.cpp
index 6f22cde..e8ee540 100644
--- a/src/mewa.cpp
+++ b/src/mewa.cpp
@@ -111,35 +111,34 @@ compiler:run( nil, nil, arg[1])
 
 
 
-static std::string mapTemplateKey( const std::string& content, const char* key, const std::string& value)
+static std::string mapTemplate( const std::string& templat, const Automaton& automaton, const std::string& luabin)
 {
+	const std::vector<std::pair<std::string,std::string> > variables = {
+		{"%luabin%", luabin},
+		{"%typesystem%", automaton.typesystem()},
+		{"%language%", automaton.language()},
+		{"%cmdline%", automaton.cmdline()},
+		{"%automaton%", automaton.tostring()}
+	};
 	std::string rt;
-	std::string pattern = std::string("%") + key + "%";
-	char const* pp = std::strstr( content.c_str(), pattern.c_str());
-	if (pp)
-	{
-		rt.append( content.c_str(), pp-content.c_str());
-		rt.append( value);
-		rt.append( pp + pattern.size());
-	}
-	else
+	std::size_t pos = 0;
+	while (pos < templat.size())
 	{
-		rt.append( content);
+		auto vi = variables.begin(), ve = variables.end();
+		for (; vi != ve && 0!=templat.compare( pos, vi->first.size(), vi->first); ++vi){}
+		if (vi != ve)
+		{
+			rt.append( vi->second);
+			pos += vi->first.size();
+		}
+		else
+		{
+			rt.push_back( templat[ pos++]);
+		}
 	}
 	return rt;
 }
 
-static std::string mapTemplate( const std::string& templat, const Automaton& automaton, const std::string& luabin)
-{
-	std::string rt = templat;
-	rt = mapTemplateKey( rt, "luabin", luabin);
-	rt = mapTemplateKey( rt, "typesystem", automaton.typesystem());
-	rt = mapTemplateKey( rt, "language", automaton.language());
-	rt = mapTemplateKey( rt, "cmdline", automaton.cmdline());
-	rt = mapTemplateKey( rt, "automaton", automaton.tostring());
-	return rt;
-}
-
 static void printAutomaton( const std::string& filename, const std::string& templat, const Automaton& automaton, const std::string& luabin)
 {
 	if (filename.empty())
-- 
2.43.0


From 8c58061d1d083864ce7fe1b6868c23563874fe23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:52:02 +0000
Subject: [PATCH 45/45] fix: output of a compiler to standard output or error
 and templates were cut at a null character

---
 src/lualib_mewa.cpp |  5 +++--
 src/strings.cpp     | 14 ++++++++------
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/lualib_mewa.cpp b/src/lualib_mewa.cpp
index 37d4dfc..5d1673d 100644
--- a/src/lualib_mewa.cpp
+++ b/src/lualib_mewa.cpp
@@ -482,11 +482,12 @@ static int mewa_compiler_run( lua_State* ls)
 			std::string output = mewa::template_format( targetptr, '{', '}', cp->outputSectionMap);
 			if (outputfn == "stderr")
 			{
-				std::fputs( output.c_str(), ::stderr);
+				std::fwrite( output.data(), 1, output.size(), ::stderr);
 			}
 			else if (outputfn == "stdout")
 			{
-				std::puts( output.c_str());
+				std::fwrite( output.data(), 1, output.size(), ::stdout);
+				std::fputc( '\n', ::stdout);
 			}
 			else
 			{
diff --git a/src/strings.cpp b/src/strings.cpp
index 316b4b5..8ed603a 100644
--- a/src/strings.cpp
+++ b/src/strings.cpp
@@ -82,11 +82,13 @@ std::string mewa::template_format( const std::string_view& templatstr, char sb,
 {
 	std::string rt;
 	char const* ti = templatstr.data();
-	char const* ts = std::strchr( ti, sb);
+	char const* const tend = ti + templatstr.size();
+	auto findChar = [tend]( char const* from, char ch) {return (char const*)std::memchr( from, ch, tend - from);};
+	char const* ts = findChar( ti, sb);
 	while (ts)
 	{
 		char const* keystart = ts+1;
-		char const* te = std::strchr( keystart, eb);
+		char const* te = findChar( keystart, eb);
 		if (te)
 		{
 			auto si = substmap.find( std::string( keystart, te-keystart));
@@ -95,7 +97,7 @@ std::string mewa::template_format( const std::string_view& templatstr, char sb,
 				rt.append( ti, ts-ti);
 				rt.append( si->second);
 				ti = te + 1;
-				if (!(ts = std::strchr( ti, sb))) break;
+				if (!(ts = findChar( ti, sb))) break;
 			}
 			else
 			{
@@ -109,18 +111,18 @@ std::string mewa::template_format( const std::string_view& templatstr, char sb,
 				{
 					rt.append( ti, ts-ti);
 					ti = te + 1;
-					if (!(ts = std::strchr( ti, sb))) break;
+					if (!(ts = findChar( ti, sb))) break;
 					// ... an identifier is mapped to an empty string if not found
 				}
 				else
 				{
-					if (!(ts = std::strchr( keystart, sb))) break;
+					if (!(ts = findChar( keystart, sb))) break;
 				}
 			}
 		}
 		else break;
 	}
-	rt.append( ti);
+	rt.append( ti, tend - ti);
 	return rt;
 }
 
-- 
2.43.0

