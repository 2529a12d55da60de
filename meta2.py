LXF = ['src/lexer.cpp', 'src/lexer.hpp', 'src/utf8.hpp']
prop('L01', 'The lexer splits every text into the longest matches without losing a byte',
 'Every text is split into tokens in order, each the longest match of a declared pattern at its position (on equal length keywords first, then the first declared), skipping only white space and tokens matching an ignore pattern; the value of a token is the selected part of the match, its line is the line it starts in. What no pattern matches is reported as one error token per character, and the end is reported exactly at the end. Every operator or keyword token is recognized where it is written.',
 ['inputs'], 'every text and every keyword',
 'Tests tokenize a few well formed texts.',
 LXF, [('candidates by first character, longest match', 'src/lexer.cpp Lexer::next'), ('keywords as escaped patterns', 'src/lexer.cpp stringToRegex')], ['Lexer::next', 'mewa compiler run on a text'])
prop('L02', 'Comments are skipped wherever a token may start and lines are counted',
 'A declared line comment extends to the end of its line, or of the text, and a declared block comment to the first closing token behind it; neither their content nor what looks like a comment inside of a token is ever tokenized differently. A block comment not closed is an error, and lines are counted inside of comments too.',
 ['inputs'], 'every text with comments', 'Tests have a few comments in the middle of texts; comments at the end of the text, empty or sharing prefixes are not sampled.',
 LXF, [('comment matching', 'src/lexer.cpp Lexer::next, matchEolnComment, matchBracketCommentStart'), ('scanner', 'src/lexer.cpp Scanner::scan, match, next')], ['Lexer::next'])
prop('L03', 'Indentation tokens are balanced and follow the indentation of the lines',
 'With %INDENTL, the first token of every line is preceded by a new line token, and by an open token if the line is indented deeper than the enclosing block or close tokens for every block it leaves; tabs count as the tab size. All blocks open are closed at the end of the text, so open and close tokens are always balanced.',
 ['inputs'], 'every text, also with comments, blank lines and mixed tabs and blanks', 'The single test program for it is consistently indented.',
 LXF, [('indentation stack', 'src/lexer.cpp Scanner::getIndentToken, getEofIndentToken, indentCount')], ['Lexer::next with INDENTL'])
prop('L04', 'The first-character filter of the lexer never hides a match of a pattern',
 'Whatever regular expression is declared for a token, it is either refused with an error or it is tried on every text it matches: the set of first characters computed from it contains the first character of every non-empty match that starts with a printable character.',
 ['inputs'], 'every pattern and every text', 'Tests compare the set of first characters of ten patterns.',
 LXF, [('first characters of a pattern', 'src/lexer.cpp LexemDef::activation')], ['Lexer::next with patterns of the user'])
prop('L05', 'A lexer rebuilt from its list of definitions behaves the same',
 'The list of definitions of a lexer determines it: a lexer built from the list has the same tokens with the same numbers, names and kinds, the same list of definitions, and splits every text the same way.',
 ['inputs', 'histories'], 'every list of definitions of all kinds in any order and every text', 'No test rebuilds a lexer.',
 LXF, [('list of definitions', 'src/lexer.cpp Lexer::getDefinitions, Lexer::Lexer')], ['Lexer::getDefinitions'])
AUF = ['src/automaton.cpp', 'src/automaton.hpp', 'src/automaton_structs.hpp', 'src/automaton_parser.cpp']
prop('A01', 'Packed table entries are read back unchanged and limits are enforced',
 'Every entry of the tables of the automaton (actions, gotos, their keys, items of states, priorities) keeps all its fields when it is packed into 32 bits and unpacked, and different keys stay different. A grammar that exceeds a limit of the packed form (rules, nonterminals, length of a rule, priority) is refused with the error of this limit, one below is accepted.',
 ['inputs'], 'every value of every field and every size of a grammar around the limits',
 'Tests build a few small grammars; values at the limits of the bit fields do not occur.',
 AUF, [('packed forms', 'src/automaton.hpp ActionKey, Action, GotoKey, Goto packed/unpack'), ('limits', 'src/automaton.cpp Automaton::build [2]; src/automaton_parser.cpp [5]')], ['Automaton::build', 'generated compilers'])
prop('A02', 'The parser accepts exactly the language of the grammar and reports conflicts',
 'For a grammar without priorities the automaton built accepts exactly the words derivable from the start symbol, every reduction replaces the right side of a rule by its left side and carries its function and scope attribute, and parsing terminates. A conflict is reported if the grammar is not LALR(1), and none is reported if it is (known finding: FOLLOW sets are too big for some LALR(1) grammars); rules that are unreachable or duplicated are refused.',
 ['inputs'], 'every grammar (of the shapes) and every text',
 'Tests build ten grammars and compare with stored results; a wrong FOLLOW set or a wrongly merged state only shows for particular grammars and texts.',
 AUF, [('LALR(1) construction', 'src/automaton.cpp getLr1TransitionStateClosure, calculateLalr1StateMap, Automaton::build [4]'), ('FIRST and nullable', 'src/automaton.cpp getNonTerminalFirstSetMap, getNullableNonterminalSet, getLr1FirstSet')], ['Automaton::build, actions, gotos'])
prop('A03', 'Priorities and associativity resolve shift/reduce conflicts as declared',
 'A shift/reduce conflict is decided by the higher priority, with equal priority by the associativity (left: reduce, right: shift); it is reported if a priority is missing, if the associativity differs or is not defined, if the priorities of the shift items differ, or if it is a reduce/reduce conflict. Resolved conflicts are not reported and do not change any other action of the automaton.',
 ['inputs'], 'every assignment of priorities to rules and every text',
 'The tests have two grammars with priorities, all consistent.',
 AUF, [('resolution of conflicts', 'src/automaton.cpp insertAction, getShiftNodes, getReductionDef')], ['Automaton::build, actions'])
prop('G01', 'A grammar text is read exactly as written or refused in the line of the error',
 'Every text is either a grammar as documented or is refused with an error located in the line of the first offending token. Of an accepted text the settings, lexeme declarations, rules, their order and lines, priorities, scope attributes, functions and arguments are exactly the ones written; undefined, unreachable or doubly defined names and numbers out of range are refused.',
 ['inputs'], 'every text',
 'Tests parse about ten correct grammars and hardly any incorrect one.',
 ['src/automaton_parser.cpp'], [('state machine of the grammar', 'src/automaton_parser.cpp parseLanguageDef'), ('numbers', 'src/automaton_parser.cpp convertStringToInt, convertStringToPriority')], ['parseLanguageDef', 'mewa -g'])
prop('A04', 'An automaton printed as a Lua table is the same automaton when loaded',
 'The text printed for an automaton is a Lua table whatever strings, names and arguments its grammar contains, and the automaton loaded from it has the same settings, nonterminals, actions, gotos, functions and arguments. Its lexer has the same tokens with the same numbers, names and kinds and splits every text the same way, independent of the order in which Lua lists the keys of a table.',
 ['inputs', 'histories'], 'every grammar (of the shapes), every string in it, every text and every order of the keys of a table',
 'One test loads one printed automaton.',
 ['src/automaton_tostring.cpp', 'src/languagedef_tostring.cpp', 'src/lua_load_automaton.cpp', 'src/lexer.cpp'], [('printing', 'src/automaton_tostring.cpp Automaton::tostring; src/languagedef_tostring.cpp printString'), ('loading', 'src/lua_load_automaton.cpp luaLoadAutomaton')], ['mewa -g', 'mewa.compiler'])
prop('R01', 'Compiling a text calls the functions of the grammar on the right nodes',
 'For every text of the language the tree the compiler builds has one node per lexeme that is not a keyword and one per rule with a function, scope or step, in the order of the text, and the functions are called top down with their node, object and options; an error of a function is passed on. Scopes enclose exactly what their rule derives, steps increase with every step attribute, lines are the lines of the source, and nothing depends on the size of the text. Any other text is refused before a function is called, with its line, the unexpected token and the tokens expected instead.',
 ['inputs', 'histories'], 'every text of the grammars and every choice of attributes',
 'Tests compile a dozen programs; a node lost in a rarely used rule or a scope of the wrong extent does not show in their output.',
 ['src/lua_run_compiler.cpp', 'src/automaton.hpp'], [('stack of nodes', 'src/lua_run_compiler.cpp luaReduceStruct, runCompiler, luaRunCompiler'), ('scopes and steps', 'src/lua_run_compiler.cpp luaReduceStruct, adjustStateCounters')], ['compiler:run of the Lua module'])
prop('E01', 'The text of an error tells its code, file, line and argument, and is read back',
 'Every error has a text with its code, message, file, line and argument as far as they fit, and the error parsed from this text has the same code, file, line and argument, the text of which is the same again. A text that is not one of an error of this library becomes a run-time error with this text as argument, and no text makes the parser of errors read beyond its end.',
 ['inputs'], 'every code, file name, line and argument and every text',
 'Tests compare the messages of a few errors.',
 ['src/error.cpp', 'src/error.hpp', 'src/strings.cpp'], [('text of an error', 'src/error.cpp Error::Error, Error::map'), ('parsing of a text', 'src/error.cpp Error::parseError')], ['errors of the program mewa and of the Lua module'])
LUF = ['src/lualib_mewa.cpp', 'src/lua_parameter.cpp', 'src/lua_userdata.hpp']
prop('S01', 'A Lua value printed is a Lua expression with the same value',
 'mewa.tostring prints numbers, strings, booleans and tables of them (with numbers and strings as keys) as a Lua expression that evaluates to the same value, whatever bytes, numbers and names they contain. The text depends only on the value, not on the order of insertion; tables nested deeper than the limit are printed as three dots, and no nesting or size makes printing fail.',
 ['inputs'], 'every table of numbers, strings, booleans and tables', 'Tests print a few tables with simple keys.',
 ['src/lua_serialize.cpp'], [('printing', 'src/lua_serialize.cpp luaToString, serialize')], ['mewa.tostring', 'debug output of compilers'])
prop('B01', 'Wrong arguments of the Lua methods are refused without any effect',
 'A method of the type database called from Lua with a wrong number of arguments, a value of the wrong type, a number that is not integral or out of the documented range, or a list or scope of the wrong shape raises an error with a message. It never crashes or corrupts memory, and it leaves the type database, the current scope and the current step as they were.',
 ['inputs', 'histories'], 'every argument of every method', 'Tests call the methods with correct arguments only.',
 LUF, [('reading of arguments', 'src/lua_parameter.cpp getArgumentAs..., checkNofArguments'), ('methods', 'src/lualib_mewa.cpp mewa_typedb_...')], ['methods of the Lua object typedb'])
prop('B02', 'The methods of the type database return in Lua what they found',
 'Called from Lua with arguments as documented, every method has the effect and the result of the type database in the current scope and step: handles (-1 for a duplicate definition), weights, flags, lists and paths in order with their types and constructors, nil where nothing is found, and constructors and instances are the very objects passed before. scope and step return the previous values and set the new ones, the step to the last one of the scope if not specified.',
 ['inputs', 'histories'], 'every history of calls', 'Tests print the results of some calls on one example each; optional arguments, conflicts and lists as contexts hardly occur.',
 LUF+['src/typedb.hpp'], [('results', 'src/lua_parameter.cpp push...'), ('methods', 'src/lualib_mewa.cpp mewa_typedb_...')], ['methods of the Lua object typedb'])
prop('B03', 'Iterating the trees of the type database visits every node once',
 'Iterating from Lua over the tree of instances, types or reductions visits every scope with definitions exactly once, below the innermost scope enclosing it, with its scope and all of its definitions in order; every iterator ends.',
 ['inputs', 'histories'], 'every set of definitions', 'Tests print the trees of one example, the nodes of which have at most two children.',
 LUF, [('iterators', 'src/lualib_mewa.cpp LuaTreeMetaMethods, tree_iter')], ['typedb:instance_tree, type_tree, reduction_tree'])
prop('C01', 'A run of a compiler writes its template filled with what was printed',
 'compiler:run writes exactly the text of the target file with {Code} replaced by what the functions printed, {Section} by what they printed to this section, {Source} and {Triple} by the name of the source and of the target; other names in braces are removed and everything else is kept. Each run is independent of the runs before: its output contains nothing of them, and after a run, successful or not, print and debug are the functions they were, no file is left open. A run with an error, also of reading or writing files, raises an error and prints no output.',
 ['inputs', 'histories', 'fault_sequences'], 'every template, everything printed and every history of runs with errors', 'Tests run a compiler once in a process and with one correct template.',
 ['src/lualib_mewa.cpp', 'src/strings.cpp', 'src/fileio.cpp', 'src/lua_userdata.hpp'], [('run', 'src/lualib_mewa.cpp mewa_compiler_run, append_printbuffer, lua_print_redirected_impl'), ('template', 'src/strings.cpp template_format'), ('files', 'src/fileio.cpp')], ['compiler:run'])
prop('G02', 'The description of a language printed is the grammar with its comments',
 'The table printed for a grammar is readable by Lua whatever its strings and comments contain and lists every lexeme declaration and rule with its line, strings, priority, scope and call. A comment "@name text" becomes an attribute of the definitions in the line following, its other lines and the comments behind are its content; reserved names are refused. The stub of a type system has every function called once, with a declaration parameter if it is called with an argument anywhere.',
 ['inputs'], 'every comment (within the bounds) and every grammar of the shapes',
 'No test prints a description of a language with attributes, one prints a stub.',
 ['src/automaton_parser.cpp','src/languagedef_tostring.cpp','src/languagedef.hpp'], [('attributes in comments', 'src/automaton_parser.cpp parseLanguageDecoratorMap, extractDecorators, splitLines'), ('printing', 'src/languagedef_tostring.cpp printLuaLanguageDefinition'), ('stub', 'src/automaton_parser.cpp printLuaTypeSystemStub')], ['mewa -l', 'mewa -s'])
prop('M01', 'The program mewa does what its options say or fails without output',
 'Every list of arguments is either processed as the usage text says or refused with the usage and exit code 1; every option takes its argument joined, after "=" or separated. The output is the complete result (compiler from template, stub, description) on standard output or in the file named, debug output goes where told, and no other file is touched. A grammar with an error or conflict, or a file that cannot be read or written, gives a message and an exit code not 0, and no compiler is written; in templates exactly the variables are replaced.',
 ['inputs', 'configurations', 'fault_sequences'], 'every list of arguments (out of the words), grammar of the four kinds, template of the pieces and unwritable file',
 'Tests call the program with correct arguments only.',
 ['src/mewa.cpp','src/fileio.cpp'], [('options', 'src/mewa.cpp main'), ('template', 'src/mewa.cpp mapTemplate'), ('files', 'src/fileio.cpp readFile, writeFile')], ['program mewa'])
prop('F01', 'Floating point constants for LLVM denote the number and are accepted',
 'mewa.llvm_double_tohex returns the hexadecimal digits of the bit pattern of its argument. mewa.llvm_float_tohex returns those of a double that is exactly representable as a 32 bit float, as LLVM requires, and no float is closer to the argument; numbers too big for a float become infinite and the sign is kept, of zero too.',
 ['inputs'], 'every double', 'Tests convert two numbers.',
 ['src/lualib_mewa.cpp'], [('conversion', 'src/lualib_mewa.cpp mewa_llvm_float_tohex, mewa_llvm_double_tohex')], ['mewa.llvm_float_tohex', 'mewa.llvm_double_tohex'])
