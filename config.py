COMMON_ASSUMPTIONS = [
 'the code is compiled by clang 18 at -O1 to LLVM IR; the IR is what is executed symbolically (natively the counterexamples run on g++ builds)',
 'out-of-line libstdc++ and libc functions (red-black tree, list hooks, hash policy, locale facets, exceptions, string functions) are replaced by models in engine/rt; header templates of libstdc++ are executed as they are',
 'a memory block never fails to be allocated',
]
TDB = ['typedb', 'error', 'strings']
PROPS = {}
def R(src, entry, mods, quick, thorough=None, **kw): return dict(src=src, entry=entry, mods=mods, quick=quick, thorough=thorough or quick, **kw)
PROPS['T01'] = dict(
 bounds='up to 4 definitions (5 thorough) of one name, up to 3 of two names; scope bounds and steps are arbitrary non-negative 32-bit integers; four structures of 20 to 45 scopes (63 thorough) defined in six orders with names of 1 to 184 characters, any step',
 runs=[
  R('instance.cpp','h_instance',TDB,[[3,1],[3,2]],[[3,1],[3,3]]),
  R('instance.cpp','h_instance',TDB,[[4,1]],[[4,1],[4,2],[5,1]],jobs=8),
  R('instance.cpp','h_instance_exact',TDB,[[3]],[[4]]),
  R('instance.cpp','h_instance_order',TDB,[[3]],[[4]]),
  R('instance.cpp','h_instance_invalid',TDB,[[]]),
  R('large.cpp','h_large_instances',TDB,[[0,31,2048],[1,20,2048],[2,40,64],[3,45,1048576]],[[0,63,1048576],[1,60,2048],[2,64,64],[3,63,2048]],jobs=2),
 ])
PROPS['T02'] = dict(
 bounds='up to 3 definitions (4 thorough) with up to 6 parameter lists, pairs of definitions with arbitrary parameter lists up to length 6 (12), 2 names and 3 contexts; scope bounds of definitions and queries are arbitrary non-negative 32-bit integers; 30 to 39 overloads (63 thorough) with up to 4 parameters in two scopes and contexts, any parameters in the query',
 runs=[
  R('types.cpp','h_types',TDB,[[2,6,1,1],[3,1,1,1],[2,2,2,2]],[[2,6,2,2],[3,2,2,2]]),
  R('types.cpp','h_types',TDB,[[3,3,1,1]],[[3,6,1,1],[4,2,1,1],[4,1,1,1]],jobs=8),
  R('types.cpp','h_alias',TDB,[[]]),
  R('types.cpp','h_signatures',TDB,[[6]],[[12]]),
  R('large.cpp','h_large_overloads',TDB,[[30,2048],[39,100000]],[[60,2048],[63,100000]],jobs=2),
 ])
PROPS['T03'] = dict(
 bounds='up to 3 types (4 thorough) with arbitrary context and parameters among the earlier ones and arbitrary scopes and constructors; handles from -3 to 5 for every operation',
 runs=[
  R('types.cpp','h_attributes',TDB,[[3]],[[4]]),
  R('types.cpp','h_types',TDB,[[2,3,2,2]],[[3,3,1,1]],jobs=4),
  R('types.cpp','h_handles',TDB,[[]]),
  R('types.cpp','h_handles_strict',TDB,[[]]),
 ])
PROPS['T04'] = dict(
 bounds='up to 3 reductions (4 thorough) of one type to up to 2 others; scope bounds, step, constructors and both tag sets arbitrary; 4 (5) reductions to up to 3 others in two nested scopes; 24 and 48 reductions (60 thorough) to up to 13 types in 4 nested scopes with 6 tags defined in six orders, any step',
 runs=[
  R('reductions.cpp','h_reductions',TDB,[[2,2,3,0],[3,1,2,0],[3,2,2,0]],[[3,2,3,0],[4,1,2,0]],jobs=4),
  R('reductions.cpp','h_reductions',TDB,[[4,3,2,1]],[[4,3,3,1],[5,2,2,1]],jobs=8),
  R('reductions.cpp','h_reduction_invalid',TDB,[[]]),
  R('reductions.cpp','h_tagmask',TDB,[[]]),
  R('large.cpp','h_large_reductions',TDB,[[24,6,4],[48,10,6]],[[24,6,4],[48,10,6],[60,13,6]],jobs=2),
 ])
PROPS['T05'] = dict(
 bounds='graphs of 4 types with up to 6 reductions (8 thorough) taken from 4 shapes, weights 0 to 3/4, arbitrary tag sets, arbitrary nested scopes with up to 4 reductions, count limits none and 0 to 2; chains of 10 and 14 types (16 thorough) with up to 6 shortcuts and back edges, any selection of 7 tags, three orders of definition',
 runs=[
  R('reductions.cpp','h_derive',TDB,[[0,6,2,0,0],[1,6,2,0,0],[2,6,2,0,0],[3,6,2,0,0]],[[0,8,2,0,0],[1,8,2,0,0],[2,8,2,0,0],[3,8,2,0,0],[0,5,4,0,0]],jobs=2),
  R('reductions.cpp','h_derive',TDB,[[0,5,2,1,0],[1,5,1,1,0],[3,5,1,1,0]],[[0,6,2,1,0],[1,6,2,1,0],[2,6,1,1,0],[3,6,1,1,0]],jobs=2),
  R('reductions.cpp','h_derive',TDB,[[0,4,1,0,1],[1,4,2,0,1]],[[0,5,1,0,1],[1,5,2,0,1]],jobs=4),
  R('large.cpp','h_large_derive',TDB,[[10,6],[14,6]],[[10,6],[14,6],[16,5]],jobs=2),
 ])
PROPS['T06'] = dict(
 bounds='graphs of 4 contexts with up to 5 reductions (7 thorough) taken from 4 shapes, weights 0 and 1/4, seven lists of start contexts, members in up to 3 contexts, arbitrary tag set; arbitrary scopes for two overloads; chains of 8 and 11 contexts (14 thorough) with up to 6 shortcuts and back edges, members in any two contexts, any selection of 7 tags',
 runs=[
  R('reductions.cpp','h_resolve',TDB,[[0,5,2,0],[1,5,2,0],[2,5,1,0],[3,5,1,0]],[[0,7,2,0],[1,7,2,0],[2,7,2,0],[3,7,2,0]],jobs=2),
  R('reductions.cpp','h_resolve',TDB,[[0,3,1,1],[1,4,1,1]],[[0,4,2,1],[3,5,1,1]],jobs=4),
  R('large.cpp','h_large_resolve',TDB,[[8,4],[11,6]],[[8,4],[14,6]],jobs=2),
 ])
PROPS['T07'] = dict(
 bounds='up to 4 definitions (5 thorough) in scopes with arbitrary non-negative 32-bit bounds; all shapes of trees of 5 (6) scopes with distinct bounds in four orders of definition; four structures of 24 to 48 scopes (63 thorough) defined in six orders',
 runs=[
  R('trees.cpp','h_tree_instances',TDB,[[3],[4]],[[4],[5]],jobs=4),
  R('trees.cpp','h_tree_types',TDB,[[3,1],[3,2]],[[4,1],[4,2]],jobs=2),
  R('trees.cpp','h_tree_reductions',TDB,[[2],[3]],[[3],[4]],jobs=4),
  R('trees.cpp','h_tree_shapes',TDB,[[5]],[[6]],jobs=8),
  R('large.cpp','h_large_trees',TDB,[[0,31,2048],[1,24,64],[2,40,2048],[3,48,100000]],[[0,63,2048],[1,60,64],[2,64,2048],[3,63,100000]],jobs=2),
 ])
PROPS['I01'] = dict(
 bounds='keys of up to 9 arbitrary bytes (13 thorough) in arbitrary memory; maps of 3 strings up to length 2 (2 up to 4) over 3 bytes; long names of 16 lengths up to 70000',
 runs=[
  R('ident.cpp','h_ident_key',TDB,[[9]],[[13]]),
  R('ident.cpp','h_ident',TDB,[[3,1],[2,3]],[[3,2],[2,4]],jobs=2),
  R('ident.cpp','h_ident_long',TDB,[[x] for x in (60,2047,8188,8189,8190,8191,65500,65529,65530,65531,65535,70000)],steps=40000000),
 ])
PROPS['I02'] = dict(
 bounds='3 allocations (4 thorough) of arbitrary sizes up to 31 with alignments 1 to 32 from a buffer of 32 bytes; any 64-bit number as alignment for the refusal',
 runs=[
  R('memres.cpp','h_memres',TDB,[[3,5]],[[3,6],[4,3]],jobs=8),
  R('memres.cpp','h_memres_bad_align',TDB,[[]]),
 ])
LEX = ['lexer','error','strings']; LRT = ['rt_stl','rt_c','rt_locale']; LK = dict(rt=LRT, steps=100000000)
PROPS['L01'] = dict(
 bounds='texts of 3 arbitrary bytes, and of 5 to 6 bytes from four alphabets (7 thorough) with a lexer of 6 patterns, 5 keywords and an ignored pattern; every choice of 3 (4) definitions out of a pool of 13 in every order, on texts of 3 to 4 (6) bytes over 4 characters; operators of one arbitrary byte, of two special characters (two arbitrary thorough); 60 keywords with common beginnings in two orders on texts of 4 (6) characters; 2 (3) pieces of 9 kinds (tokens, comments, spaces) of up to 4 or 266 characters',
 runs=[
  R('lexing.cpp','h_tokens',LEX,[[3,0]],[[3,0]],jobs=8,**LK),
  R('lexing.cpp','h_tokens',LEX,[[6,1],[5,2],[5,3],[5,4]],[[7,1],[7,2],[7,3],[6,4]],jobs=2,**LK),
  R('lexing.cpp','h_pool',LEX,[[2,4,-1],[3,3,-1]],[[3,4,-1],[4,2,-1],[2,6,-1]],jobs=4,**LK),
  R('lexing.cpp','h_keyword',LEX,[[1,0],[2,1]],[[2,0],[3,1]],jobs=2,**LK),
  R('lexing.cpp','h_many_keywords',LEX,[[4,0],[4,1],[4,2],[4,3],[4,4]],[[6,0],[5,1],[5,2],[5,3],[6,4]],jobs=2,**LK),
  R('lexing.cpp','h_long',LEX,[[2]],[[3]],jobs=4,**LK),
 ])
PROPS['L02'] = dict(
 bounds='texts of 5 to 6 bytes (7 thorough) over the characters of the comments and of the tokens, with three sets of block and line comments including ones that start alike, and every choice of 2 (3) kinds of comments out of 6 in every order; comment symbols of up to 2 arbitrary bytes',
 runs=[
  R('lexing.cpp','h_comments',LEX,[[6,5,0],[6,6,1],[5,8,2],[4,13,3],[6,14,3]],[[7,5,0],[7,6,1],[6,8,2],[5,13,3],[7,14,3],[5,14,4]],jobs=3,**LK),
  R('lexing.cpp','h_comment_symbols',LEX,[[]],[[]],**LK),
 ])
PROPS['L03'] = dict(
 bounds='texts of 5 to 6 bytes (8 thorough) over letters, blanks, tabs, newlines and comment characters; texts of 4 (5) lines indented by up to 2 tabs followed by up to 2 (5) blanks; tab sizes 1, 2 and 4',
 runs=[
  R('lexing.cpp','h_indent',LEX,[[6,10,4,0],[6,7,4,0],[6,7,2,0],[6,12,4,1],[6,12,1,1],[4,-2,4,0],[3,-3,2,0]],[[8,10,4,0],[8,7,4,0],[7,7,2,0],[8,12,4,1],[7,12,1,1],[5,-2,4,0],[4,-5,4,0]],jobs=2,**LK),
 ])
PROPS['L04'] = dict(
 bounds='patterns with up to 4 characters (5 thorough) from 8 alphabets of regular expression operators within 8 contexts, on every text of up to 2 bytes',
 runs=[
  R('lexing.cpp','h_activation',LEX,[[4,0,0,1],[3,1,1,1],[3,2,4,1],[4,3,0,1],[3,4,0,1],[3,5,1,1],[3,6,5,1],[3,0,7,1],[3,1,3,1],[3,7,2,1],[3,7,6,1]],[[5,0,0,1],[4,1,1,1],[4,2,4,1],[6,3,0,1],[5,4,0,1],[4,5,1,1],[4,6,5,1],[4,0,7,1],[4,1,3,1],[5,7,2,1],[4,7,6,1]],jobs=2,**LK),
 ])
PROPS['L05'] = dict(
 bounds='lexers of up to 2 definitions (3 thorough) out of 12 kinds, texts of 4 bytes from an alphabet of 5',
 runs=[
  R('lexing.cpp','h_definitions',LEX,[[1,3],[2,4]],[[2,5],[3,3]],jobs=4,**LK),
 ])
AUT = ['automaton','automaton_parser','automaton_structs','lexer','error','strings']; AK = dict(rt=LRT, steps=200000000)
PROPS['A02'] = dict(
 bounds='grammars of 13 shapes with up to 8 nonterminals (chains of 6, sums of products in parentheses, 5 optional parts), 11 rules and 5 symbols of the right sides open (every symbol or none), on every text of up to 3 or 4 tokens (4 or 5 thorough)',
 runs=[
  R('grammars.cpp','h_lalr',AUT,[[0,0,1,3],[1,0,1,2],[3,0,1,2],[4,0,1,3],[5,0,1,3],[10,4,1,3],[13,4,1,3],[16,2,1,3],[17,2,1,2],[18,2,1,3],[19,2,1,3],[20,4,1,4],[21,2,1,3]],[[0,0,1,4],[0,2,1,4],[1,0,1,3],[2,1,1,3],[3,1,1,3],[4,0,1,4],[4,5,1,3],[5,0,1,4],[10,4,1,4],[11,1,1,3],[13,4,1,4],[16,2,1,4],[17,2,1,4],[18,2,1,5],[19,2,1,5],[20,2,1,5],[20,4,1,5],[21,2,1,5]],jobs=4,**AK),
 ])
PROPS['A03'] = dict(
 bounds='grammars of 8 shapes with up to 3 priorities out of 6 and up to 4 symbols open, on every text of up to 4 tokens (5 thorough)',
 runs=[
  R('grammars.cpp','h_lalr',AUT,[[6,2,3,3],[7,2,7,3],[8,2,7,4],[9,0,4,2],[12,5,3,2],[14,4,3,3],[15,2,4,3],[22,2,3,4]],[[6,2,7,4],[7,2,7,5],[8,2,7,5],[9,0,7,3],[12,1,4,3],[14,4,5,4],[15,2,6,4],[22,2,5,5]],jobs=4,**AK),
 ])
PROPS['G01'] = dict(
 bounds='11 grammar texts with up to 6 open bytes out of alphabets of up to 12 (7 thorough), 3 arbitrary bytes at three places, numbers of 11 digits',
 runs=[
  R('syntax.cpp','h_syntax',AUT,[[0,1,5,0],[2,2,4,1],[1,7,6,0],[3,3,4,1],[4,4,5,0],[5,5,5,0],[6,6,6,0],[7,1,4,0],[7,2,4,0],[9,9,8,0],[6,10,5,0],[0,0,3,0],[6,0,3,0],[4,0,3,0],[8,8,11,0],[10,8,11,0]],
    [[0,1,6,0],[2,2,5,1],[1,7,7,0],[3,3,5,1],[4,4,7,0],[5,5,7,0],[6,6,7,1],[7,1,5,0],[7,2,5,0],[9,9,8,1],[6,10,6,0],[0,0,4,0],[2,0,3,0],[6,0,4,0],[4,0,4,0],[8,8,11,1],[10,8,11,0]],jobs=2,**AK),
 ])
LUAM = ['lua_run_compiler','lua_serialize','lua_parameter','typedb','fileio']; LUAK = dict(rt=LRT+['rt_lua'], steps=200000000)
IMG = ['automaton_tostring','languagedef_tostring','lua_load_automaton','lua_parameter','typedb','fileio']; IMK = dict(rt=LRT+['rt_lua','rt_stream'], steps=200000000)
PROPS['R01'] = dict(
 bounds='6 grammars with every choice of attributes (none, a function, with a scope, with a step, a step alone) for up to 5 rules, texts of 3 to 5 bytes (5 to 6 thorough) over the characters of the tokens; functions with and without an object, with and without options, one function raising one of three kinds of errors; texts of 30 and 40 tokens (150 thorough) for the number of nodes held at the same time',
 runs=[
  R('compiling.cpp','h_compile',AUT+LUAM,[[0,5,3,0,0],[1,5,3,1,0],[2,4,3,1,0],[3,3,4,2,0],[4,5,5,1,0],[5,5,4,3,0],[1,3,3,1,1],[0,2,4,0,1]],[[0,5,5,0,0],[1,5,4,1,0],[2,5,5,1,0],[3,4,4,2,0],[4,5,6,1,0],[5,5,6,3,0],[1,4,4,1,1],[0,4,5,0,1]],jobs=4,**LUAK),
  R('compiling.cpp','h_depth',AUT+LUAM,[[4,40,0],[0,40,1],[1,30,0]],[[4,150,0],[0,150,1],[1,150,0]],jobs=2,**LUAK),
 ],
 assumptions=['the Lua library is represented by a model of its C API (engine/rt/rt_lua.cpp): tables, metatables, protected calls, the promised size of the stack; no garbage collection, no lack of memory, node functions are C functions'])
PROPS['A01'] = dict(
 bounds='all values of every field within its declared range; grammars of 252 to 257 additional nonterminals, 508 to 512 rules, 0 to 19 symbols on the right side, priorities 0 to 70000',
 runs=[
  R('encodings.cpp','h_packed',AUT,[[]],**AK),
  R('encodings.cpp','h_limits',AUT,[[0],[1],[2],[3]],jobs=2,**AK),
 ])
PROPS['A04'] = dict(
 bounds='9 places of a string in a grammar with 1 to 4 (2 to 6 thorough) arbitrary or selected characters; up to 3 (4 thorough) of 11 definitions of a lexer in any order around the rules with texts of 3 to 4 bytes; 54 grammars with indentation tokens; 4 grammars with every choice of up to 10 attributes; up to 4 orders of the keys of a Lua table',
 runs=[
  R('image.cpp','h_strings',AUT+IMG,[[1,0,1,0],[1,1,1,0],[2,2,2,0],[2,3,2,0],[1,4,2,0],[1,5,2,0],[1,6,2,0],[1,7,2,0],[1,8,2,0],[1,9,2,0],[2,10,1,0],[2,11,1,0],[2,12,5,4],[1,3,4,2],[1,0,4,1],[1,10,4,5],[1,4,4,3]],
    [[1,0,2,0],[1,1,2,0],[2,2,3,0],[2,3,3,0],[1,4,3,0],[1,5,3,0],[1,6,3,0],[1,7,3,0],[1,8,3,0],[1,9,3,0],[2,10,1,0],[2,11,1,0],[2,12,7,4],[1,3,5,2],[1,0,6,1],[1,10,5,5],[1,4,6,3]],**IMK),
  R('image.cpp','h_definitions',AUT+IMG,[[2,0,3,3,1],[3,1,2,3,2],[4,2,2,4,2]],[[4,0,4,3,1],[4,1,3,4,2],[4,2,3,4,3]],jobs=3,**IMK),
  R('image.cpp','h_indentl',AUT+IMG,[[2,0,3],[3,1,4],[2,2,3]],[[4,0,5],[4,1,6],[4,2,5]],**IMK),
  R('image.cpp','h_grammars',AUT+IMG,[[4,0,10],[1,1,4],[1,2,3],[1,3,3]],[[4,0,10],[2,1,7],[2,2,5],[2,3,5]],jobs=2,**IMK),
 ],
 assumptions=['the automaton printed is read by a reader of Lua table constructors of the harness (harness/luatext.hpp), not by the Lua parser; members of the typesystem exist; escape sequences in arguments of functions are escape sequences of Lua','the Lua library is represented by a model of its C API (engine/rt/rt_lua.cpp)','std::ostringstream is a model (engine/rt/rt_stream.cpp) without formatting flags'])
PROPS['E01'] = dict(
 bounds='every code of an error with 3 to 6 line numbers, 4 file names and 6 to 11 arguments; file names and arguments of 3 to 6 arbitrary bytes; names and arguments around the limits of 79 and 511 bytes; 10 beginnings of messages followed by 4 to 5 arbitrary bytes',
 runs=[
  R('errors.cpp','h_codes',['error'],[[3,6]],[[6,11]],jobs=4),
  R('errors.cpp','h_texts',['error'],[[3,3],[0,6]],[[6,6],[0,12]],jobs=2),
  R('errors.cpp','h_long',['error'],[[]],jobs=3),
  R('errors.cpp','h_foreign',['error'],[[0,5],[1,4],[2,4],[3,4],[4,4],[5,4],[6,4],[7,4],[8,4],[9,4]],[[0,8],[1,6],[2,6],[3,6],[4,6],[5,6],[6,6],[7,6],[8,6],[9,6]]),
 ])

BIND = AUT+IMG+['lua_run_compiler','lua_serialize','lualib_mewa']; SER = ['lua_serialize','error','strings','lua_parameter','typedb','fileio']
LUA_MODEL = 'the Lua library is represented by a model of its C API (engine/rt/rt_lua.cpp): no garbage collection, no lack of memory'
PROPS['S01'] = dict(
 bounds='tables of up to 2 entries (3 thorough) nested up to 3 deep, with keys and values out of 24 numbers, strings of up to 2 (4) arbitrary bytes, words of Lua, booleans; depth limits 1 to 4; tables of up to 4 entries in every order of insertion; 40 nested tables (200)',
 runs=[
  R('printing.cpp','h_print',SER,[[0,1,1,0,0],[1,1,1,2,0],[2,1,2,0,2],[2,3,1,0,4],[3,1,2,0,0],[1,0,0,4,0],[0,2,1,0,2]],[[0,1,1,0,0],[1,1,1,3,0],[2,1,2,0,2],[2,3,1,0,4],[3,1,2,0,0],[1,0,0,6,0],[0,2,1,0,2],[1,1,2,1,0]],jobs=2,**IMK),
  R('printing.cpp','h_order',SER,[[4]],[[5]],jobs=4,**IMK),
  R('printing.cpp','h_nest',SER,[[40,0],[40,1]],[[200,0],[200,1]],**IMK),
 ], assumptions=[LUA_MODEL,'the text printed is read by a reader of Lua table constructors of the harness (harness/luatext.hpp), not by the Lua parser'])
PROPS['B01'] = dict(
 bounds='every method of the type database with every number of arguments up to one too many and one of 58 odd values (numbers, strings, functions, objects, lists and tables of wrong shape) at each place; an arbitrary double as number or element of a list for 9 (14) arguments; 4 objects that are no type database',
 runs=[
  R('calling.cpp','h_refused',BIND,[[k] for k in range(27)],**IMK),
  R('calling.cpp','h_numbers',BIND,[[1,0,0],[0,1,0],[0,0,1],[0,0,2],[5,3,1],[5,3,3],[12,1,0],[15,0,0],[7,2,1]],[[1,0,0],[0,1,0],[0,0,1],[0,0,2],[5,3,1],[5,3,3],[12,1,0],[9,3,0],[15,0,0],[7,2,1],[5,0,0],[14,0,1],[14,0,3],[10,0,0]],**IMK),
  R('calling.cpp','h_self',BIND,[[]],jobs=2,**IMK),
 ], assumptions=[LUA_MODEL,'metamethods like __gc are called by Lua only','numbers nearer than 1e-15 to an integer may be taken for it'])
PROPS['B02'] = dict(
 bounds='histories of 13 definitions in one of 3 scopes with one of 4 more definitions, then one call of each method with up to 3 arguments varied: handles 0 to 7, 4 names (one with a byte 0), 6 sets of tags, 9 lists, arbitrary scopes and steps, compared with the same calls of the C++ interface; 24 types (40 thorough) with names of up to 265 (441) characters, as many overloads with up to 23 (39) parameters, reductions and nested scopes, paths of up to 12 (20) reductions and lists of up to 24 (40) contexts',
 runs=[
  R('calling.cpp','h_large',BIND,[[24,0],[12,1],[24,2],[24,3],[24,4],[24,5]],[[40,0],[20,1],[40,2],[40,3],[40,4],[40,5]],jobs=2,**IMK),
  R('calling.cpp','h_results',BIND,[[0,1,3],[1,1,1],[2,1,1],[3,1,1],[4,1,3],[5,0,13],[5,1,10],[6,0,7],[6,1,3],[7,1,5],[7,0,7],[8,1,3],[9,0,3],[9,1,12],[9,0,20],[10,0,7],[11,1,3],[11,0,7],[12,1,6],[12,0,7],[13,1,1],[13,1,2],[13,0,28],[13,0,7],[14,1,1],[14,0,7],[14,1,6],[15,1,1],[16,0,3],[17,1,1],[18,1,1],[19,1,1],[20,1,1],[21,1,1],[22,0,7],[23,0,3],[24,1,1]],
    [[0,1,3],[1,1,1],[2,1,1],[3,1,1],[4,1,3],[5,1,13],[5,1,10],[6,1,7],[7,1,7],[8,1,3],[9,1,3],[9,1,12],[9,0,20],[9,1,24],[10,0,7],[11,1,7],[12,1,7],[13,1,3],[13,1,28],[13,0,7],[13,0,21],[14,1,7],[15,1,1],[16,1,3],[17,1,1],[18,1,1],[19,1,1],[20,1,1],[21,1,1],[22,0,7],[23,0,3],[24,1,1]],jobs=2,**IMK),
 ], assumptions=[LUA_MODEL,'the C++ interface of the type database is verified by T01 to T07'])
PROPS['B03'] = dict(
 bounds='trees of up to 3 definitions in 4 scopes (4 in 5 for instances; 4 in 5 thorough), compared with the trees of the C++ interface; two structures of 24 scopes with up to 3 definitions each in three orders',
 runs=[
  R('iterating.cpp','h_iterate',BIND,[[0,3,4],[1,3,3],[2,3,3],[0,4,5]],[[0,4,6],[1,4,4],[2,4,4],[0,5,5]],jobs=4,**IMK),
  R('iterating.cpp','h_iterate_large',BIND,[[0,24],[1,24],[2,24]],jobs=2,**IMK),
 ], assumptions=[LUA_MODEL,'the trees of the C++ interface are verified by T07'])
FMK = dict(rt=LRT+['rt_lua','rt_stream','rt_file'], steps=200000000)
FILE_MODEL = 'files, standard output and standard error are represented by a model in memory (engine/rt/rt_file.cpp), natively too'
PROPS['C01'] = dict(
 bounds='one grammar with two functions; templates of up to 4 (5 thorough) of the bytes of 3 alphabets of 5 each around the syntax of identifiers, up to 2 (4) arbitrary bytes inside of braces; every function prints up to one text of an arbitrary byte (also 0) to one of 8 sections or to the output; a run with every combination of 7 targets, 6 inputs, 4 outputs, 3 debug outputs, 6 behaviours of the functions and files that can not be opened; 2 (3) runs of the same compiler with fewer combinations; output and debug output that can not be written after any number of bytes',
 runs=[
  R('running.cpp','h_template',BIND,[[4,0,1,1,0],[3,1,1,1,0],[3,2,1,1,2],[2,-1,1,1,0],[4,0,0,1,3]],[[5,0,1,1,0],[4,1,1,1,0],[4,2,1,1,2],[3,-1,1,2,0],[4,0,2,1,1],[6,0,0,1,3]],jobs=4,**FMK),
  R('running.cpp','h_history',BIND,[[1,0],[2,0],[1,2]],[[1,0],[2,0],[2,2],[3,0]],jobs=4,**FMK),
  R('running.cpp','h_failing',BIND,[[20]],**FMK),
 ], assumptions=[LUA_MODEL,FILE_MODEL,'names of files are shorter than 256 bytes'])
PROPS['F01'] = dict(
 bounds='every double (2^64 bit patterns, no further bound)',
 runs=[
  R('floating.cpp','h_double',BIND,[[0,1023],[1024,2047]],**IMK),
  R('floating.cpp','h_float',BIND,[[0,895],[896,1022],[1023,1023],[1024,1150],[1151,2047]],**IMK),
  R('floating.cpp','h_arguments',BIND,[[]],**IMK),
 ], assumptions=[LUA_MODEL,'the formatted output of the C library is represented by a model (engine/rt/rt_c.cpp), replayed natively for samples'])
PROPS['G02'] = dict(
 bounds='comments of up to 2 (3 thorough) arbitrary bytes or up to 5 of four alphabets of 5 to 10 bytes in 6 places of a grammar; every kind of definition and rule with up to 1 (2) arbitrary bytes in one of its strings; 24 names of attributes, two at a time; grammars with up to 3 calls out of 9',
 runs=[
  R('describing.cpp','h_comments',AUT+IMG,[[0,0,2,1],[1,0,1,1],[3,0,1,1],[4,0,2,1],[5,0,1,1],[0,1,3,1],[1,3,4,1],[4,3,4,1],[3,2,4,1]],[[0,0,3,1],[1,0,3,1],[2,0,2,0],[3,0,3,1],[4,0,3,1],[5,0,3,1],[0,1,4,1],[1,3,5,1],[4,3,6,1],[3,2,5,1],[4,4,4,1],[0,4,4,1]],jobs=4,**IMK),
  R('describing.cpp','h_definitions',AUT+IMG,[[0,1,1],[1,1,0],[1,0,1],[2,0,0]],[[0,2,1],[0,1,2],[1,1,1],[2,0,1],[2,1,0]],jobs=4,**IMK),
  R('describing.cpp','h_names',AUT+IMG,[[]],jobs=4,**IMK),
  R('describing.cpp','h_stub',AUT+IMG,[[1]],[[2],[3]],jobs=4,**IMK),
 ], assumptions=['the grammar read is the one of G01','the table printed is read by a reader of Lua table constructors of the harness (harness/luatext.hpp), not by the Lua parser'])
PROPS['M01'] = dict(
 bounds='up to 3 arguments out of 39 words (every option in every form, files, odd words) with the grammar last, 4 grammars, every combination of two options in every form and place with and without a file that cannot be written, up to 3 arbitrary bytes in one argument in 7 places; templates of up to 2 (3) pieces out of 9 and one arbitrary byte; files of sizes around one and two buffers, missing files and directories',
 runs=[
  R('program.cpp','h_words',AUT+IMG,[[2,39,0,0],[2,39,1,0],[3,12,1,1]],[[2,39,0,1],[2,39,1,1],[3,39,1,0],[3,39,0,0],[4,14,1,0],[2,39,1,2]],jobs=4,**FMK),
  R('program.cpp','h_sense',AUT+IMG,[[0,0,1,0],[1,2,3,1],[2,2,1,1],[3,0,3,0]],[[0,0,1,2],[1,0,2,2],[0,0,3,2],[1,1,2,2],[0,1,3,2],[1,2,3,2],[0,0,0,2],[1,1,1,2],[0,2,2,2],[1,3,3,2],[2,2,1,2],[3,0,3,2]],jobs=4,**FMK),
  R('program.cpp','h_bytes',AUT+IMG,[[3,0],[2,1],[2,2],[3,3],[3,4],[2,5],[3,6]],[[4,0],[3,1],[3,2],[4,3],[4,4],[3,5],[4,6]],**FMK),
  R('program.cpp','h_files',AUT+IMG,[[]],jobs=4,**FMK),
  R('program.cpp','h_template',AUT+IMG,[[1,9,1],[2,9,0]],[[1,9,1],[2,9,1],[3,9,0]],jobs=4,**FMK),
 ], assumptions=[FILE_MODEL,'the tables printed are the ones of A01 to A04 and G02','an empty template or empty argument of an option means none'])
