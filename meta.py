#!/usr/bin/env python3
# Source of properties.jsonl and MANIFEST.json; run after editing: python3 meta.py
import json, os, sys
sys.dont_write_bytecode = True
import config
V = os.path.dirname(os.path.abspath(__file__))
PR = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why, anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe))
    if state: d['anchors']['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    PR.append(d)
TDB = ['src/typedb.cpp', 'src/typedb.hpp', 'src/scope.hpp']

prop('T01', 'A named object resolves to the definition of the innermost enclosing scope',
 'For every history of object definitions in properly nested scopes, looking a name up at a scope step gives the handle of the innermost scope that contains the step, the last one set if the scope was used twice, and "undefined" if no scope contains it; looking it up for a scope gives what was set for exactly this scope. The answer does not depend on the order in which the scopes were defined. A definition with an invalid handle or an empty scope is refused and changes nothing.',
 ['histories', 'inputs'], 'every history of definitions, every nesting of scopes with arbitrary bounds, every step',
 'The tests run a few fixed or random scope trees in one insertion order; the structure is an inverted upward-linked list whose links depend on the relative position of all earlier scopes, so the failing cases are particular nestings and insertion orders.',
 TDB, [('upward links from inner to outer scopes per scope end', 'src/scope.hpp ScopedInstance::set, ScopedUpValueInvTree'), ('lookup by first end greater than the step', 'src/scope.hpp ScopedInstance::get')], ['TypeDatabase::getObjectInstance', 'TypeDatabase::getObjectInstanceOfScope', 'Lua typedb:get_instance, typedb:this_instance'])
prop('T02', 'A type is identified by scope, context, name and parameter list',
 'For every history of type definitions, a definition gets a new unique handle except when the same scope, context type, name and parameter types are defined already, which is reported as duplicate and changes nothing. A type is found by exactly these four attributes, and the overloads of a name are listed completely in the order of their definition. An alias makes the referenced type resolvable under the new name in the scope of the alias only.',
 ['histories', 'inputs'], 'every history of definitions of overloads, names and contexts in arbitrarily nested scopes, every query',
 'Tests define a handful of types in fixed scopes; mistakes in overload chains or key comparison show only for particular combinations of scope, context and signature.',
 TDB, [('overload chain per scope, context and name', 'src/typedb.cpp defineType, findTypeWithSignature'), ('scoped map', 'src/scope.hpp ScopedMap::getOrSet, getDef')], ['TypeDatabase::defineType, defineTypeAs, getType, getTypes', 'Lua typedb:def_type, def_type_as, get_type, get_types'])
prop('T03', 'Types keep the attributes of their definition; bad handles are refused',
 'Whatever is defined later, the name, context, scope, constructor, parameters and the textual form reported for a type handle are those given with its definition. Every operation refuses a handle that does not refer to a defined type with an error instead of reading something else.',
 ['histories', 'inputs'], 'every set of definitions referring to each other, every handle value for every operation',
 'Tests print a few types; off-by-one errors in the handle checks and in the parameter tables only show for boundary handles and for types defined after others.',
 TDB, [('type record table indexed by handle', 'src/typedb.cpp typeName, typeParameters, appendTypeToString'), ('handle range checks', 'src/typedb.cpp')], ['TypeDatabase::typeName, typeContext, typeScope, typeConstructor, typeParameters, typeToString'])
prop('T04', 'Visible reductions: innermost scope with a selected tag, once per target type',
 'At a scope step and for a set of selected tags, the reductions of a type listed are, for every target type, the one first declared among the innermost scope that contains the step and declares one with a selected tag, with its constructor, weight and count flag, and nothing else. Equal repeated declarations are ignored and contradictory ones refused, as are invalid tags, weights, handles and reductions of a type to itself. Sets of tags are exact sets.',
 ['histories', 'inputs'], 'every history of reduction declarations in arbitrarily nested scopes with arbitrary tags, every step and pair of tag sets',
 'Tests use one or two tags in one scope; hiding by inner scopes with another tag is not sampled.',
 TDB, [('relation map with list per scope', 'src/scope.hpp ScopedRelationMap'), ('tag sets', 'src/scope.hpp TagMask')], ['TypeDatabase::getReductions, getReduction', 'Lua typedb:get_reductions, get_reduction'])
prop('T05', 'Type derivation finds a path of minimal weight and reports ambiguity',
 'A derivation of one type from another is found exactly if there is a cycle-free path of visible selected reductions that respects the limit on counted reductions, and the path returned is such a path with the minimal sum of weights and the right constructors. A conflicting path is reported exactly if another path of the same minimal weight exists, and it is such a path.',
 ['inputs', 'histories'], 'every graph of reductions over the types, every assignment of weights, tags and scopes, every selection and limit',
 'A shortest path search with duplicate elimination fails only on particular graphs with ties, cycles and limits that the few graphs of the tests do not contain.',
 TDB, [('priority search over partial paths', 'src/typedb.cpp deriveType, ReduStack')], ['TypeDatabase::deriveType', 'Lua typedb:derive_type'])
prop('T06', 'Name resolution finds the nearest defining context and reports ambiguity',
 'Resolving a name from a list of context types finds a definition exactly if some context reachable by visible selected reductions defines the name at the step; the context returned is one with the minimal sum of weights, with the path to it, the index of the starting context and all overloads of the innermost scope. An ambiguity is reported exactly if another path to a definition has the same weight.',
 ['inputs', 'histories'], 'every graph of reductions between contexts, every list of starting contexts, every set of contexts defining the name, every step',
 'The tests resolve a few members in fixed class hierarchies; ties, duplicated roots and hiding across scopes are not sampled.',
 TDB, [('priority search from several roots', 'src/typedb.cpp resolveType_')], ['TypeDatabase::resolveType', 'Lua typedb:resolve_type'])
prop('T07', 'Introspection trees mirror the scope nesting',
 'The trees of instances, types and reductions contain every scope with definitions exactly once, below the innermost scope enclosing it, with exactly the definitions made in it.',
 ['histories'], 'every history of definitions in arbitrarily nested scopes',
 'Tests compare the dump of a few fixed trees.',
 TDB+['src/tree.hpp'], [('tree built from the inverted representation', 'src/scope.hpp ScopeHierarchyTreeBuilder'), ('sibling and child links', 'src/tree.hpp')], ['TypeDatabase::getObjectInstanceTree, getTypeDefinitionTree, getReductionDefinitionTree'])
prop('I01', 'Interning of names is exact for every byte string',
 'Two names get the same number exactly if they have the same bytes, looking up a name never interns it, and the string stored for a number is the string interned; this holds for names with arbitrary bytes and any length up to the documented limit near 64K, and longer names never corrupt memory.',
 ['inputs', 'histories'], 'every set of byte strings in every order, at all lengths around word and size boundaries',
 'Tests intern random short alphanumeric names; padding, embedded zero bytes and size limits are not sampled.',
 ['src/identmap.hpp'], [('keys compared word-wise with padding', 'src/identmap.hpp IdentKey, IdentKeyEnvelop'), ('map and inverse table', 'src/identmap.hpp IdentMap')], ['IdentMap::get, lookup, inv'])
prop('I02', 'Local memory blocks are disjoint, aligned and inside the buffer',
 'The memory resource that serves results from a local buffer hands out aligned blocks inside the buffer that never overlap; what does not fit is taken from the upstream resource with the same size and alignment, and an invalid alignment is refused.',
 ['inputs', 'histories'], 'every sequence of allocation sizes and alignments',
 'Tests exercise it only through containers; overlaps at the end of the buffer or after realignment are not observable there.',
 ['src/memory_resource.hpp'], [('bump index with alignment', 'src/memory_resource.hpp monotonic_buffer_resource')], ['mewa::monotonic_buffer_resource::allocate'])

exec(open(os.path.join(V, 'meta2.py')).read()) if os.path.exists(os.path.join(V, 'meta2.py')) else None

NA = globals().get('NOT_APPLICABLE', [])
def note(p): return 'bounded: '+config.PROPS[p]['bounds']+'. Holds for every value within these bounds; nothing is claimed beyond them.'
if __name__ == '__main__':
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in PR: f.write(json.dumps(p)+'\n')
    ids = [p['id'] for p in PR]
    claimed = [i for i in ids if i in config.PROPS]
    assert set(config.PROPS) <= set(ids), set(config.PROPS)-set(ids)
    na = [dict(property=i, reason=NA[i]) for i in ids if i not in config.PROPS] if isinstance(NA, dict) else []
    m = dict(version=1, setup_cmd='mkdir -p build && make -s -C engine all', checks=[dict(property=i, quick_cmd='python3 check.py '+i, thorough_cmd='python3 check.py %s --tier thorough' % i, technique='symbolic execution of the LLVM IR of the current sources with Z3 deciding every branch and assertion; counterexamples replayed on the native build', level='model_checking', level_note=note(i)) for i in claimed], not_applicable=na,
        notes='See DESIGN.md. Every check recompiles /repo/src to IR, executes the harnesses of the property symbolically and replays counterexamples natively.')
    json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
    print(len(ids), 'properties', len(claimed), 'claimed', len(na), 'not applicable')
    kf = json.load(open(os.path.join(V, 'known_findings.json')))
    t = open(os.path.join(V, 'design.in.md')).read()
    pt = []
    for p in PR:
        pt.append('### %s %s\n' % (p['id'], p['title']))
        if p['id'] in config.PROPS:
            c = config.PROPS[p['id']]
            pt.append('Harnesses: '+', '.join(sorted(set('`%s:%s`' % (r['src'], r['entry']) for r in c['runs'])))+'. Bounds: '+c['bounds']+'.'+(' '+c['how'] if 'how' in c else '')+''.join(' Assumption: '+a+'.' for a in c.get('assumptions', []))+'\n')
        else: pt.append('Not applicable: '+NA[p['id']]+'\n')
    sd = []
    sdir = os.path.join(V, 'seeded')
    for s in sorted(os.listdir(sdir)) if os.path.isdir(sdir) else []:
        mf = os.path.join(sdir, s, 'meta.json')
        if os.path.exists(mf):
            m = json.load(open(mf)); sd.append('| %s | %s | %s | %s |' % (s, m['property'], m['what_it_breaks'], m.get('caught', '?')))
    t = t.replace('@@PROPS@@', '\n'.join(pt)).replace('@@FIXED@@', '\n'.join('* '+x for x in kf['fixed'])+('\n\nRecorded, not repaired:\n\n'+'\n'.join('* %s (%s): %s' % (x['id'], x['property'], x['what']) for x in kf['findings']) if kf['findings'] else '')).replace('@@SEEDED@@', '| id | property | what it breaks | caught by the check |\n|---|---|---|---|\n'+'\n'.join(sd))
    open(os.path.join(V, 'DESIGN.md'), 'w').write(t)
