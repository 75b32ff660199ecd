"""The properties, and what each check runs. gen.py derives properties.jsonl
and MANIFEST.json from this file; check.py runs it."""

COMMON_ASSUMPTIONS = [
    'The engine (/verif/engine) executes the LLVM IR that rustc emits for the harness, /repo and its dependencies '
    '(release profile, opt-level 0, overflow checks on); sampled paths are compared with a native build on every run.',
    'Memory allocation succeeds; HashMap seeds take the values the engine supplies.',
    'The reference written from the specification (/verif/harness/src/refimpl) is right; it was compared with the '
    'implementation and every difference was settled by reading the specification.',
]


def h(root, covers=(), **kw):
    """A harness: covers must be reached; thorough=True keeps it out of the quick tier; secs caps its run."""
    return dict(root=root, covers=list(covers), **kw)


BOTH = ['both succeed', 'both reject']
CTXFILES = ['crates/context-processing/src/algorithm/mod.rs', 'crates/context-processing/src/algorithm/define.rs',
            'crates/context-processing/src/algorithm/iri.rs', 'crates/core/src/context/mod.rs']
EXPFILES = ['crates/expansion/src/element.rs', 'crates/expansion/src/node.rs', 'crates/expansion/src/value.rs',
            'crates/expansion/src/literal.rs', 'crates/expansion/src/array.rs', 'crates/expansion/src/document.rs',
            'crates/expansion/src/expanded.rs']
CMPFILES = ['crates/compaction/src/lib.rs', 'crates/compaction/src/iri.rs', 'crates/compaction/src/value.rs',
            'crates/compaction/src/property.rs', 'crates/compaction/src/node.rs', 'crates/compaction/src/document.rs',
            'crates/core/src/context/inverse.rs']

PROPS = {
    'C01': dict(
        title='Expansion yields the document the JSON-LD 1.1 specification defines',
        statement='Expanding any document under any context either yields the expanded document that the JSON-LD 1.1 '
                  'expansion algorithm defines, up to the order of entries that are unordered (with the ordered option, also in the order it defines), or is refused with the error '
                  'code the algorithm defines. Documents the algorithm accepts are never refused, and those it refuses are never '
                  'accepted.',
        over=['inputs', 'configurations'],
        quant='every document and context, in every combination of term definition, container mapping, keyword, alias, '
              'value type, nesting and processing options',
        why='The existing tests cover a few documents; the W3C suite is an absent submodule, and even it '
            'samples combinations. Containers, coercions, nesting and keyword aliases interact multiplicatively.',
        files=EXPFILES,
        mech=[('element expansion and keyword dispatch', 'crates/expansion/src/element.rs'),
              ('node objects, reverse properties, containers', 'crates/expansion/src/node.rs'),
              ('value objects and literals', 'crates/expansion/src/value.rs, crates/expansion/src/literal.rs')],
        bounds='Documents of up to about 12 nodes built from symbolic choices: every value shape under every kind of '
               'term definition; language, index, id, type and graph maps; every keyword with well- and ill-typed '
               'values; value objects with any two further entries or aliases in any order; nesting by @nest, @included, @reverse, @graph, arrays; term and IRI strings of up to 4 symbolic '
               'bytes over alphabets that include the delimiters.',
        harnesses=[h('h_expand_values', BOTH), h('h_expand_maps', BOTH), h('h_expand_twice', BOTH), h('h_expand_top', BOTH), h('h_expand_objects', BOTH), h('h_expand_keywords', BOTH),
                   h('h_expand_structure', BOTH), h('h_expand_iris', ['both succeed']),
                   h('h_expand_iris_long', ['both succeed'], thorough=True)]),
    'C02': dict(
        title='Local contexts define terms as the specification says, or are refused',
        statement='Processing any local context gives every term exactly the IRI, prefix flag, type, container, language, '
                  'direction, nesting, index and reverse mapping that the JSON-LD 1.1 context processing and term '
                  'definition algorithms prescribe, whatever the order in which terms depend on each other. Cyclic, '
                  'ill-formed and keyword-redefining definitions are refused with the prescribed error code, and entries '
                  'that are not allowed in the selected processing mode are refused in it.',
        over=['inputs', 'configurations'],
        quant='every local context and both processing modes',
        why='Term definition has dozens of interacting attributes, each with ill-typed variants and precedence between '
            'errors; tests sample a few of them, one at a time.',
        files=CTXFILES,
        mech=[('create term definition', 'crates/context-processing/src/algorithm/define.rs'),
              ('context entries', 'crates/context-processing/src/algorithm/mod.rs'),
              ('IRI expansion during definition', 'crates/context-processing/src/algorithm/iri.rs')],
        bounds='One context of up to three terms: every pair of definition attributes with every kind of value; term '
               'names of up to 4 symbolic bytes; every pair of context entries; json-ld-1.0 and json-ld-1.1. Observed '
               'through the expansion of a document that uses the terms.',
        harnesses=[h('h_ctx_terms', BOTH), h('h_ctx_names', BOTH), h('h_ctx_entries', BOTH),
                   h('h_ctx_mode10', BOTH)]),
    'C03': dict(
        title='Protected terms, scoped contexts and propagation follow the specification',
        statement='A protected term can be neither redefined nor cleared by a later context, except by a property-scoped '
                  'context or by an identical definition. Property-scoped and type-scoped contexts apply to exactly the '
                  'part of the document that the specification prescribes: they propagate or revert at node boundaries '
                  'according to their kind and to @propagate.',
        over=['inputs', 'histories'],
        quant='every sequence and nesting of contexts',
        why='The outcome depends on the history of contexts along the path to a node; the tests hold none of these '
            'combinations.',
        files=CTXFILES + ['crates/expansion/src/element.rs', 'crates/expansion/src/node.rs'],
        mech=[('previous context and propagation', 'crates/expansion/src/element.rs'),
              ('protected check', 'crates/context-processing/src/algorithm/define.rs'),
              ('context nullification', 'crates/context-processing/src/algorithm/mod.rs')],
        bounds='Two successive contexts from 4 x 13 variants placed in sequence, embedded, property-scoped or '
               'type-scoped; property- and type-scoped contexts with every @propagate value through containers, arrays '
               'and three levels of nodes; every sequence of three contexts from 11 variants; every container and object form '
               'below a node with type-scoped contexts; a protected term defined again with any two of its 11 attributes absent or changed; up to 3 types with any two of '
               '8 contexts of their own, in any order and in two entries.',
        harnesses=[h('h_ctx_protected', BOTH), h('h_ctx_type', BOTH), h('h_ctx_scoped', ['both succeed']), h('h_ctx_chain', BOTH),
                   h('h_ctx_revert', BOTH), h('h_ctx_redefine', BOTH),
                   h('h_ctx_types', BOTH)]),
    'C04': dict(
        title='Remote and imported contexts are dereferenced as the specification says',
        statement='A context given by reference has the same effect as the context in the document it resolves to, with '
                  'references inside it resolved against that document; it never changes the base IRI of the referring '
                  'document. A missing, ill-formed or context-free document is refused with the prescribed error '
                  'code, and context documents that include each other never make processing run forever.',
        over=['inputs', 'fault_sequences'],
        quant='every graph of context documents and every failure of the loader',
        why='Requires graphs of context documents, cycles and faults; no test loads a remote context.',
        files=['crates/context-processing/src/algorithm/mod.rs', 'crates/context-processing/src/stack.rs',
               'crates/core/src/loader/mod.rs'],
        mech=[('remote context loading and the processing stack', 'crates/context-processing/src/algorithm/mod.rs, '
               'crates/context-processing/src/stack.rs'),
              ('context extraction', 'crates/core/src/loader/mod.rs')],
        bounds='Graphs of up to three context documents with up to 10 x 4 contents, including cycles, missing '
               'documents, documents without contexts, imports and redirections; relative and absolute references; the same '
               'reference repeated; every pair of entries in an imported and its importing context; property-scoped, '
               'type-scoped and nesting contexts given by relative reference from a context at another location.',
        harnesses=[h('h_ctx_remote', BOTH), h('h_ctx_import', BOTH), h('h_ctx_relative', BOTH)]),
    'C05': dict(
        title='Compaction yields the document the JSON-LD 1.1 specification defines',
        statement='Compacting any document with any context yields the JSON document that the JSON-LD 1.1 compaction '
                  'algorithm defines: every value under the term that the inverse context selects, in the container, '
                  'coercion, nesting, alias and relative or compact IRI form prescribed, whatever the order in which terms '
                  'and values are stored; or it is refused with the prescribed error code.',
        over=['inputs', 'configurations'],
        quant='every document, context and combination of compaction options',
        why='Term selection ranks every term against every value by container, type, language and direction; the '
            'existing tests hold none of these combinations.',
        files=CMPFILES,
        mech=[('term selection and IRI compaction', 'crates/compaction/src/iri.rs, crates/core/src/context/inverse.rs'),
              ('value compaction', 'crates/compaction/src/value.rs'),
              ('containers, nesting and graphs', 'crates/compaction/src/property.rs'),
              ('node objects and reverse properties', 'crates/compaction/src/node.rs')],
        bounds='Documents of up to 5 nodes: every kind of value, list, node and graph object under 16 kinds of term '
               'definitions, 13 container combinations, default languages and directions, aliases of every keyword; '
               'IRIs of up to 2 symbolic bytes beside fixed parts, against 6 prefix configurations; property- and '
               'type-scoped contexts; two prefixes, with compact IRIs defined as terms and schemes that are prefixes; any two of 19 '
               'competing definitions for 14 values; lists of up to three items for 11 by 4 definitions; up to 3 types '
               'with any two of 8 contexts of their own; the documents of C01 (values, '
               'structure) and C03 (reverting contexts) with their own context; json-ld-1.0; compactArrays and compactToRelative in both states.',
        harnesses=[h('h_compact_iris', BOTH), h('h_compact_values1', ['both succeed']),
                   h('h_compact_values2', ['both succeed']), h('h_compact_lists', ['both succeed']),
                   h('h_compact_maps1', BOTH), h('h_compact_maps2', ['both succeed'], thorough=True),
                   h('h_compact_nodes', BOTH), h('h_compact_scoped', ['both succeed']),
                   h('h_compact_prefixes', BOTH), h('h_compact_select', ['both succeed']), h('h_compact_types', ['both succeed']), h('h_compact_lists2', ['both succeed']),
                   h('h_compact_own_values', ['both succeed']), h('h_compact_own_structure', ['both succeed']),
                   h('h_compact_own_maps', ['both succeed'], thorough=True), h('h_compact_revert', ['both succeed']),
                   h('h_compact_mode10', BOTH)]),
    'C06': dict(
        title='Expanding a compacted document gives back what was compacted',
        statement='Compaction loses nothing: expanding the compacted document (with the context that compaction embeds in '
                  'it) yields the expanded form of the original document again, whenever the compaction that the specification '
                  'prescribes is itself reversible.',
        over=['inputs', 'configurations'],
        quant='every document and context, with both processors applied one after the other',
        why='Losses appear only for particular combinations of values, terms and containers.',
        files=CMPFILES + ['crates/expansion/src/element.rs', 'crates/expansion/src/node.rs'],
        mech=[('compaction', 'crates/compaction/src/lib.rs'), ('expansion', 'crates/expansion/src/element.rs'),
              ('embedding of the context', 'crates/compaction/src/document.rs')],
        bounds='The documents and contexts of C05. Cases where the specified compaction itself cannot be undone are '
               'excluded by running the reference implementation there and back.',
        harnesses=[h('h_round_values1', ['round trip']), h('h_round_values2', ['round trip']),
                   h('h_round_lists', ['round trip']), h('h_round_maps1', ['round trip']),
                   h('h_round_maps2', ['round trip'], thorough=True), h('h_round_nodes', ['round trip']),
                   h('h_round_scoped', ['round trip']), h('h_round_revert', ['round trip']),
                   h('h_round_select', ['round trip']), h('h_round_types', ['round trip']), h('h_round_own_values', ['round trip']),
                   h('h_round_own_structure', ['round trip']), h('h_round_mode10', ['round trip']), h('h_round_lists2', ['round trip'], thorough=True),
                   h('h_round_prefixes', ['round trip'], thorough=True), h('h_round_own_maps', ['round trip'], thorough=True),
                   h('h_round_iris', ['round trip'], thorough=True)]),
    'C07': dict(
        title='Flattening yields the flat document the specification defines',
        statement='Flattening merges all occurrences of a node into one node object per graph, holding every type and every '
                  'property value stated anywhere, without duplicates and with lists intact; reverse properties, included '
                  'blocks and nested nodes become references; blank nodes are relabelled consistently everywhere. '
                  'The result is, up to blank node labels, the one that the JSON-LD 1.1 flattening algorithm defines; '
                  'conflicting indexes are refused, and with the ordered option nodes come sorted.',
        over=['inputs', 'configurations'],
        quant='every document and blank node labelling, with the ordered option on and off',
        why='Merging depends on which nodes coincide, in which graph, and in which role; no test flattens such documents.',
        files=['crates/core/src/flattening/mod.rs', 'crates/core/src/flattening/node_map.rs',
               'crates/core/src/flattening/environment.rs', 'crates/core/src/object/node/properties.rs',
               'src/processor/remote_document.rs'],
        mech=[('node map generation', 'crates/core/src/flattening/node_map.rs'),
              ('assembly of graphs', 'crates/core/src/flattening/mod.rs'),
              ('blank node relabelling', 'crates/core/src/flattening/environment.rs')],
        bounds='Two nodes with 4 kinds of identity and 9 contents each in 9 relations; two values of 14 kinds under one '
               'property in one, two or nested occurrences of a node; nests of up to three named graphs with 8 contents. '
               'Compared up to renaming of blank nodes.',
        harnesses=[h('h_flat_nodes', BOTH), h('h_flat_values', ['both succeed']), h('h_flat_graphs', ['both succeed'])]),
    'C08': dict(
        title='RDF deserialization yields the dataset the specification defines',
        statement='to_rdf yields exactly the quads that the JSON-LD 1.1 deserialization algorithm assigns to a document, up to '
                  'blank node labels: one per property value in the graph stating it, numbers, booleans, '
                  'language tags, directions (in each RDF direction mode) and JSON literals in their canonical RDF form, '
                  'lists as well-formed chains; ill-formed IRIs and language tags, and blank predicates unless generalized RDF '
                  'is requested, are dropped together with their triples only.',
        over=['inputs', 'configurations'],
        quant='every document, name, literal and RDF direction mode, with and without generalized RDF',
        why='Which triples appear depends on the combination of names, literals and graph structure.',
        files=['crates/core/src/rdf/mod.rs', 'crates/core/src/rdf/quad.rs', 'crates/core/src/quad.rs',
               'crates/core/src/object/node/mod.rs', 'crates/core/src/flattening/node_map.rs', 'src/processor/mod.rs'],
        mech=[('literals, lists and directions', 'crates/core/src/rdf/mod.rs'),
              ('quads of the node map', 'crates/core/src/rdf/quad.rs'),
              ('RDF entry points', 'src/processor/mod.rs')],
        bounds='One value of 14 number forms and 11 kinds of literal with types, languages, directions in 6 positions and 3 direction '
               'modes; lists of up to two items of any kind, nested, shared and in named graphs; two of six '
               '(blank, ill-formed, relative) names and four predicates in nine documents. Compared up to blank node labels.',
        harnesses=[h('h_rdf_values', ['both succeed']), h('h_rdf_lists', ['both succeed']), h('h_rdf_names', ['both succeed'])]),
    'C09': dict(
        title='Expanded form is stable: reading it back or expanding it again changes nothing',
        statement='The JSON of an expanded document reads back (TryFromJson) as an equal document, and expanding it again with no '
                  'context gives the same document, but for bare values and empty nodes of graphs, which expansion drops. '
                  'Reading expanded JSON either refuses it or keeps everything it says; entries given twice and unexpected entries of '
                  'value and list objects are refused.',
        over=['inputs'],
        quant='every document and every JSON array of objects with expanded-form keywords',
        why='A loss on this path is only visible by comparing two complete documents.',
        files=['crates/core/src/object/mod.rs', 'crates/core/src/object/value.rs', 'crates/core/src/object/list.rs',
               'crates/core/src/object/node/mod.rs', 'crates/core/src/lang_string.rs', 'crates/core/src/indexed.rs',
               'crates/core/src/document/expanded.rs', 'crates/expansion/src/document.rs', 'crates/expansion/src/element.rs'],
        mech=[('reading expanded objects', 'crates/core/src/object/mod.rs'),
              ('printing expanded objects', 'crates/core/src/object/node/mod.rs'),
              ('top level of expansion', 'crates/expansion/src/document.rs')],
        bounds='The documents of the harnesses of C01 (values, maps, keywords, colliding entries, structure, top level); for reading, '
               'objects with two of 16 keys, 15 shapes of value, in three places.',
        harnesses=[h('h_fixed_values', ['expanded']), h('h_fixed_maps', ['expanded']), h('h_fixed_keywords', ['expanded']),
                   h('h_fixed_twice', ['expanded']), h('h_fixed_structure', ['expanded']), h('h_fixed_top', ['expanded']),
                   h('h_read', ['read', 'refused'])]),
    'C10': dict(
        title='Equality, traversal and relabelling see all of an expanded document',
        statement='Two expanded documents are equal exactly if they say the same: lists keep their order, everything else is '
                  'a (multi)set. Equality is symmetric, equal objects hash equally, and mapped equality is equality up to the '
                  'given renaming of blank nodes. A traversal meets every node, value, list, index and identifier once, '
                  'identify_all names exactly the anonymous nodes, relabelling renames blank nodes injectively and changes nothing else, '
                  'canonicalization puts exactly the literals in canonical form and is idempotent, and documents compare equal exactly if '
                  'they are the same JSON up to order and expand to equal documents.',
        over=['inputs'],
        quant='every pair of expanded documents, and every pair of documents',
        why='Users compare documents to decide what changed; a part that equality or traversal skips is a silent error.',
        files=['crates/core/src/object/mod.rs', 'crates/core/src/object/mapped_eq.rs', 'crates/core/src/object/node/mod.rs',
               'crates/core/src/object/node/multiset.rs', 'crates/core/src/object/list.rs', 'crates/core/src/object/value.rs',
               'crates/core/src/object/node/reverse_properties.rs', 'crates/core/src/object/node/properties.rs',
               'crates/core/src/document/expanded.rs', 'crates/syntax/src/compare.rs', 'src/processor/remote_document.rs'],
        mech=[('equality and hashing', 'crates/core/src/object/node/multiset.rs'),
              ('equality up to blank nodes', 'crates/core/src/object/mapped_eq.rs'),
              ('traversal', 'crates/core/src/object/mod.rs'),
              ('relabelling and identification', 'crates/core/src/object/node/mod.rs'),
              ('comparison of JSON-LD documents', 'crates/syntax/src/compare.rs')],
        bounds='Pairs of nodes with 4 identities, 6 type lists, 2 indexes and 40 bodies (two items at most but for multisets of three), '
               'in 6 positions; literals of 14 number forms at 6 depths; pairs of documents with 15 values under two terms. JSON '
               'literals that differ in the order of their entries only are outside.',
        harnesses=[h('h_eq', ['equal', 'different']), h('h_walk', ['walked']), h('h_canonical', ['canonicalized']),
                   h('h_compare', ['equal', 'different'])]),
    'C11': dict(
        title='Options, bases and linked contexts apply as the API defines',
        statement='expand, compact and flatten take documents and contexts by value or by reference alike. The base IRI is the base '
                  'option, else the URL the document was finally found at; expandContext applies first, then a context linked by an HTTP header, '
                  'as a remote context relative to its own URL, then the document\'s own. Compaction contexts resolve references against the URL they '
                  'come from and are embedded in the output; flattening with a context is flattening, then compaction; a missing document or '
                  'a context document without a context is refused with its error code. Expansion policies affect only the terms they are about.',
        over=['inputs', 'configurations'],
        quant='every combination of document URL, base, expandContext, linked context, compaction context, mode and policy',
        why='Options interact pairwise (bases, redirects, contexts from several sources); tests fix one combination.',
        files=['src/processor/mod.rs', 'src/processor/remote_document.rs', 'crates/core/src/loader/mod.rs',
               'crates/compaction/src/document.rs', 'crates/expansion/src/options.rs', 'crates/expansion/src/node.rs',
               'crates/context-processing/src/algorithm/iri.rs'],
        mech=[('operations on remote documents', 'src/processor/remote_document.rs'),
              ('compaction entry point', 'src/processor/mod.rs'),
              ('loading of context references', 'crates/core/src/loader/mod.rs'),
              ('expansion policies', 'crates/expansion/src/options.rs')],
        bounds='2 document URLs (or none, or by redirected reference) x base option or none x 7 linked contexts x 15 expandContext values x 6 own '
               'contexts x 2 modes for expansion; 14 compaction contexts, compactToRelative, compactArrays and flattening for compaction; '
               'one document shape exercising relative, vocabulary and term names. Out: a null context where URL and base option '
               'are both given. Policies: 13 bodies under 6 keys with and without @vocab.',
        harnesses=[h('h_api_expand', BOTH), h('h_api_compact', BOTH), h('h_api_policy', ['expanded'])]),
    'C12': dict(
        title='A dataset read as JSON-LD says what the dataset says',
        statement='ExpandedDocument::from_interpreted_quads accepts every RDF dataset, and the document it makes denotes that very dataset, '
                  'up to blank node names: no triple is lost, invented or moved to another graph, whatever nodes refer to each other, to '
                  'themselves or to their graphs, and however malformed the lists are; literals keep their value, type and language. '
                  'Well-formed lists become list objects, in every graph.',
        over=['inputs'],
        quant='every small dataset: references, cycles, types, lists well formed or not, named graphs, literals',
        why='Losses need reference cycles, shared or malformed list nodes, or nodes used in several graphs; the repository has no test of it.',
        files=['crates/core/src/serialization.rs'],
        mech=[('grouping of quads by node, list conversion, rendering', 'crates/core/src/serialization.rs')],
        bounds='Every pair of quads over 3 subjects and 12 predicate-object pairs in 2 graphs each, with 6 kinds of third quad; every pair of quads that share '
               'nodes and names of 3 graphs, with 8 kinds of third quad; lists of up to '
               '3 items in default or named graphs, with 6 kinds of reference and 14 kinds of damage; 32 literals in 5 places. '
               'The type rdf:List of list nodes may be left out; rdf:nil may remain an identifier.',
        harnesses=[h('h_from_quads', ['made']), h('h_from_graphs', ['made']), h('h_from_lists', ['made', 'well formed']), h('h_from_literals', ['made'])]),
    'C13': dict(
        title='Linked Data visits and serialization agree with the document',
        statement='Visiting an expanded document through the linked-data interfaces (LinkedData, LinkedDataGraph, LinkedDataSubject, '
                  'LinkedDataPredicateObjects) yields exactly the statements the document makes: every node, property, reverse property, '
                  'type, list (ended by rdf:nil, in order), value with its datatype and language, included node and graph, once. '
                  'serialize, given any sequence of such visits, produces a document that says what was visited: '
                  'no value, graph, item or type is lost, repeated or altered.',
        over=['inputs'],
        quant='every small expanded document, and every small sequence of visitor calls',
        why='Losses show only for particular nestings (nodes with both properties and graphs, properties visited twice, nested '
            'lists); the repository has no test of either direction.',
        files=['crates/core/src/deserialization/mod.rs', 'crates/core/src/deserialization/object/mod.rs',
               'crates/core/src/deserialization/object/node.rs', 'crates/core/src/deserialization/object/list.rs',
               'crates/core/src/deserialization/object/value.rs', 'crates/serialization/src/lib.rs',
               'crates/serialization/src/expanded/mod.rs', 'crates/serialization/src/expanded/default_graph.rs',
               'crates/serialization/src/expanded/graph.rs', 'crates/serialization/src/expanded/node.rs',
               'crates/serialization/src/expanded/object.rs', 'crates/serialization/src/expanded/property.rs',
               'crates/serialization/src/expanded/value.rs'],
        mech=[('visits of expanded documents', 'crates/core/src/deserialization'),
              ('serialization of visited data', 'crates/serialization/src/expanded')],
        bounds='Values of 12 kinds in 5 places; lists of up to 3 items, nested, of values and nodes; nodes with properties, '
               'reverse properties, types, graphs, included nodes in pairs; sequences of visitor calls: two properties of two objects each of 8 '
               'kinds, nested nodes and lists, two graphs; values of 25 types in 8 places. Out: integers beyond 64 bits, directions, invalid identifiers.',
        harnesses=[h('h_linked_values', ['read']), h('h_linked_lists', ['read']), h('h_linked_nodes', ['read']),
                   h('h_linked_calls', ['written']), h('h_linked_typed', ['written'])]),
    'C14': dict(
        title='Contexts and documents are read, written and printed without loss',
        statement='A context read from JSON, written back (into_json), printed in any layout, serialized or deserialized is the same context: '
                  'every entry, null, term definition, nested context and name survives, and what is printed is JSON laid out as asked. '
                  'Expanded objects and documents printed are their JSON. Keywords, language tags (compared without regard to case), compact IRIs, '
                  'identifiers and container mappings are exactly what the grammar says, and print as what was read; equal values hash alike.',
        over=['inputs', 'configurations'],
        quant='every grammatical context and expanded object, and every name',
        why='Losses need a particular entry, null, nesting or character, in one of four hand-written paths (read, write, print, serde); the '
            'repository has no test of them.',
        files=['crates/syntax/src/context/mod.rs', 'crates/syntax/src/context/print.rs', 'crates/syntax/src/context/try_from_json.rs',
               'crates/syntax/src/context/definition/mod.rs', 'crates/syntax/src/context/term_definition/mod.rs',
               'crates/syntax/src/into_json.rs', 'crates/syntax/src/keyword.rs', 'crates/syntax/src/lang.rs',
               'crates/syntax/src/compact_iri.rs', 'crates/syntax/src/container.rs', 'crates/core/src/print.rs',
               'crates/core/src/container.rs', 'crates/core/src/id.rs', 'crates/core/src/object/mod.rs'],
        mech=[('reading contexts', 'crates/syntax/src/context/try_from_json.rs'),
              ('writing contexts', 'crates/syntax/src/into_json.rs'),
              ('printing contexts', 'crates/syntax/src/context/print.rs'),
              ('printing expanded documents', 'crates/core/src/print.rs'),
              ('containers', 'crates/core/src/container.rs')],
        bounds='Contexts of up to 2 of 11 kinds of entries alone, in arrays or nested as scoped contexts; term definitions of up to 2 of 12 kinds '
               'of entries; 5 layouts; names with up to 2 symbolic bytes among quotes, backslash, control characters, colon and @; words of up '
               'to 3 symbolic bytes for names; every set of up to 7 containers in 2 orders; the expanded objects of the expansion checks. '
               'accessors of definitions of 2 entries; every error code and version. Out: duplicate keywords.',
        harnesses=[h('h_syntax_context', ['read']), h('h_syntax_terms', ['read']), h('h_syntax_names', ['named']),
                   h('h_syntax_views', ['viewed']),
                   h('h_print_values', ['expanded']), h('h_print_keywords', ['expanded']), h('h_print_structure', ['expanded'])]),
    'C15': dict(
        title='Loaders load the document asked for, as the response describes it',
        statement='A file system loader maps an URL to the file its path names below the first mount point the URL is under, and never outside of '
                  'it; maps answer with the document of that very URL; a chain answers with its first loader that has the document; errors name '
                  'the document asked for, whatever the vocabulary. The HTTP loader asks for JSON-LD with the requested profiles, follows '
                  'alternate links up to its limit, refuses other statuses and media types, and returns the document with its final URL, media type, '
                  'profiles and linked context, however the headers are written. Contexts are extracted from documents whole, or refused.',
        over=['inputs', 'configurations', 'histories'],
        quant='every URL, mount table, chain, and sequence of responses with any headers in the grammar',
        why='The HTTP loader has no test but of two header parsers, on single examples; containment must hold for every URL.',
        files=['crates/core/src/loader/mod.rs', 'crates/core/src/loader/fs.rs', 'crates/core/src/loader/chain.rs',
               'crates/core/src/loader/map.rs', 'crates/core/src/loader/none.rs', 'crates/core/src/loader/reqwest/mod.rs',
               'crates/core/src/loader/reqwest/link.rs', 'crates/core/src/loader/reqwest/content_type.rs'],
        mech=[('mount points', 'crates/core/src/loader/fs.rs'), ('chains', 'crates/core/src/loader/chain.rs'),
              ('HTTP loader', 'crates/core/src/loader/reqwest/mod.rs'), ('Link headers', 'crates/core/src/loader/reqwest/link.rs'),
              ('Content-Type headers', 'crates/core/src/loader/reqwest/content_type.rs'),
              ('context extraction', 'crates/core/src/loader/mod.rs')],
        bounds='URLs with up to 5 symbolic path bytes, 4 mount tables; 2 maps of 2 documents in 8 arrangements, 4 ways of asking; 8 media types, '
               'profiles, 3 parameters, 4 spacings; up to 2 links of 6 relations and 3 types, in every spelling for one, 4 for two; up to '
               '3 alternate hops, HTTP redirections, 5 statuses; any 5 bytes of junk in headers. The HTTP client is a scripted stand-in; reading '
               'files is not encoded. Out: percent-encoded paths.',
        features='http',
        harnesses=[h('h_load_fs', ['mapped']), h('h_load_chain', ['asked']), h('h_load_context', ['read']), h('h_http_accept', ['answered']),
                   h('h_http_type', ['answered']), h('h_http_links', ['answered']), h('h_http_redirect', ['answered']),
                   h('h_http_junk', ['answered'])]),
    'C16': dict(
        title='The data model tells of a document what its JSON says',
        statement='Whatever an expanded document says in JSON, its accessors say: identifiers and their kinds, types, values, languages, '
                  'directions, indexes, lists, properties, reverse properties, graphs, included nodes, emptiness, and the entries of objects, '
                  'from either end, with exact lengths. Its main node, blank nodes, quads and node map (with its graphs and their merge) are those of the '
                  'document, and renaming identifiers renames exactly them. Properties and reverse properties hold what was inserted, '
                  'set and removed, in order, and without duplicates where asked.',
        over=['inputs', 'histories'],
        quant='every expanded object, and every sequence of insertions, replacements and removals',
        why='Each accessor walks the object by hand; errors show only for particular combinations of entries, and the repository has no test '
            'of them.',
        files=['crates/core/src/object/mod.rs', 'crates/core/src/object/value.rs', 'crates/core/src/object/node/mod.rs',
               'crates/core/src/object/node/properties.rs', 'crates/core/src/object/node/reverse_properties.rs',
               'crates/core/src/object/node/multiset.rs', 'crates/core/src/id.rs', 'crates/core/src/quad.rs',
               'crates/core/src/flattening/node_map.rs', 'crates/core/src/document/expanded.rs', 'crates/core/src/lang_string.rs',
               'crates/core/src/indexed.rs'],
        mech=[('views of objects', 'crates/core/src/object/mod.rs'), ('views of nodes', 'crates/core/src/object/node/mod.rs'),
              ('properties', 'crates/core/src/object/node/properties.rs'), ('quads', 'crates/core/src/quad.rs'),
              ('node maps', 'crates/core/src/flattening/node_map.rs'), ('renaming', 'crates/core/src/document/expanded.rs')],
        bounds='Values of every kind, their entries taken from both ends; nodes with any of 8 entries, 4 identifiers, 5 sets of types; documents of up to 2 '
               'objects, 4 kinds of children; quads of nodes with 2 of 7 entries in 3 documents; 3 changes of 6 kinds, 4 objects, 2 properties. '
               'Out: other vocabularies than ().',
        harnesses=[h('h_views_values', ['viewed']), h('h_views_nodes', ['viewed']), h('h_views_documents', ['viewed']),
                   h('h_views_quads', ['viewed']), h('h_views_changes', ['changed'])]),
    'C17': dict(
        title='Every form of an operation does the same',
        statement='What expand, into_document, compact, flatten and to_rdf give depends on the document, the options and the loader alone: not on the '
                  'variant of the function (plain, _with, _using, _with_using, _full) beyond the default options, not on whether the document is given by value '
                  'or by reference, not on how the vocabulary stores identifiers, nor on who hears the warnings (which name what they are about). '
                  'The RDF of a document is that of its flattened form and of its node map. compare tells documents apart exactly when their JSON '
                  '(up to order) or their expanded form differs.',
        over=['inputs', 'configurations'],
        quant='every document, option set, variant of the functions and vocabulary',
        why='Each variant passes vocabulary, options, loader and generator on by hand; the tests call one variant with the default vocabulary.',
        files=['src/processor/mod.rs', 'src/processor/remote_document.rs', 'crates/core/src/document/mod.rs', 'crates/core/src/rdf/quad.rs',
               'crates/core/src/loader/mod.rs', 'crates/syntax/src/compare.rs', 'crates/core/src/warning.rs', 'crates/expansion/src/warning.rs'],
        mech=[('the variants', 'src/processor/mod.rs'), ('documents and references', 'src/processor/remote_document.rs'),
              ('comparison', 'crates/syntax/src/compare.rs'), ('quads of documents', 'crates/core/src/rdf/quad.rs')],
        bounds='11 documents (between them every kind of container, coercion, scoped and remote context, malformed identifiers, three errors) x linked '
               'context or none x 4 sets of options x 4 compaction contexts x every variant, IndexVocabulary empty or filled; pairs of documents of 5 '
               'keys and 5 shapes to compare; 12 oddities in pairs to warn of. Out: warnings of contexts (those within documents go to the standard error).',
        harnesses=[h('h_forms_variants', ['same']), h('h_forms_vocabulary', ['same']), h('h_forms_rdf', ['same']),
                   h('h_forms_compare', ['compared']), h('h_forms_warnings', ['heard'])]),
}
NOT_APPLICABLE = {}
