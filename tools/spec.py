"""The properties: one table from which properties.jsonl and MANIFEST.json are made."""

NOTE = ('Bounded: every value within the bounds stated in the evidence file is decided by z3 '
        'over paths of the real source (re-read from /repo on each run); each path is also '
        'replayed natively on one of its models. Trusted: the symx interpreter layer (checked '
        "against the repository's own tests by setup_cmd and by those replays), its models of "
        'str/re/dict/expat/json/files, and z3. ')

MANIFEST_NOTES = (
    'All checks are instances of one engine, /verif/symx: the modules of /repo/xigt are '
    'parsed at every run, rewritten so that operators, calls and literals go through a '
    'symbolic runtime, and executed path by path; z3 decides every branch and every '
    'assertion; counterexamples are replayed on the untouched code before they are reported.')

M = 'xigt/mixins.py'
MO = 'xigt/model.py'
ME = 'xigt/metadata.py'
R = 'xigt/ref.py'
Q = 'xigt/query.py'
XM = 'xigt/codecs/xigtxml.py'
JS = 'xigt/codecs/xigtjson.py'
XP = 'xigt/xigtpath.py'
SS = 'xigt/scripts/xigt_sort.py'
SP = 'xigt/scripts/xigt_partition.py'
SQ = 'xigt/scripts/xigt_query.py'
SV = 'xigt/scripts/xigt_validate.py'
EL = 'xigt/exporters/latex.py'
EI = 'xigt/exporters/itsdb.py'
EU = 'xigt/exporters/util.py'
IT = 'xigt/importers/toolbox.py'
IO = 'xigt/importers/odin.py'


def P(id, title, statement, over, forall, why, files, mech, **kw):
    d = dict(id=id, title=title, statement=statement, over=over, forall=forall,
             why=why, files=files, mech=mech)
    d.update(kw)
    return d


PROPS = [
 P('M01', 'Containers keep member order, id lookup and ownership coherent',
   'After any sequence of edits, a corpus, IGT, tier or metadata container holds its members '
   'in the order the edits imply, looking an id up finds exactly the member carrying that id '
   'and nothing removed, and every member names the container as its parent (and so reaches '
   'its tier, IGT and corpus). Edits act on the very member given, never on another that '
   'compares equal.',
   ['histories', 'inputs'],
   'every sequence of edits (append, insert, extend, add, remove, delete, replace, clear, assign, re-index) on every reachable container state',
   'Tests run a handful of fixed append/insert/remove sequences; equal members, members without ids and edits after removals are never combined.',
   [M, MO, ME], [('id index kept next to the list', M + ':XigtContainerMixin'), ('parent assignment', M + ':XigtContainerMixin.insert')]),
 P('M02', 'A rejected edit raises an error and changes nothing',
   'When a container refuses an edit - duplicate id, object of the wrong kind, member not '
   'present, position out of range - it raises, and the container, its id lookup, and the '
   'parents of all objects involved are exactly as they were before.',
   ['histories', 'fault_sequences'],
   'every reachable container state and every edit the container must refuse',
   'Tests check that an exception is raised on a few inputs, not the state left behind.',
   [M], [('checks before mutation', M + ':XigtContainerMixin')]),
 P('M03', 'Exactly the well-formed identifiers and child names are accepted',
   'An identifier given at construction or later is accepted if and only if the whole string '
   'is an ASCII letter followed by letters, digits, underscores, dots and hyphens, and the '
   'name of an element inside a meta if and only if the whole string is a letter (of any '
   'script) or underscore followed by such characters; a refused one raises and leaves the '
   'object unchanged.',
   ['inputs'], 'every string',
   'Tests try a few good and bad identifiers; trailing newlines, embedded blanks and non-ASCII characters are not covered.',
   [MO, ME, M], [('identifier pattern', R + ':id_re'), ('id property', M + ':XigtAttributeMixin.id')]),
 P('M04', 'Equality is structural, symmetric and aware of kinds',
   'Two objects are equal if and only if they are of the same kind and agree in id, type, '
   'attributes, text or members, and metadata; equality is symmetric, and != always is its '
   'negation.',
   ['inputs'], 'every pair of objects of any kinds',
   'Tests compare a few hand-made objects; codec tests rely on equality being right.',
   [M, MO, ME], [('__eq__ of containers and attributes', M), ('__eq__ of items and metas', MO + ', ' + ME)]),
 P('M05', 'Attributes are looked up by qualified name and inherited from ancestors',
   'Looking an attribute up with inheritance returns the value at the nearest enclosing object '
   'that has the attribute of exactly that qualified name, whichever way the name is spelt '
   '(plain, {uri}local, prefix:local, or with a namespace argument), and the default if there '
   'is none; without inheritance only the object itself counts.',
   ['inputs', 'configurations'], 'every nesting of objects, every distribution of attributes and prefix declarations, every spelling of the name',
   'Tests look up a few attributes at fixed levels without prefix re-declaration.',
   [M], [('get_attribute', M + ':XigtAttributeMixin.get_attribute'), ('qualify_attribute_key', M)]),
 P('M06', 'Prefix declarations are inherited; selection filters members exactly',
   'The prefixes in force at an object are those declared at the nearest enclosing object that '
   'declares any, and selecting the members of a container by properties yields exactly the '
   'members that have all of them, in order.',
   ['inputs', 'configurations'], 'every chain of declarations; every set of members and every combination of criteria',
   'Tests select by single criteria on fixed corpora.',
   [M, ME, MO], [('nsmap', M + ':XigtAttributeMixin.nsmap'), ('select', M + ':XigtContainerMixin.select')]),
 P('M07', 'Metadata lookup finds the nearest matching meta',
   'Looking up metas by type and conditions returns all matching metas, in order, in the '
   'xigt-meta metadata of the object itself or, with inheritance, of the nearest enclosing '
   'object that has any, and the default otherwise; metadata assigned to an object replaces what was there, in order and with the '
   'object as parent.',
   ['inputs'], 'every distribution of metadata over corpus, IGT and tier, all types, texts and conditions',
   'Tests use one corpus with one metadata per level.',
   [ME], [('get_meta', ME + ':XigtMetadataMixin.get_meta')]),
 P('M08', 'Loading modes deliver every IGT exactly once, in order',
   'A corpus loaded in full or incremental mode yields the same IGTs in source order on every '
   'iteration, however earlier or concurrent iterations were interleaved or abandoned; in '
   'transient mode each IGT is delivered once and none is retained.',
   ['schedules', 'histories'], 'every source, every interleaving of partial iterations',
   'Tests iterate once from start to end.',
   [MO, XM, JS], [('lazy iteration', MO + ':XigtCorpus.__iter__')]),
 P('M09', 'Sorting the tiers of an IGT puts referred tiers first, stably, and ends',
   'Sorting the tiers of an IGT keeps exactly the same tiers, places each tier below the tier '
   'it refers to by its first reference, orders siblings as the reference order and their '
   'previous order say, and terminates for every reference graph including cyclic, '
   'self-referring and dangling ones.',
   ['inputs', 'programs'], 'every reference graph over the tiers',
   'Tests sort two or three acyclic IGTs.',
   [MO], [('sort_tiers', MO + ':Igt.sort_tiers')]),
 P('M10', 'Lookup of tiers and items in an IGT agrees with its contents after a refresh',
   'After the indices of an IGT are refreshed, looking up an id returns the tier or item that '
   'carries it now and nothing for ids no longer present, whatever was added, removed or '
   'renamed before.',
   ['histories'], 'every edit history followed by a refresh',
   'Tests refresh after building, not after removals and renamings.',
   [MO, M], [('refresh_indices', MO + ':Igt.refresh_indices')]),
 P('M11', 'Reference attributes and their shortcut properties are one thing',
   'The alignment, segmentation and content of a tier or item read the same through the '
   'property and through the attribute; setting one is visible in the other, and setting it to '
   'nothing removes it so that the object serialises and dereferences as if it was never there.',
   ['histories', 'inputs'], 'every way of building and every sequence of assignments',
   'Tests set each attribute once.',
   [M, MO], [('XigtReferenceAttributeMixin', M)]),
 P('M12', 'Every way of building an object gives the same object',
   'Objects built by constructor arguments, by assignments, by appending, or through the '
   'deprecated names have exactly the ids, types, texts, attributes, namespaces, metadata and '
   'members they were given, share nothing with the arguments or each other that later changes '
   'could reach, know the objects that contain them, and a segmentation together with another reference is refused. The deprecated '
   'names do what the present ones do, and warn.',
   ['inputs', 'configurations'], 'every class, all arguments absent or given, every way of giving them',
   'Tests build a few objects with fixed arguments and never change the arguments afterwards.',
   [M, MO, ME], [('constructors', MO), ('Metadata.text', ME), ('add, add_list', M)]),
 P('M13', 'Objects can be shown in every state and showing them changes nothing',
   'The printed form (repr, str) of a corpus in any loading mode, an IGT, tier, item, metadata, meta or nested element '
   'names its kind, its id (or name) and its size; that of an item also its value, if its text or references give one. It '
   'never raises, even when references are missing, dangling or circular, loads no IGTs and changes nothing.',
   ['inputs', 'fault_sequences'], 'every object, whatever its references, every loading mode and state of loading',
   'No test prints objects.',
   [MO, ME], [('__repr__', MO), ('__repr__', ME)]),
 P('R01', 'Alignment expressions resolve to the text they select',
   'Resolving an alignment expression against a tier or IGT gives the selected texts in order: '
   'a bare id the whole value of the item, an id with spans the slices of it, joined by '
   'nothing for + and by a blank for a comma; an id that does not exist is an error.',
   ['inputs'], 'every well-formed expression and every text',
   'Tests resolve about ten expressions on fixed texts.',
   [R], [('resolve', R + ':resolve'), ('expression patterns', R + ':selection_re, span_re')]),
 P('R02', 'Expanding and compressing expressions preserve their meaning',
   'Expanding and compressing an alignment expression never change what it resolves to; '
   'expanding a compressed expression gives back the expansion of the original, and each is '
   'idempotent.',
   ['inputs'], 'every well-formed expression',
   'Tests check a dozen literal pairs.',
   [R], [('expand, compress', R)]),
 P('R03', 'Expressions are split without loss and their ids are all found',
   'Splitting an expression into selections or spans with delimiters kept loses no character '
   'of it, and the ids, selections and spans of a well-formed expression are exactly those it '
   'was composed of, in order.',
   ['inputs'], 'every string; every composition of selections, spans and delimiters',
   'Tests split literal examples.',
   [R], [('selections, spans, ids', R)]),
 P('R04', 'Referents and referrers are inverse of each other',
   'An object is listed among the referrers of another under an attribute exactly when the '
   'other is among its referents under that attribute, each once, and the answer from the '
   'index of the IGT equals the one computed directly.',
   ['inputs', 'programs'], 'every reference graph over tiers and items',
   'Tests query single references.',
   [R, MO], [('referents, referrers', R), ('reference index', MO + ':Igt.refresh_indices')]),
 P('R05', 'The value of an item is its text or what its references select',
   'The value of an item is its own text if it has one, else what its content or '
   'segmentation reference selects in the tier its own tier names for that attribute, through '
   'any chain of such tiers; spans of an item are slices of its value.',
   ['inputs'], 'every item, tier and chain of references',
   'Tests have chains of fixed depth with fixed texts.',
   [MO, R], [('value', MO + ':Item.value'), ('span', MO + ':Item.span')]),
 P('R06', 'Dereferencing returns the very objects that are referred to',
   'Dereferencing a reference attribute of a tier or item returns the objects with the ids it '
   'names, in order, and an error or nothing for objects that have none.',
   ['inputs'], 'every reference expression and IGT',
   'Tests dereference single ids.',
   [R], [('dereference, dereference_all', R)]),
 P('R07', 'The older alignment functions agree with the current ones',
   'The older functions for alignment expressions return the same ids, spans, texts and '
   'aligned tiers as the expression denotes, and report missing tiers and items by the '
   'documented errors.',
   ['inputs'], 'every well-formed expression, known and unknown ids',
   'Only ids and spans of literals are tested.',
   [R, MO], [('get_alignment_expression_*, resolve_alignment*', R)]),
 P('Q01', 'Walking up references visits every step once and ends',
   'The ancestors of a tier or item are given step by step along the references - each step '
   'with source, attribute, referred tier and referred items - and the walk ends for every '
   'reference graph, cyclic ones included.',
   ['inputs', 'programs'], 'every reference graph over tiers and items',
   'Tests walk one acyclic corpus.',
   [Q], [('ancestors', Q)]),
 P('Q02', 'Walking down references visits exactly the referring tiers and items and ends',
   'The descendants of a tier or item are given breadth first, each step with exactly the '
   'tiers that refer to the current one and their items that refer to the current items, and '
   'the walk ends for every reference graph.',
   ['inputs', 'programs'], 'every reference graph over tiers and items',
   'Tests walk one acyclic corpus.',
   [Q], [('descendants', Q)]),
 P('X01', 'Writing a corpus as XML and reading it back gives an equal corpus',
   'Every corpus that XML can express is equal to the corpus read back from its XML form, '
   'texts, attributes, namespaces and nested metadata included, whatever the indentation, and '
   'the prefixes declared for each object stand for the same namespaces.',
   ['inputs', 'configurations'], 'every corpus; every indentation',
   'Tests round-trip a few corpora without special characters.',
   [XM], [('build and decode functions', XM)]),
 P('X02', 'XML output is repeatable and independent of how it is written',
   'Writing a corpus changes nothing in it, gives the same document each time and through '
   'every way of writing (string, file object, path, loading mode), and writing what was read '
   'gives the same document again; a document in another encoding declares it and is read accordingly; '
   'writing something that is not a corpus raises.',
   ['inputs', 'configurations'], 'every corpus, indentation, encoding, loading mode and way of writing',
   'Tests write literal corpora once.',
   [XM], [('dump, dumps', XM)]),
 P('X03', 'Writing a corpus as JSON and reading it back gives an equal corpus',
   'Every corpus is equal to the corpus read back from its JSON form, including absent and '
   'empty texts, types, namespaced attributes and nested metadata.',
   ['inputs', 'configurations'], 'every corpus; every loading mode',
   'Tests round-trip a few corpora.',
   [JS], [('encode and decode functions', JS)]),
 P('X04', 'The XML and JSON forms carry the same information',
   'A corpus converted from XML to JSON and back, or from JSON to XML and back, in any loading '
   'mode, is equal to the original.',
   ['inputs'], 'every corpus',
   'No test converts between the formats.',
   [XM, JS], [('both codecs', XM + ', ' + JS)]),
 P('X05', 'XML documents mean the same however they are laid out',
   'White space between elements, attribute order and quoting, character references, comments, '
   'where and under which prefix namespaces are declared, and elements the format does not '
   'know make no difference to the corpus read, in any loading mode.',
   ['inputs', 'configurations'], 'every layout of a document',
   'Tests read one layout.',
   [XM], [('iterparse and decode functions', XM)]),
 P('X06', 'Single objects are written and read by themselves',
   'An IGT, tier, item, metadata, meta or nested element that is written alone, as XML or JSON, carries all that it needs: '
   'what is read from it is equal to it, namespaces and prefixes that it inherits included; writing it changes nothing.',
   ['inputs', 'configurations'], 'every object of every corpus, in both codecs, every indentation',
   'Tests only write whole corpora.',
   [XM, JS], [('encode functions', XM), ('encode functions', JS)]),
 P('X07', 'Damaged XML documents are refused, never read as a smaller corpus',
   'A document that is cut short, whose tags do not match, that goes on after its root, or whose root is not a corpus '
   'cannot be read: reading it whole raises an error; reading it igt by igt gives at most complete igts, those that '
   'come before the damage, and then raises an error, which is never one that ends loops quietly.  White space and comments '
   'after the root are no damage.',
   ['inputs', 'crash_points'], 'every position of a cut, every junk, every root, all modes',
   'Tests only read well-formed documents.',
   [XM], [('loading', XM + ':default_decode, iter_elements, ns_iterparse')]),
 P('X08', 'Written XML documents are what the published schema describes',
   'The document written for a corpus, seen by any XML parser, has the elements xigt-corpus, igt, tier, item, metadata and meta of the '
   'schema (schema/xigt-structure.rnc) in its order, metadata before the members: one element for each object, nested as the objects are, '
   'with exactly its id, type and attributes under their full names, texts as they are, and nothing but white space between elements; '
   'elements nested in metas have their own names and namespaces.',
   ['inputs'], 'every corpus, every text, every layout',
   'Tests compare written documents with what the same library reads, so a writer and a reader that are wrong together agree.',
   [XM], [('building elements', XM + ':_build_elem, _build_corpus, _build_igt, _build_tier, _build_item, _build_metadata, _build_meta, _build_metachild')]),
 P('X09', 'JSON documents have one layout, in writing and in reading',
   'The JSON document of a corpus is an object with id, type, attributes, namespaces, metadata and igts; these hold tiers, these items with texts, '
   'and metadata hold metas with texts or children with names.  What is written can be read by that description alone: prefixes of attributes and '
   'of the names of children stand for the namespaces declared at the object or above it.  And any such document is read as what it says: keys in any order, '
   'absent or empty, unknown ones ignored, names in namespaces given by a prefix, a URI or a declared prefix as the namespace, attributes by a declared prefix or a URI.',
   ['inputs'], 'every corpus, every document of that layout',
   'Tests have no JSON documents but those the library writes itself.',
   [JS], [('encoding', JS + ':encode, _make_obj'), ('decoding', JS + ':decode, decode_attributes, active_namespaces')]),
 P('P01', 'XigtPath axes and name tests select exactly the nodes they describe',
   'A XigtPath of steps - self, parent, children or descendants by name, by prefix:name or by *, '
   'attributes by name, prefix:name or * - gives, from any object of a corpus, exactly the objects '
   'and strings it describes, in the order of the document per object; finding one gives the '
   'first of them or nothing.',
   ['inputs', 'programs'], 'every path, every starting object, every corpus',
   'Tests evaluate some thirty literal paths on three corpora.',
   [XP], [('axes', XP + ':_step, _find_child, _find_attr, _find_descendant_or_self')]),
 P('P02', 'XigtPath predicates keep exactly the results that satisfy them',
   'A predicate keeps, in order, exactly the results for which its path gives something (no '
   'comparison), gives a string equal to the literal (=), or gives none equal to it (!=); '
   'predicates may be nested and repeated, and literals may contain any characters.',
   ['inputs', 'programs'], 'every predicate and literal, every attribute and text',
   'Tests use five predicates, all comparing with = to plain words.',
   [XP], [('predicates', XP + ':_make_predicate_test'), ('tokenizer', XP + ':tokenize')]),
 P('P03', 'XigtPath functions give the texts, values and linked objects',
   'text() and value() give the text and value of each object that has one; referent() and '
   'referrer(), optionally restricted to some reference attributes, give exactly the existing '
   'objects that are referred to by or refer to each tier or item, by attribute name and then in '
   'order, and can be followed by further steps.',
   ['inputs', 'programs'], 'every reference graph, every selection of attributes, missing ids and dangling references',
   'Tests use one corpus with complete references.',
   [XP, R], [('functions', XP + ':_function, _find_referent, _find_referrer')]),
 P('P04', 'XigtPath groups give the results of each alternative in turn',
   'A group of alternatives at any place of a path gives, for each object it is applied to, the '
   'results of each alternative in turn, and what follows the group applies to all of them.',
   ['inputs', 'programs'], 'every group, nested or not, after any number of results',
   'Tests have two alternatives that both match, on one object.',
   [XP], [('groups', XP + ':_disjunction')]),
 P('P05', 'XigtPath expressions are read token by token; blanks do not matter',
   'A path is read as the sequence of its tokens whatever white space stands between them, names '
   'and quoted strings are taken whole, and a path that ends with a slash is refused.',
   ['inputs', 'programs'], 'every sequence of tokens, every placement of white space',
   'Tests tokenise twelve literal paths without odd names or escapes.',
   [XP], [('tokenizer', XP + ':tokenize')]),
 P('S01', 'Sorting a corpus reorders it by the keys and changes nothing else',
   'The sort command gives the corpus it read with IGTs, tiers or items (those it was asked to '
   'sort, and no others) in stable order of their keys - key by key, runs of digits compared as '
   'numbers, missing keys first - or tiers by their reference dependencies; it prints the result '
   'and leaves the file alone, or replaces the file when told to and prints nothing.',
   ['inputs', 'configurations'], 'every corpus and every choice of keys',
   'No test runs the command.',
   [SS, MO], [('make_sortkey, run', SS)]),
 P('S02', 'Partitioning puts every IGT unchanged into exactly one file',
   'After the partition command every IGT of the input files is in exactly one file of the '
   'output directory, as it was and in the order it was read; IGTs with the same key (or all '
   'without one) share a file named after the key, others do not unless their names coincide; '
   'nothing else is written, no input is changed, and an existing directory is refused.',
   ['inputs', 'configurations'], 'every set of input files, keys and default key',
   'No test runs the command.',
   [SP, XM], [('index, write', SP), ('transient reading', XM)]),
 P('S03', 'The query command reports exactly the matches and their numbers',
   'For each file the query command prints each match (find), the number of matches (count), of '
   'different matches (unique), and of matches with the same sub-results (tally, larger groups '
   'first), for each action in the order given, with the description given or the query as it '
   'was written; any characters may occur in queries, matches and descriptions.',
   ['inputs', 'configurations'], 'every corpus, query, description and sequence of actions',
   'No test runs the command.',
   [SQ, XP], [('patterns and descriptions', SQ)]),
 P('S04', 'Validation reports every defect of a corpus in its place, and nothing else',
   'The validation report of a corpus has, at the place it concerns and at its level, one record '
   'for each missing or repeated id, missing tier type, reference attribute of a tier that names '
   'no tier, reference attributes of items not on their tier, references to items the tier named '
   'does not have, and spans that are no positions, lie outside of what they refer to or overlap - and no others. '
  'No reference, however broken or circular, keeps it from reporting; a file that cannot be read, whatever is wrong '
  'with its ids or its XML, is reported as such, and the other files are still validated.',
   ['inputs'], 'every corpus that can be loaded',
   'No test runs the command.',
   [SV, R], [('conditions', SV)]),
 P('S05', 'The validate command succeeds exactly when there is nothing to report',
   'The validate command ends with success if and only if every file loads and has no problem at '
   'the level asked for or above; it lists exactly the parts of a corpus with such problems, '
   'each below the parts it belongs to, and names the files that do not load.',
   ['inputs', 'configurations', 'fault_sequences'], 'every list of files, fine or defective, every verbosity',
   'No test runs the command.',
   [SV], [('filtering and printing', SV + ':filter_empty_reports, print_report'), ('verdict', SV + ':run')]),
 P('E01', 'LaTeX output sets every text of an IGT exactly as it was',
   'A document exported to LaTeX, read back as TeX reads it, gives for every IGT the texts of its '
   'aligned tiers and of its translation exactly as they were, whatever special characters they '
   'contain: no text is lost, altered, or read as a command.',
   ['inputs'], 'every text over the special characters of TeX, and every presence or absence of texts, tiers and translations',
   'No test runs the exporter.',
   [EL], [('escaping', EL + ':escape'), ('examples', EL + ':export_igt, group_alignments')]),
 P('E02', 'Aligned items share a column of the interlinear example, in order',
   'In the interlinear examples of the LaTeX export each item stands exactly once, in the row of '
   'its tier; items that are aligned to each other, directly or through others, share a column and '
   'unrelated items do not unless alignments cross or skip; the items of a row are in the order of their tier whenever alignments '
   'do not cross; references to missing items lose nothing.',
   ['inputs'], 'every alignment of items to any of the items of the tiers above',
   'No test runs the exporter.',
   [EL], [('columns', EL + ':group_alignments')]),
 P('E03', 'The [incr tsdb()] export gives one row for each IGT, cells as configured',
   'The [incr tsdb()] export makes one row for each IGT in the order of the corpus, with ids from '
   'the configured start by the configured step, and in each configured cell exactly what that '
   "cell's own expression gives for the IGT (by default the first phrase, or else the words); "
   'without a file of relations nothing is exported and an error is reported; the configuration '
  'is left as it was and can be used again.',
   ['inputs', 'configurations'], 'every list of cells, start and step, and every presence of phrases and words',
   'No test runs the exporter.',
   [EI], [('cells', EI + ':prepare_config, export_igt'), ('ids', EI + ':export_corpus')]),
 P('E04', 'Configured tiers and substitutions shape the LaTeX examples as written',
   'Each interlinear example has one line for every tier of the configured types, in the order of '
   'the IGT. Substitutions are made one after another in the order they are configured, each on the '
   'items or lines of exactly those tiers whose type its pattern matches, whether the replacement is '
   'a text, refers to groups, or is a function; everything else stays as it is.',
   ['inputs', 'configurations'], 'every text and every combination of substitutions and tier types',
   'No test runs the exporter.',
   [EL, EU], [('substitution', EU + ':sub'), ('choice of tiers', EL + ':export_igt')]),
 P('I01', 'Segments of imported words and morphemes are their parts of the line or word',
   'In IGTs imported from Toolbox the segment of a word is the word itself in its phrase; when a word '
   'consists of its morphemes, boundary marks aside and with or without hyphens between them, the '
   'segment of each morpheme is its part of the word; a single morpheme is the whole word; where '
   'morphemes do not fit the segments stay within the word and extend to its end.',
   ['inputs'], 'every word and every list of morphemes',
   'No test runs the importer.',
   [IT], [('segmentation', IT + ':align_word')]),
 P('I02', 'Every Toolbox record becomes a complete IGT or is reported',
   'Each record of a Toolbox file becomes, in order, one IGT whose tiers are those of the mapped '
   'markers in their order, whose items are all the tokens in order, and whose references lead to '
   'the tokens they were aligned to, also if the map of markers leaves out some of the tiers; a record '
   'that cannot be converted - bad alignments, an impossible id or none - is reported and skipped '
   'without affecting the others.',
   ['inputs', 'configurations', 'fault_sequences'], 'every list of records, good or defective, and every map of markers, types and alignments',
   'No test runs the importer.',
   [IT], [('tiers', IT + ':make_tier, make_all_tiers'), ('failing records', IT + ':make_igt, toolbox_igts')]),
 P('I03', 'ODIN files convert to corpora that can be read back with nothing lost',
   'Importing ODIN text gives a corpus file that can be loaded and has an IGT for every block with '
   'its ids, line numbers, tags, language and (if asked for) header, and every line as an item in '
   'order; characters that XML does not allow are replaced by the configured replacement, and no '
   'others. A file converts to a file, a directory to a directory, and other combinations are '
   'refused without touching anything.',
   ['inputs', 'configurations'], 'every text, including control characters, surrogates and characters of all planes; all options and kinds of paths',
   'No test runs the importer.',
   [IO], [('invalid characters', IO + ':replace_invalid_xml_chars'), ('conversion', IO + ':make_igt')]),
 P('I04', 'Tokens of Toolbox lines keep their columns whatever their characters are',
   'When the lines of a Toolbox file are decoded for import, every token starts at the column at '
   'which its bytes started in the file and its text is unchanged, so that interlinear lines stay '
   'aligned with characters of any number of bytes; every line of the file is passed on, in order.',
   ['inputs'], 'every line over white space and characters of one to four bytes',
   'No test runs the importer.',
   [IT], [('re-spacing', IT + ':_respace_decode'), ('reading', IT + ':xigt_import')]),
 P('S06', 'xigt, export and import do exactly what they are asked to',
   'xigt followed by the name of a subcommand does with the remaining arguments what the subcommand '
   'does; export hands every IGT of the corpus, in order and complete, with the configuration to the '
   'exporter of the chosen format, and import hands the file and configuration to the importer of '
   'the chosen format; without a choice they use LaTeX and Toolbox.',
   ['inputs', 'configurations'], 'every corpus, format, configuration and subcommand',
   'No test runs the commands.',
   ['xigt/main.py', 'xigt/scripts/xigt_export.py', 'xigt/scripts/xigt_import.py'],
   [('dispatch', 'xigt/main.py:main'), ('export', 'xigt/scripts/xigt_export.py:run'), ('import', 'xigt/scripts/xigt_import.py:run')]),
]
