"""The properties, their anchors and how they are decided: the single source of properties.jsonl and MANIFEST.json."""

TECH = 'bounded-exhaustive explicit-state exploration of the real code against a reference model'
TRUST = (' Trusts the reference model (mc/terms.py, mc/ops.py: frozensets and ints only) and the stated bounds; every '
         'model step is replayed on the implementation, nothing is sampled.')

PROPS = []


def P(id, title, statement, over, text, why, files, mechanism, observe, note, technique=TECH, state=()):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                      mechanism=mechanism, observe=observe, note=note + TRUST, technique=technique, state=list(state)))


L = 'algebraixlib/'

P('C01', 'Equality, hash, order and containment are those of the mathematical values',
  'Two values compare equal exactly if they are the same mathematical value (atoms are distinguished by the type of '
  'their Python value, order and repetition of set elements do not matter, multiplicities do), and equal values have '
  'equal hashes. The order used for sorting is a strict total order on values of one kind that does not depend on how '
  'a value was built, and iteration, length, cardinality, containment and multiplicity look-ups agree with the value. '
  'All construction routes (from Python values, from mathematical objects, from iterables, by operations) that denote '
  'the same value give equal objects.',
  ['inputs', 'histories'], 'All values of all kinds and nesting, all ways and orders of building them, all query histories.',
  'Tests compare a few dozen hand-written values; equality, hash and order must cohere on all pairs and triples, including '
  'atoms whose Python values collide (1, True, 1.0), and for every construction order.',
  [L + 'mathobjects/atom.py', L + 'mathobjects/couplet.py', L + 'mathobjects/set.py', L + 'mathobjects/multiset.py',
   L + 'mathobjects/mathobject.py', L + 'util/miscellaneous.py'],
  [('__eq__/__hash__/__lt__ of Atom, Couplet, Set, Multiset', 'algebraixlib/mathobjects'),
   ('auto_convert and direct_load construction', 'algebraixlib/mathobjects/mathobject.py:auto_convert'),
   ('hash combination', 'algebraixlib/util/miscellaneous.py:get_hash')],
  ['== != < hash() in iteration len() of values'],
  'All pairs of several hundred values of every kind (fresh, queried, produced by operations) and all short construction sequences.')

P('C02', 'The set algebra computes exactly the set-theoretic result',
  'Union, intersection, difference, substriction, superstriction, the subset and superset tests, the big (n-ary) union '
  'and intersection, multification, power set, power-up, the single element, and restriction of sets return exactly what '
  'elementary set theory defines, for elements of every kind. The result does not depend on the order in which operands '
  'were built, on what was asked of them before, on their size, or on one object being used for both operands.',
  ['inputs', 'histories'], 'All finite sets with elements of every kind, in every construction order and query state.',
  'Tests check a handful of operand pairs; the definitions must hold for every operand, including nested, empty and '
  'colliding elements and operands whose cached properties steer shortcuts.',
  [L + 'algebras/sets.py', L + 'mathobjects/set.py', L + 'extension.py'],
  [('set operations on the frozenset data', 'algebraixlib/algebras/sets.py'), ('Set construction', 'algebraixlib/mathobjects/set.py:Set.__init__')],
  ['results of the public functions of algebras.sets'],
  'All pairs of bounded universes of sets and clans, both insertion orders, six preparations, and scaled operands.')

P('C03', 'Couplet and relation algebra follow their definitions',
  'Transposition and composition of couplets and relations, functional and right-functional union, left and right sets, '
  'the rights of a left, the single right or left, renaming, swapping, filling missing lefts, adding a couplet to a '
  'functional relation, and the evaluation of a relation at a left return exactly what their definitions say. They are '
  'undefined exactly where the definition gives no result.',
  ['inputs', 'histories'], 'All couplets and finite relations and all arguments, in every construction order and query state.',
  'Tests use a few fixed relations; the definitions quantify over all relations, including non-functional, empty and self-composing ones.',
  [L + 'algebras/couplets.py', L + 'algebras/relations.py', L + 'mathobjects/couplet.py', L + 'mathobjects/set.py'],
  [('relation operations', 'algebraixlib/algebras/relations.py'), ('couplet operations', 'algebraixlib/algebras/couplets.py'),
   ('functional look-up', 'algebraixlib/mathobjects/set.py:Set.__call__')],
  ['results of the public functions of algebras.couplets and algebras.relations'],
  'All pairs of all 16 relations over two atoms and of bounded relations over three atoms, all unary cases over three atoms, histories, scaled relations.')

P('C04', 'The clan algebra (tables) follows its definitions',
  'Transposition, composition, cross-union, cross-functional and cross-right-functional union (natural joins), the '
  'left-sided cross-functional union, cross-intersection, sub- and superstriction, projection, left and right sets, and '
  'the rows defined at a left, when applied to clans (sets of relations, i.e. tables), return exactly the set obtained '
  'by applying the relation operation to the rows and dropping undefined results; building a clan from sets or '
  'dictionaries gives exactly the rows described. The result is the same for every construction order, query history and size.',
  ['inputs', 'histories'], 'All finite clans and arguments, in every construction order and query state.',
  'Tests join a few small tables; joins, projections and their shortcuts for functional or regular clans must be right for all tables.',
  [L + 'algebras/clans.py', L + 'extension.py', L + 'mathobjects/set.py'],
  [('extension of relation operations', 'algebraixlib/extension.py:binary_extend, unary_extend'), ('clan operations', 'algebraixlib/algebras/clans.py')],
  ['results of the public functions of algebras.clans'],
  'All pairs of all clans with at most two (thorough: three) of 14 representative relations, unary on 697 clans, histories, tables up to 300 rows.')

P('C05', 'The multiset algebra computes exact multiplicities',
  'Union (maximum), intersection (minimum), difference, addition, sub- and superstriction, the subset and superset tests, '
  'big union and intersection, demultification and the single element of multisets give exactly the multiplicities their '
  'definitions say, and no element with multiplicity zero appears. Multiplicities are counted per mathematical value and are exact at any size.',
  ['inputs', 'histories'], 'All finite multisets with elements of every kind and any multiplicities, in every construction order and query state.',
  'Tests check single examples; multiplicities must be right for all operand pairs, including absent, equal and very large ones.',
  [L + 'algebras/multisets.py', L + 'mathobjects/multiset.py'],
  [('multiset operations on Counters', 'algebraixlib/algebras/multisets.py'), ('Multiset construction', 'algebraixlib/mathobjects/multiset.py:Multiset.__init__')],
  ['results of the public functions of algebras.multisets'],
  'All pairs of bounded multisets (multiplicities 1-4), sets of multisets for the big operators, histories, multiplicities up to 10**6.')

P('C06', 'The multiclan algebra (tables with duplicate rows) is exact',
  'Transposition, composition, the cross operations, sub- and superstriction, projection, left and right sets, the rights '
  'of a left and the rows defined at a left, applied to multiclans (multisets of relations), give exactly the rows and '
  'multiplicities of the definition: multiplicities of combined rows multiply and those of coinciding results add up. The '
  'result is the same for every construction order, query history and size.',
  ['inputs', 'histories'], 'All finite multiclans and arguments, in every construction order and query state.',
  'Tests use small fixed multiclans; bag semantics must hold for all multiplicities and coinciding rows.',
  [L + 'algebras/multiclans.py', L + 'extension.py', L + 'mathobjects/multiset.py'],
  [('multi-extension', 'algebraixlib/extension.py:binary_multi_extend, unary_multi_extend'), ('multiclan operations', 'algebraixlib/algebras/multiclans.py')],
  ['results of the public functions of algebras.multiclans'],
  'All pairs of multiclans with at most two representative relations and multiplicities 1-2 (thorough 1-3), histories, tables up to 300 rows.')

P('C07', 'Whatever a value records about its own properties is true, in every history',
  'Every property a value has on record (being a relation, clan, multiclan, absolute, functional, right-functional, '
  'reflexive, symmetric, transitive, regular, right-regular, or not) is true of that value, no matter which '
  'operations and queries produced it and its operands, in which order. A recorded property never changes afterwards.',
  ['histories', 'inputs'], 'All histories of operations, constructions and queries over all values.',
  'A record is only wrong after particular combinations of operands, their own records and an operation; tests check records of single results.',
  [L + 'mathobjects/_flags.py', L + 'cache_status.py', L + 'mathobjects/set.py', L + 'mathobjects/multiset.py', L + 'mathobjects/couplet.py',
   L + 'mathobjects/mathobject.py', L + 'algebras/sets.py', L + 'algebras/relations.py', L + 'algebras/clans.py', L + 'algebras/multisets.py',
   L + 'algebras/multiclans.py', L + 'algebras/couplets.py', L + 'algebras/properties.py', L + 'extension.py', L + 'partition.py'],
  [('write-once property cache', 'algebraixlib/mathobjects/mathobject.py:cache_*'), ('propagation of properties by operations', 'algebraixlib/algebras/*.py')],
  ['cached_* attributes of every value reachable from a result'],
  'Explicit-state search over cache states: every operation on operands in every reachable cache state, and all depth-2 operation histories.',
  technique='explicit-state model checking of the property-cache state machine on the real code (breadth-first over cache states and operation histories)',
  state=[('property cache', 'per value: unknown / is / is not / not applicable for 11 properties', 'algebraixlib/mathobjects/_flags.py')])

P('C08', 'Membership and property queries answer by definition, in every history',
  'Asking whether a value is a relation, clan, multiclan, set, multiset or couplet (absolute or not), or whether it is '
  'functional, right-functional, bijective, reflexive, symmetric, transitive, an equivalence relation, regular or '
  'right-regular, gives the answer of the mathematical definition. The answer is the same through every entry point, at '
  'the first and every later time, and whatever other questions or operations came before.',
  ['histories', 'inputs'], 'All values, all sequences of queries, all operations whose results are then queried.',
  'Answers are remembered and derived from one another; tests ask one or two questions of fresh values, while the answers must agree in every order of asking.',
  [L + 'algebras/properties.py', L + 'algebras/relations.py', L + 'algebras/clans.py', L + 'algebras/multiclans.py', L + 'algebras/sets.py',
   L + 'algebras/multisets.py', L + 'algebras/couplets.py', L + 'mathobjects/mathobject.py'],
  [('property queries with cache', 'algebraixlib/algebras/properties.py'), ('membership tests', 'algebraixlib/algebras/*.py:is_member, is_absolute_member')],
  ['return values of the query functions'],
  'All sequences of the 40 queries up to the fixpoint of the cache state for ~150 values, all 512 relations over three atoms, all clans with at most three relations.',
  technique='explicit-state breadth-first search over query sequences to the fixpoint of the cache state, on the real code')

P('C09', 'Values never change',
  'No operation, query, conversion, printing or export changes any operand, any part of one, or any earlier result: a '
  'value stays equal to itself as built, with the same hash and the same elements and multiplicities. Changing a '
  'container that was passed to a constructor does not change a value, copies are equal and independent of what is done with the original, and '
  'repeating an operation on the same operands gives an equal result. (The counter that Multiset.data hands out is documented as not to be changed.)',
  ['histories', 'inputs'], 'All histories of uses of shared values, all containers handed in or out.',
  'Mutation shows only when a value is used again after another use that shares its data; tests build fresh values for each assertion.',
  [L + 'mathobjects/set.py', L + 'mathobjects/multiset.py', L + 'mathobjects/couplet.py', L + 'mathobjects/atom.py', L + 'algebras/multisets.py',
   L + 'algebras/sets.py', L + 'partition.py', L + 'extension.py'],
  [('copying on construction and frozen data', 'algebraixlib/mathobjects/set.py, multiset.py')],
  ['value, hash and parts of all live objects after every step'],
  'All pairs of ~150 uses on shared values and all depth-2 operation histories with every live object compared with its snapshot after every step.',
  technique='explicit-state exploration of use histories over shared objects on the real code, with snapshots as the model state')

P('C10', 'Undef: exactly outside the domain, propagates, obeys the raise level',
  'At the default setting an operation given undef, a value of the wrong kind, or arguments for which its definition has no '
  'result returns the one undef object and raises nothing; it never returns undef inside a collection, and extensions drop undefined '
  'elementwise results. Raising the raise level to 1 makes wrong-kind arguments raise the undef exception, 2 also makes undef '
  'arguments and results that are undefined on purpose raise it, resetting restores the default, and no call changes the level. Undef '
  'cannot be compared with == or != or used as a truth value: that raises a type error.',
  ['inputs', 'histories', 'configurations'], 'All operations, all argument positions, all values outside the domain, all raise levels and level-control histories.',
  'Tests assert undef for a few wrong arguments at one level; the contract covers each argument position of each operation at each level, and sequences of level changes.',
  [L + 'undef.py', L + 'algebras/sets.py', L + 'algebras/relations.py', L + 'algebras/clans.py', L + 'algebras/multisets.py', L + 'algebras/multiclans.py',
   L + 'algebras/couplets.py', L + 'algebras/properties.py', L + 'extension.py'],
  [('undef creation and raise level', 'algebraixlib/undef.py:make_or_raise_undef, make_or_raise_undef2, RaiseOnUndef'), ('argument checks', 'algebraixlib/algebras/*.py')],
  ['return value or exception of every public operation'],
  'Every operation, argument position, wrong value and level; level control explored as a state machine over all histories of length four.')

P('C11', 'Structures are ordered soundly; ground sets decide membership in algebras',
  'The subset relation between structures (the carrier sets of the algebras: empty, A, M, products, power sets, unions) is a partial order '
  'agreeing with equality and hash; unions of structures are their least upper bound whatever the order, nesting and repetition of parts; '
  'products and power sets are monotone. The ground set of a value is the least structure the value is an element of, the same however the '
  'value was built, and it decides membership in the ground sets of the algebras (couplets, relations, clans, sets, multisets, multiclans).',
  ['inputs', 'histories'], 'All structures over the constructors, all triples of them, all values and their ground sets.',
  'Order laws, least upper bounds and membership hold or fail on pairs and triples of structures; tests compare a few constants.',
  [L + 'structure.py', L + 'mathobjects/atom.py', L + 'mathobjects/couplet.py', L + 'mathobjects/set.py', L + 'mathobjects/multiset.py',
   L + 'algebras/couplets.py', L + 'algebras/relations.py', L + 'algebras/clans.py', L + 'algebras/sets.py', L + 'algebras/multisets.py', L + 'algebras/multiclans.py'],
  [('subset tests and union normal form', 'algebraixlib/structure.py'), ('get_ground_set of values', 'algebraixlib/mathobjects/*.py:get_ground_set')],
  ['is_subset, ==, hash, get_union of structures; get_ground_set(); get_ground_set/get_absolute_ground_set of the algebras'],
  'All pairs and triples of 264 structures, all union sequences of at most five parts in every order, ~330 values of all kinds.')

P('C12', 'Partitions group exactly by the class function',
  'Partitioning a set or multiset by a class function gives exactly the non-empty classes: every element, with its full multiplicity, is in the '
  'one class of its function value and no other; function values that are different mathematical values give different classes, also if the Python '
  'values collide (1, True, 1.0). The labeled partition maps every function value to its class, and properties recorded on the classes are true.',
  ['inputs', 'histories'], 'All class functions on all finite sets and multisets, in every construction order and query state.',
  'Tests partition three fixed sets; the definition must hold for every class function and every element kind.',
  [L + 'partition.py'],
  [('partition, make_labeled_partition', 'algebraixlib/partition.py')],
  ['results of partition.partition and partition.make_labeled_partition'],
  'All functions into three (thorough four) labels of five label alphabets on all sets and multisets with at most four (five) elements.')

P('C13', 'Extending an operation to a higher level is elementwise',
  'Extending a unary or binary operation to sets applies it to every element (every pair of elements), collects the defined results once and drops undef; '
  'extending to multisets gives every result the sum of the multiplicities (products of multiplicities) of the elements (pairs) that give it. This holds '
  'for every operation, operand, construction order, checked and unchecked, including when both operands are one object.',
  ['inputs', 'histories'], 'All element operations on all finite sets and multisets of all element kinds.',
  'Tests extend two library operations; the definition quantifies over operations, including partial, constant and non-commutative ones.',
  [L + 'extension.py'],
  [('binary_extend, binary_multi_extend, unary_extend, unary_multi_extend', 'algebraixlib/extension.py')],
  ['results of the functions of extension'],
  'All unary functions on at most three elements and all binary operation tables on operands of two elements; all pairs of representative clans with library operations.')

P('C14', 'Ordering, offset and limit select exactly the right rows',
  'Slicing a multiclan by a sort order, an offset and a limit returns exactly the rows at the positions [offset, offset + limit) of the sorted table, '
  'counting duplicate rows with their multiplicity: rows before and after the window never appear, rows that tie may be taken in any order, '
  'consecutive pages are disjoint and cover the table, offsets past the end and limit zero give nothing, and no offset or limit gives everything. '
  'Generating lists from a multiclan gives the same rows in sorted order.',
  ['inputs', 'histories'], 'All multiclans, all sort orders with ties, all offsets and limits as plain numbers or atoms.',
  'Tests slice one table at a few positions; boundaries fall inside rows with multiplicities, at ties and beyond the end.',
  [L + 'algebras/multiclans.py'],
  [('order_slice and order_slice_generator, multiclan_to_listgen', 'algebraixlib/algebras/multiclans.py')],
  ['result of multiclans.order_slice, rows of multiclan_to_listgen'],
  'All multiclans with at most three of four rows and multiplicities up to three, all weak orders, all offsets and limits, all consecutive pages.')

P('C15', 'CSV export and import preserve the table',
  'Exporting a clan or multiclan as CSV writes one line per row (duplicates repeated) under the requested columns in the requested order, and importing the text again restores the '
  'same table for every string content (separators, quotes, line breaks, non-ASCII, missing cells); importing reads exactly the described rows, '
  'with the given type conversions, duplicate handling, column names and index column, and the properties recorded on '
  'the imported table are true. An import does not influence other imports; unsupported input gives undef or an empty table, not a wrong one.',
  ['inputs', 'configurations'], 'All tables of strings, column names and orders, all combinations of import options.',
  'Tests use friendly strings; quoting, line breaks, missing cells and duplicate rows break in combinations of content, columns and options.',
  [L + 'import_export/csv.py'],
  [('export_csv', 'algebraixlib/import_export/csv.py:export_csv'), ('import_csv', 'algebraixlib/import_export/csv.py:import_csv')],
  ['text written by export_csv, clan or multiclan returned by import_csv'],
  'All tables with at most two rows and columns over 26 awkward strings, all tables with at most three of nine rows, all import option combinations.')

P('C16', 'The JSON encoding of mathematical objects is lossless',
  'Encoding any value (or a list or dictionary of values) as JSON text and decoding it gives an equal value of the same kinds, multiplicities and '
  'Python types of all atoms (text, bytes, integers of any size, floats, booleans, none, complex numbers, ranges, nested tuples), '
  'for strings that look like the encoding\'s own markers too; encoding a value does not depend on what was encoded before.',
  ['inputs'], 'All values of all kinds and nesting with atoms of all supported types.',
  'Tests round-trip a few examples; losslessness must hold for every atom type at every position.',
  [L + 'import_export/mojson.py'],
  [('encoder and decoder', 'algebraixlib/import_export/mojson.py')],
  ['json.loads(json.dumps(value, cls=MojsonEncoder), object_hook)'],
  'All atoms of 49 values in nine positions, all pairs, ~330 structured values, all sets and multisets with at most three (thorough four) elements.')

P('C17', 'JSON and XML import give exactly the relations of the document',
  'Importing a JSON document turns objects into relations from keys to values, arrays of values into several couplets with the same left, and '
  'nested objects into nested relations, without loss or invention; importing an XML document maps elements, attributes and text to relations the '
  'same way (with numbers converted only if asked), however the document is spelled (white space, comments, CDATA, entities, empty-element tags, encoding). '
  'The formatted text of a document (xml_to_str) describes the same relations as the document.',
  ['inputs', 'configurations'], 'All documents of the supported shape, all spellings, text and file input.',
  'Tests import three sample documents; the mapping must hold for each shape, value type and equivalent spelling.',
  [L + 'import_export/json.py', L + 'import_export/xml.py'],
  [('import_json', 'algebraixlib/import_export/json.py'), ('import_xml', 'algebraixlib/import_export/xml.py')],
  ['relation returned by import_json and import_xml'],
  'All small JSON objects and arrays over nine scalars, all XML elements with at most two (thorough three) children out of 60 in seven spellings.')

P('C18', 'RDF matching, projection and joins return exactly the solutions',
  'Matching a graph with a triple pattern (each position ignored, a value or a variable) returns exactly the bindings of the variables '
  'in the matching triples; matching and projecting a table returns exactly the projected rows that contain the pattern, under the new names; '
  'joining solutions returns exactly the unions of compatible rows, for two or more operands, as a basic graph pattern is evaluated by definition. '
  'A value is recognised as triple or graph (absolute or not) exactly if it is one. Nothing depends on query history, build order or size.',
  ['inputs', 'histories'], 'All graphs, tables, patterns, projections and sequences of solutions.',
  'Tests match one sample graph; selection, projection and joins must be right for all combinations of positions, values and variables.',
  [L + 'util/rdf.py', L + 'algebras/clans.py'],
  [('triple_match, match_and_project, pattern_match, join', 'algebraixlib/util/rdf.py'), ('is_triple, is_graph, make_triple', 'algebraixlib/util/rdf.py')],
  ['results of the functions of util.rdf'],
  'All graphs with at most three (thorough four) of 12 triples against all 216 argument combinations, all small tables, patterns and projections, all joins of three of 20 tables.')

P('C19', 'RDF import and result-table export carry over exactly the data',
  'Importing an RDF document gives exactly the set of its triples, however it is written (format, abbreviations, order, repetition, text or bytes, '
  'file object or path, given or guessed format): resources as URI atoms, literals as Python values of their datatype, one URI per blank node that is the same '
  'throughout the document and differs from those of other imports. Exporting a table as CSV or SPARQL JSON writes a readable document with '
  'the requested columns in sorted order and one row per relation with exactly its cells, values, types and datatypes; missing cells stay missing.',
  ['inputs', 'configurations'], 'All RDF documents and their spellings, all tables, column sets and cell contents.',
  'Tests import one document and export two tables; separators, quotes, missing cells, blank nodes and datatypes break in combinations.',
  [L + 'import_export/rdf.py', L + 'util/rdf.py', L + 'util/miscellaneous.py'],
  [('import_graph', 'algebraixlib/import_export/rdf.py:import_graph'), ('export_table', 'algebraixlib/import_export/rdf.py:export_table, _ExportTable')],
  ['clan returned by import_graph, text written by export_table'],
  'All graphs with at most two (thorough three) of 38 triples in up to eight spellings and seven routes; all tables with at most two of 40 rows over all column sets; all pairs of 26 cell values.')

P('C20', 'Index and call notation, left/right sets and elements answer by definition',
  'value[left] is the set (for multi-relations and multiclans: the multiset, with added multiplicities) of all rights of that left in a relation or clan, '
  'value(left) the one right of a function or undefined, the left and right sets are exactly the sets of lefts and rights, and the access to the elements of a '
  'set or multiset (iteration, length, containment, multiplicity) agrees with its value. The answers do not depend on which accesses were made before on the '
  'same object, on whether the left is given as Python value or as object, on properties asked before, on how the value was built, or on its size.',
  ['inputs', 'histories'], 'All values, all lefts, all sequences of accesses and queries on one object.',
  'The accessors replace themselves on first use, per object; tests use each of them once or twice on a few values.',
  [L + 'mathobjects/set.py', L + 'mathobjects/multiset.py', L + 'mathobjects/couplet.py'],
  [('self-replacing _call and _getitem', 'algebraixlib/mathobjects/set.py:_call, _getitem'), ('multiset indexing', 'algebraixlib/mathobjects/multiset.py:_getitem'),
   ('left and right sets', 'algebraixlib/mathobjects/set.py:get_left_set')],
  ['results of obj[left], obj(left), get_left_set, get_right_set, iteration'],
  'All sequences of at most two (thorough three) of 16 accesses followed by all 16, on 724 values in three preparations, all 512 relations over three atoms.',
  state=[('_call_redirect/_getitem_redirect', 'which accessor the object has settled on', 'algebraixlib/mathobjects/set.py')])

P('C21', 'Text forms are determined by the value and show it completely',
  'repr of a value evaluates back to an equal value; str, the LaTeX form and the HTML page show exactly the value, with its elements in sort order, properly nested and '
  'escaped, and are the same for equal values however they were built; the short LaTeX form only cuts long atoms and long sets and says how many elements it left out; the '
  'indented text (mo_to_str) shows every part of the value, as often as it occurs. Nothing printed before changes what is printed later.',
  ['inputs', 'histories'], 'All values with printable atoms, in all build orders and query states.',
  'Tests compare a few texts; that the form is unambiguous, canonical and escaped is a statement about all values.',
  [L + 'mathobjects/set.py', L + 'mathobjects/multiset.py', L + 'mathobjects/couplet.py', L + 'mathobjects/atom.py', L + 'util/latexprinter.py', L + 'util/html.py', L + 'util/_html_templates.py', L + 'util/mathobjectprinter.py'],
  [('__repr__ and __str__', 'algebraixlib/mathobjects'), ('math_object_to_latex', 'algebraixlib/util/latexprinter.py'), ('math_object_as_html, create_simple_web_page', 'algebraixlib/util/html.py')],
  ['repr(), str(), math_object_to_latex(), HTML pages'],
  'Forms are parsed back by an independent reader: 620 values in three preparations and orders, all pairs of 24 awkward atoms in eight positions, all sets of at most six (thorough seven) mixed elements, all lists of at most three page sections.')

P('C22', 'Values and the library can be used by several threads and iterators at once',
  'Mathematical objects are immutable values: when two threads use the same objects, or the library for unrelated work, at the same time, each operation returns exactly what it returns '
  'when nothing else runs, none of them fails, the values stay what they are, and no wrong property is remembered, wherever the threads are switched, from the first use of the freshly loaded '
  'library on. Iterators over the same or different values can be advanced in any interleaving, with other operations between their steps.',
  ['schedules', 'histories'], 'All interleavings of the operations of two threads, from the first use of the library on; all interleavings of iterator steps.',
  'Tests run in one thread; the caches of properties, left sets, accessors and on-demand modules are filled during apparently read-only operations, and a race shows at single switching points only.',
  [L + 'mathobjects/_flags.py', L + 'mathobjects/set.py', L + 'mathobjects/multiset.py', L + 'undef.py', L + 'algebras/clans.py', L + 'algebras/relations.py', L + 'algebras/multiclans.py', L + 'import_export'],
  [('property cache: test, compute, store', 'algebraixlib/mathobjects/mathobject.py:cache_*'), ('on-demand algebra modules', 'algebraixlib/mathobjects/set.py:_relations'),
   ('Undef singleton', 'algebraixlib/undef.py:Undef.__new__')],
  ['result of every operation in every thread, and the flags and values afterwards'],
  'Two real threads under a controlled scheduler that switches at any access to possibly shared state: all schedules with one preemption for all pairs of core operations and all other operations, '
  'two and three preemptions for the short ones; all interleavings of two iterators.',
  technique='systematic schedule exploration (preemption-bounded, exhaustive) of the real code under a controlled scheduler',
  state=[('_flags', 'cached properties of a value', 'algebraixlib/mathobjects/_flags.py'), ('_left_set, _right_set, redirects', 'cached accessors', 'algebraixlib/mathobjects/set.py')])

NOT_APPLICABLE = []
NOTES = ('Every check runs the real code of /repo on complete enumerations (bounds in evidence/<id>.json) and compares every step with a '
         'reference model; see DESIGN.md. run.sh <id> --replay FILE re-runs one violation.')
