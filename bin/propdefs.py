NA = {}
L += [
P('R01', 'Validation decides exactly the language of the grammar',
  'Parsing a relapse grammar text, preparing it and validating a tree returns true if and only if the tree belongs to the language that the grammar denotes (concatenation, alternation, intersection, complement, repetition, interleaving, contains, name expressions, conditions and references as documented). When no condition of the grammar fails on a label of the tree, the answer is exactly that verdict; when one fails the answer may be an error, but never a panic.',
  ['programs', 'inputs'], 'all relapse grammars without left recursion, all trees with typed labels',
  'The test suite runs a few dozen hand written grammars on a few hand written inputs; the property quantifies over every grammar and every tree.',
  ['relapse/relapse.go', 'relapse/mem', 'relapse/intern', 'relapse/parser', 'relapse/ast'],
  [('derivatives of the main pattern by the calls and returns of the parser', 'relapse/mem/mem.go, relapse/intern'), ('grammar text to pattern', 'relapse/parser')],
  ['relapse.Parse', 'relapse.Prepare', 'relapse.Validate'],
  note='Denotational meaning of grammars in Relapse.tla; verdicts of the real engine on generated grammars and trees.'),
P('R02', 'All engines agree with the meaning of the grammar',
  'The interpreter, the interning interpreter, the memoizing engine and the compiled automaton give, for the same grammar and the same tree, the same verdict: the one the grammar denotes. This holds when the engines share one parsed grammar.',
  ['programs', 'inputs', 'configurations'], 'all grammars, all trees, all four engines (the automaton where compiling it is feasible)',
  'Engines are only compared on the hand written suite; simplification, zipping, interning and automaton pruning bugs need particular combinations of patterns.',
  ['relapse/interp', 'relapse/intern', 'relapse/mem', 'relapse/auto', 'relapse/sets'],
  [('derivative interpreter and simplification', 'relapse/interp'), ('interned patterns', 'relapse/intern'), ('memoization', 'relapse/mem'), ('subset construction over calls and returns, conditions compiled to nested ifs', 'relapse/auto')],
  ['interp.Interpret', 'intern.Interpret', 'mem.New/Validate', 'auto.Compile/Validate']),
P('R03', 'A prepared grammar has no memory of earlier validations',
  'Validating a tree with a prepared grammar gives the verdict for that tree whatever was validated with it before, including validations that ended with a read error, validations of the same tree, and other prepared grammars made from the same parsed grammar. Preparing and validating do not change the parsed grammar.',
  ['histories', 'inputs', 'fault_sequences'], 'all sequences of validations with one prepared grammar, with reader failures at any call',
  'Memo tables are only wrong after particular histories; the tests validate each grammar a handful of times.',
  ['relapse/mem/mem.go', 'relapse/intern'],
  [('memo tables keyed by interned states', 'relapse/mem/mem.go')], ['relapse.Validate'],
  [('memo tables', 'call, return and state tables that grow during validation', 'relapse/mem/mem.go')]),
P('R04', 'Optimizing for records keeps the verdict on records',
  'When every tree is a record (no two siblings with the same label), the engines that are optimized for records give the verdict that the grammar denotes.',
  ['programs', 'inputs', 'configurations'], 'all grammars, all trees whose siblings have distinct labels, all record optimized engines',
  'The optimization rewrites interleaves and contains under side conditions; tests only use grammars where these obviously apply.',
  ['relapse/interp/simplify.go', 'relapse/intern', 'relapse/mem', 'relapse/auto'],
  [('OptimizeForRecord', 'relapse/interp/simplify.go, relapse/intern')], ['interp.NewSimplifier(g).OptimizeForRecord()', 'mem.NewRecord', 'auto.CompileRecord']),
P('R05', 'Simplifying a grammar keeps its language',
  'The grammar that the simplifier makes of a grammar has the same language: it accepts exactly the same trees (the same records when it may assume records).',
  ['programs', 'inputs'], 'all grammars; all trees, with every small forest over the labels of a case enumerated',
  'Unit tests check a list of rewrites on one pattern each, not that the combination of rewrites is sound on every pattern.',
  ['relapse/interp/simplify.go'], [('rewrite rules of the simplifier', 'relapse/interp/simplify.go')], ['interp.NewSimplifier(g).Grammar()']),
P('R06', 'Interned pattern construction denotes the operator it is named after',
  'A pattern made with the interning constructor (or, and, concat, interleave, not, zero or more, from text) denotes the operator applied to what its arguments denote, and its nullability is whether it matches the empty forest. Constructing or deriving a pattern never changes the meaning of any pattern made before with the same constructor.',
  ['histories', 'programs', 'inputs'], 'all sequences of constructor calls on shared patterns',
  'Sharing bugs need a pattern to be used again after another construction reused its storage.',
  ['relapse/intern'], [('hash consing, flattening, sorting and merging of operands', 'relapse/intern')], ['intern.NewConstructor and its methods', 'Nullable', 'DeriveCalls/DeriveReturns']),
P('R07', 'Engines follow the parser protocol and return read errors',
  'While validating, every engine calls the parser only as the parser interface permits: values only at a node, down only at an inner node, up only below the root, next not after the end. A read error ends the validation and is returned, and a verdict is returned with the cursor back at the root.',
  ['histories', 'fault_sequences', 'programs'], 'all grammars, all trees, all engines, a read error at any Next call',
  'The test parsers tolerate illegal calls, and no test makes a reader fail part way.',
  ['relapse/interp', 'relapse/intern', 'relapse/mem', 'relapse/auto', 'parser/parser.go'],
  [('the tree walk of each engine', 'relapse/mem/mem.go, relapse/interp/interp.go, relapse/auto/exec.go')], ['calls of parser.Interface'],
  note='A cursor automaton in ClientTrace.tla; every recorded call sequence has to be a behaviour of it.'),
P('R08', 'Left recursion, nullability and undefined references are reported exactly',
  'Recursion is reported for a grammar if and only if some pattern can reach itself through references without passing a tree node; nullability is reported if and only if the pattern matches the empty forest. A grammar that refers to an undefined pattern or has no main pattern is refused with an error by every engine.',
  ['programs'], 'all grammars with any reference graph',
  'Tests have a few reference graphs; false positives and negatives depend on sharing and the order of visits.',
  ['relapse/interp', 'relapse/ast', 'relapse/mem', 'relapse/auto'], [('HasRecursion, Nullable, reference lookup', 'relapse/interp, relapse/ast')], ['interp.HasRecursion', 'interp.Nullable', 'engines']),
P('F01', 'Functions evaluate to what they are documented to compute',
  'A function expression, made from text, from an ast or with the constructors, evaluates on a label to the value that the documented functions give (comparisons, regex, contains, prefix and suffix, case, length, elem, range, lists, type, logic), or to an error where the documentation says so. The result depends only on the label that was set last, and evaluation never panics.',
  ['programs', 'inputs', 'histories'], 'all well typed expressions of every type, all sequences of labels',
  'Each function is tested on one or two values; boundary indexes, nested lists, error operands and reuse of a function value are not.',
  ['relapse/funcs', 'relapse/compose'], [('generated function implementations', 'relapse/funcs'), ('composition and setters', 'relapse/compose')], ['compose.NewBool', 'funcs.GetMaker(...).New', 'Eval']),
P('F02', 'Logical functions are only simplified when the truth stays the same',
  'Nested and, or and not over comparisons of any types evaluate, after all simplification done while they are constructed, to the truth of the unsimplified expression on every label for which no operand fails.',
  ['programs', 'inputs'], 'all nestings of and, or, not over comparisons with variables of several types',
  'Simplification merges comparisons pairwise; only particular pairs, orders and values distinguish a sound rule from an unsound one.',
  ['relapse/funcs'], [('NewAnd, NewOr, Not, contradiction and equality pruning', 'relapse/funcs')], ['funcs.And/Or/Not', 'compose.NewBool']),
P('F03', 'Conditions are accepted exactly when they are well typed',
  'An expression is accepted as a condition if and only if it is well typed: every function exists for the types of its arguments, lists are homogeneous, the result is a bool, arguments that have to be constant are, and regular expressions compile. Everything else is refused with an error, from text, from an ast and with the maker of the function, never with a panic.',
  ['programs'], 'all expressions, well and ill typed, from text and from asts',
  'Tests try few ill typed expressions; the accepted signatures are a table per function times every combination of argument types.',
  ['relapse/compose', 'relapse/funcs', 'relapse/types'], [('type checking composition', 'relapse/compose/compose.go'), ('registry of function signatures', 'relapse/funcs/registry.go')],
  ['compose.NewBool', 'funcs.GetMaker', 'compose.Which', 'relapse.Parse and Prepare']),
P('F04', 'Functions have a total order that agrees with equality, hash and meaning',
  'Compare orders functions totally (reflexive, antisymmetric, transitive), Equal holds exactly when Compare gives 0, functions that are equal have the same hash and compute the same value on every label, and two functions made from the same expression are equal.',
  ['programs'], 'all triples of functions of any types, including ones with colliding hashes',
  'The tests compare a few pairs; the laws are about all triples, and hash collisions never occur by accident.',
  ['relapse/funcs'], [('Compare, Hash and Equal of every function', 'relapse/funcs/*.gen.go, const.go, logic.go, register.go')], ['Compare', 'Hash', 'funcs.Equal']),
P('F05', 'Printed functions evaluate like the function that was printed',
  'The printed form of a condition (String of a function, its Sprint shorthand, and String of its ast) parses, is well typed, and evaluates on every label like the condition that was printed, whichever constants of whichever type occur in it.',
  ['programs', 'inputs'], 'all well typed boolean expressions (after simplification), all labels',
  'Printing tests compare a few strings; quoting, number formats, nil and empty values and operator turning matter for particular values only.',
  ['relapse/funcs', 'relapse/ast/string.go'], [('String of functions and constants, Sprint', 'relapse/funcs/sprint.go, *.gen.go'), ('String of ast expressions', 'relapse/ast/string.go')],
  ['String', 'funcs.Sprint', 'relapse/parser.ParseExpr', 'Eval'],
  note='Known finding: Sprint does not turn the operator of a comparison of a constant with a variable around (expected by TestTrim).'),
P('F06', 'Functions see the current context of their own prepared grammar',
  'After SetContext on a prepared grammar, every context function in every condition of that grammar, wherever it is nested in patterns and expressions and also after simplification, merging and memoization, gives the current value of that context; changing the value of the context or setting another context takes effect for the next validation, and does not affect other prepared grammars, even ones made from the same parsed grammar.',
  ['histories', 'programs', 'inputs'], 'all grammars with context functions, all sequences of setting contexts, changing values and validating',
  'The only test sets a context once on a grammar with a single condition.',
  ['relapse/mem/mem.go', 'relapse/intern/context.go', 'relapse/compose/bool.go', 'relapse/funcs/context.go'],
  [('SetContext walks the interned patterns and the functions in their conditions', 'relapse/intern/context.go, relapse/compose/bool.go')], ['Mem.SetContext', 'Mem.Validate'],
  [('context', 'the context of a prepared grammar', 'relapse/intern/construct.go')],
  note='Operational specification: contexts, their values and which prepared grammar holds which context.'),
P('A01', 'Grammar texts parse to the tree that the syntax defines, or are refused',
  'A text is accepted as a grammar if and only if the documented syntax derives it, its syntax tree is the one that the syntax defines (every literal has the value it denotes, whatever notation it is written in), any other text is refused with an error and never with a panic, and printing the parsed grammar gives a text that has the same syntax tree and keeps all space and comments.',
  ['inputs', 'programs'], 'all token sequences, all literal notations, all placements of space and comments',
  'Tests parse a list of texts and check that they parse; what the tree is, the value of unusual literals, and that other texts are refused, is not checked.',
  ['relapse/parser', 'relapse/lexer', 'relapse/bnf', 'relapse/ast'], [('generated parser and lexer, semantic actions', 'relapse/parser, relapse/lexer, relapse/bnf'), ('literals, printing', 'relapse/ast/util.go, string.go')],
  ['relapse.Parse', 'relapse/parser.ParseGrammar', 'ast.Grammar.String']),
P('A02', 'Formatting a grammar keeps its meaning and its comments and is idempotent',
  'Formatting a parsed grammar never fails, leaves its syntax tree as it is, keeps every comment, in order and between the same two tokens, leaves at most one space or line break between two tokens without a comment, gives a text that parses, and formatting that text again changes nothing.',
  ['inputs'], 'all grammar texts with any placement of space, line breaks and comments',
  'Formatting tests compare a handful of outputs; whether comments survive and tokens stay apart depends on where they are.',
  ['relapse/ast/format.go', 'relapse/ast/comment.go'], [('formatting of space', 'relapse/ast/format.go')], ['ast.Grammar.Format', 'ast.Grammar.String']),
P('A03', 'Patterns are values: Equal, Compare, Hash, Clone and Walk agree with the tree',
  'Compare orders patterns totally, Equal holds exactly when Compare gives 0, equal patterns have the same hash and the same syntax tree, patterns parsed from the same text are equal and patterns with different syntax trees are not, a clone is equal to its original and prints like it, modifying a clone never changes the original, and Walk visits every node once, from the top down and from left to right.',
  ['programs'], 'all triples of patterns, in particular ones that differ in one place only',
  'The tests clone a few patterns; the generated comparison, hash and copy functions have a clause for every field of every kind of node.',
  ['relapse/ast'], [('derived comparison, hash, copy', 'relapse/ast/derived.gen.go, compare.go, clone.go'), ('walk', 'relapse/ast/walk.go')],
  ['ast.Pattern Compare, Equal, Hash, Clone, Walk', 'ast.Grammar Equal, Clone']),
P('A04', 'Combinators build the grammars that they are documented to build',
  'A grammar that is built with the combinators (In, InPath, InAny, InAnyExcept, InAnyOf, Elem, InOrder, InAnyOrder, AllOf, AnyOf, OppositeOf, Many, Maybe, None, Any, Eval, Value, and the functions and constants) accepts exactly the trees that the combinators describe, also after it has been printed and parsed again, and building never modifies the arguments, which can be used several times.',
  ['programs', 'inputs'], 'all nestings of combinators, all trees',
  'The tests print a few combinator calls; the meaning of a nesting, of constants on either side of a condition, and of shared arguments is not tested.',
  ['relapse/combinator', 'relapse/ast/new.go', 'relapse/ast/builtin.go'], [('combinators and functions', 'relapse/combinator'), ('constructors and printing', 'relapse/ast')],
  ['combinator.*', 'relapse.Prepare, Validate', 'ast.Grammar.String']),
P('P01', 'The JSON parser presents a document as its tree, however it is walked',
  'The JSON parser presents a JSON document as the tree that the document denotes: object keys are labels, array elements are labelled by their index, scalars are leaves, strings are unescaped, numbers are ints, uints or doubles as their notation says. Whatever order of Next, Down and Up is used, and wherever nodes are skipped, Next, IsLeaf and the accessors answer for the current node, Up returns to the parent from wherever its children were left, and Init and Reset start a new document without a trace of the previous one.',
  ['inputs', 'histories'], 'all JSON documents, all legal sequences of Next, Down, Up, IsLeaf, accessors, Init and Reset',
  'Tests walk a few documents fully or at random and compare walks of the parser with itself; skipping, reuse and unusual literals are barely sampled.',
  ['parser/json'], [('scanning, skipping, unescaping and number conversion', 'parser/json/json.go, unquote.go')], ['json.NewJsonParser', 'parser.Interface'],
  [('cursor', 'where the parser is in the tree of the document', 'parser/json/json.go')]),
P('P02', 'Malformed JSON is reported as an error and never as a panic or a wrong tree',
  'Walking a document that is not JSON (truncated, or with bytes removed, added or changed) gives an error at some point of a full walk, and up to that point the nodes of the well formed part; no call panics or fails to return. Allowed leniency, where a tree may be given instead: a comma before a closing bracket, text after the end, numbers without digits around the point or exponent, and bytes that are not UTF-8.',
  ['inputs', 'histories'], 'all truncations and byte edits of JSON documents, all legal sequences of calls',
  'Only well formed documents are tested, apart from a handful of scanning tests.',
  ['parser/json'], [('scanner and its error returns', 'parser/json/json.go')], ['json.NewJsonParser', 'parser.Interface']),
P('P03', 'The protobuf parser presents a message as its fields, however it is walked',
  'Given a description, the protobuf parser presents an encoded message as the sequence of its fields in wire order: a field is labelled with its name (or number), a repeated field groups adjacent elements labelled by index, packed elements are labelled by index, embedded messages are children, and every scalar type is decoded to the value that was encoded, for every schema and every order of walking and skipping, also after Init and Reset.',
  ['inputs', 'histories', 'programs'], 'all message descriptions and encoded messages, all legal sequences of Next, Down, Up, accessors, Init and Reset',
  'The tests use the descriptions of a handful of messages; packed, negative, extreme and nested fields in all positions are not covered.',
  ['parser/proto'], [('field and element iteration, decoding, skipping', 'parser/proto/*.go')], ['proto.NewProtoParser', 'proto.NewProtoNumParser', 'parser.Interface'],
  [('cursor', 'where the parser is in the message', 'parser/proto/proto.go')]),
P('P04', 'Damaged protobuf bytes give an error and never a panic, hang or invented value',
  'Walking bytes that are not an encoding of the described message (truncated, with edited lengths, tags or wire types) never panics and always returns: every call gives an answer or an error, and a value whose bytes lie outside the buffer or outside its message is an error.',
  ['inputs', 'histories'], 'all truncations and byte edits of encoded messages, all legal sequences of calls',
  'Only well formed messages are tested.',
  ['parser/proto'], [('lengths and varints', 'parser/proto/*.go')], ['proto.NewProtoParser', 'parser.Interface']),
P('P05', 'NoLatentAppendingOrMerging accepts exactly the messages with nothing to merge',
  'NoLatentAppendingOrMerging gives nil if and only if, at every level of the message, no singular field occurs more than once and the elements of a repeated field are adjacent; bytes that are not an encoding of the message give an error.',
  ['inputs', 'programs'], 'all message descriptions and encoded messages',
  'The tests try three messages of one type.',
  ['parser/proto'], [('check for latent appending or merging', 'parser/proto/nomerge.go')], ['proto.NoLatentAppendingOrMerging']),
P('P06', 'The reflect parser presents a Go value as its tree, however it is walked',
  'The reflect parser presents a struct as its fields, labelled by their names, in order, without the fields that are nil or empty, follows pointers, labels elements of slices by index, and gives every scalar of whatever kind and size its value, for every type of struct and every order of walking and skipping, also after Init and Reset.',
  ['inputs', 'histories', 'programs'], 'all struct types and values, all legal sequences of Next, Down, Up, accessors, Init and Reset',
  'The tests use two fixed types.',
  ['parser/reflect'], [('iteration over fields and elements', 'parser/reflect/reflect.go')], ['reflect.NewReflectParser', 'parser.Interface']),
P('P07', 'The XML parser presents a document as its tree, however it is walked',
  'The XML parser presents a well formed XML document as its tree: an element is a node with its local name, its attributes come first as nodes with a leaf that has the value, then its content in order, text in the pieces that tags, comments and CDATA sections divide it in, with references resolved; processing instructions, comments and the document type are left out; the configured prefixes precede the strings of elements, attributes and text; numbers and bools are read from the text without its prefix. This holds for every order of walking and skipping, also in the middle of attributes and after Init and Reset.',
  ['inputs', 'histories', 'configurations'], 'all well formed XML documents, all prefixes, all legal sequences of Next, Down, Up, IsLeaf, accessors, Init and Reset',
  'The tests log the walk of four documents without checking it, and none with skipping.',
  ['parser/xml'], [('walking elements and attributes', 'parser/xml/parser.go'), ('tokens', 'parser/xml/xml.go')], ['xml.NewXMLParser', 'parser.Interface'],
  [('cursor', 'where the parser is: in an element, its attributes or the value of an attribute', 'parser/xml/parser.go')],
  note='White space at the top level next to a comment or document type, and white space other than blanks in attributes, are not judged.'),
P('P08', 'Malformed XML never makes the parser panic; an unfinished document is an error',
  'Walking bytes that are not well formed XML never panics and always returns, in every order of walking and skipping; a document that ends too early gives an error at some point of a full walk instead of a tree. The parser is lenient about other mistakes.',
  ['inputs', 'histories'], 'all truncations and byte edits of XML documents, all legal sequences of calls',
  'Only well formed documents are tested.',
  ['parser/xml'], [('end of input, errors while skipping', 'parser/xml/xml.go, parser.go')], ['xml.NewXMLParser', 'parser.Interface']),
P('P09', 'The YAML parser presents the documents it supports as their tree',
  'For documents in the part of YAML that the parser is meant to read (block mappings with plain keys, block sequences with plain scalars or one key per element, plain scalars and keys without a value, indented with blanks or with tabs) the YAML parser presents the tree that the document denotes, with typed leaves, however it is walked and also after Init and Reset; for any other text every call returns, without a panic.',
  ['inputs', 'histories'], 'all documents in the supported part, all legal sequences of calls; arbitrary texts for the absence of panics',
  'The tests walk five documents and compare strings only.',
  ['parser/yaml'], [('lines, indentation, values', 'parser/yaml/yaml.go')], ['yaml.NewYamlParser', 'parser.Interface'],
  note='parser/yaml/issues.md lists what is not supported.'),
P('E01', 'The JSON encoder writes JSON that denotes what the parser presented',
  'For every parser, encode/json.Encode writes strict JSON that denotes the tree that the parser presents: nodes named by strings are the members of an object (the last one counts if several have the same name), nodes named by integers are the elements of an array in order, a leaf is its value (the first of int, uint, double, bool, string and bytes that the parser has; exactly for 64 bit integers, the nearest double, every character of a string, bytes in base 64), nothing is null. A read error, a name that is neither and a number that JSON does not have are returned as errors; no input makes it panic.',
  ['inputs', 'configurations'], 'all trees of all parsers, read errors at every position',
  'The tests transcode a few documents.',
  ['encode/json'], [('encoding levels and leaves', 'encode/json/json.go')], ['json.Encode'],
  note='Levels that mix names, indices and leaves, and strings that are not UTF-8, are not judged.'),
P('E02', 'The XML encoder writes XML that denotes what the parser presented',
  'For every parser whose names are XML names, encode/xml.Encode writes well formed XML content that denotes the tree that the parser presents: a named node is an element with its content in order, a leaf is the text of its value (the first of int, uint, double, bool, string and bytes that the parser has; bytes in base 64), with everything escaped that XML needs escaped. A read error and a missing name are returned as errors; no input makes it panic.',
  ['inputs', 'configurations'], 'all trees of all parsers, read errors at every position',
  'The tests transcode a few documents.',
  ['encode/xml'], [('encoding elements and text', 'encode/xml/xml.go')], ['xml.Encode'],
  note='Names and characters that XML does not have (also the indices of lists) are not judged.'),
P('E03', 'The protobuf encoder writes the message that the parser presented',
  'Given a description, encode/proto writes, for every parser, bytes that decode by that description to the fields that the parser presents and the description has, in order and with their values, for every scalar type, repeated field, embedded and recursive message, whatever the size and content of the buffer that it is given and whatever was encoded before. A field without a value is left out; a value of another type and a read error are returned as errors; no input makes it panic.',
  ['inputs', 'programs', 'histories'], 'all message descriptions, all trees, all buffers, read errors at every position',
  'The tests use two descriptions and a large buffer.',
  ['encode/proto'], [('field encoders, growth of the buffer', 'encode/proto/proto.go')], ['proto.NewEncoder', 'Encoder.Encode'],
  note='Packed fields, groups and extensions are not supported by the encoder and not judged, nor are numbers out of the range of the type.'),
P('E04', 'The reflect encoder sets a Go struct to what the parser presented',
  'encode/reflect.Encode sets, for every parser and every struct type, the fields that the parser presents to their values: embedded structs, slices, pointers and scalars of whatever kind and size; what the struct does not have is skipped, what is not presented stays zero, and a leaf without a value is nil or zero. A value of another type or out of range and a read error are returned as errors; no input makes it panic.',
  ['inputs', 'programs'], 'all struct types, all trees, read errors at every position',
  'The tests use four struct types.',
  ['encode/reflect'], [('setting fields and elements', 'encode/reflect/reflect.go')], ['reflect.Encode']),
P('R09', 'Validating a document gives the verdict of its bytes, in every format',
  'For every relapse grammar and every JSON, XML, YAML and protobuf document and every Go value, Validate over the parser of the format answers whether the tree that the bytes denote is in the language of the grammar, and so do the other engines; one prepared grammar and one parser, initialized again and again, serve any sequence of documents. A malformed document never makes an engine panic.',
  ['inputs', 'programs', 'histories'], 'all grammars, all documents of the supported formats, all sequences of documents through one parser and one prepared grammar',
  'The test suites have a fixed list of grammars and documents, one at a time.',
  ['parser/json', 'parser/xml', 'parser/yaml', 'parser/proto', 'parser/reflect', 'relapse'], [('validation', 'relapse/relapse.go'), ('engine', 'relapse/mem/mem.go'), ('parsers', 'parser/json/json.go')], ['relapse.Validate', 'parser.Interface'],
  note='Documents that are not judged by P01, P03, P06, P07 and P09 are not judged here either.'),
P('N01', 'Name expressions mean the same as expressions, as functions and back',
  'A name expression (a constant of any type, any name, not, or) evaluates on every label to whether the label has that name: by EvalName, by the function that NameToFunc makes, and by the name expression that FuncToName makes of that function. FuncToName of any other function is an error or a name expression that means the same as the function. None of them panics.',
  ['programs', 'inputs'], 'all name expressions, all functions of bool, all typed labels',
  'The tests have a handful of names and only string labels.',
  ['relapse/name'], [('NameToFunc, FuncToName, EvalName', 'relapse/name/name.go')], ['name.EvalName', 'name.NameToFunc', 'name.FuncToName']),
P('D01', 'Debugging tools show a parser as it is and do not disturb it',
  'debug.Walk gives, for every parser, the complete tree of the texts of its values; debug.RandomWalk gives the part of it that its random choices select, with legal calls only; a parser wrapped by debug.NewLogger answers every legal sequence of calls, read errors included, exactly like the parser, calling it once per call, and logs each of them; parser.Sprint prints the value that there is.',
  ['inputs', 'schedules'], 'all trees, all choices, all legal sequences of calls, read errors at every position',
  'The tests walk one document per parser.',
  ['parser/debug', 'parser'], [('Walk, RandomWalk', 'parser/debug/walk.go'), ('logger', 'parser/debug/log.go'), ('Sprint', 'parser/parser.go')], ['debug.Walk', 'debug.RandomWalk', 'debug.NewLogger', 'parser.Sprint']),
P('S01', 'Sets of patterns, bits and indices keep what was put in them',
  'Zipping a list of patterns and unzipping it gives the list back, the zipped list has no duplicate and neither zero-or-more-of-anything nor its negation, whatever the hashes of the patterns, and bits of the zipped list unzip to the bits of the list. A number of bits of any size can be set, read, compared and counted up without changing the number that it was counted up from. The sets of the automata compiler give equal elements the same index and different elements different ones.',
  ['inputs', 'histories'], 'all lists of patterns, colliding hashes, all sizes of bit sets, all sequences of calls',
  'The tests zip two patterns and count up to ten bits.',
  ['relapse/sets'], [('zip', 'relapse/sets/zip.go'), ('bits', 'relapse/sets/bits.go'), ('index sets', 'relapse/sets/indexset.go')], ['sets.Zip', 'sets.Unzip', 'sets.UnzipBits', 'sets.Bits']),
P('A05', 'A grammar that is stored and loaded is the same grammar',
  'Every part of a grammar (the messages of relapse.proto) can be stored as protobuf bytes by Marshal and MarshalTo, in the number of bytes that Size says, and these bytes decode by relapse.proto to the same message. Unmarshal reads any bytes that are an encoding of a message, with fields in any order, repeated or unknown, into that message, added to what it had, and keeps no hold on the bytes; it refuses bytes that end too early or are malformed and never panics.',
  ['inputs', 'histories'], 'all messages of all types of the syntax tree, all encodings of them, all truncations and edits, all sequences of storing, loading and merging',
  'No test stores a grammar.',
  ['relapse/ast'], [('Marshal, Unmarshal, Size', 'relapse/ast/relapse.pb.go'), ('schema', 'relapse/ast/relapse.proto')], ['ast.Grammar', 'ast.Pattern', 'ast.Expr'],
  note='Groups, fields with the number 0, other wire types than the schema says and keys of more than 32 bits may be read or refused.'),
P('F07', 'Functions that a program registers work like the built-in ones',
  'A function that is registered by its constructor (any parameter and result types, also under the name of another function with other parameters, the first one registered counts) can be used in expressions and grammars everywhere a value of its type can: the expression is accepted exactly when it is well typed and no constructor returns an error, which is then the error of the composition, and it evaluates to what the function says, with the values of the current label, in every engine. What is not a constructor of a function is refused with a panic and not known afterwards.',
  ['programs', 'inputs', 'configurations'], 'all registered functions of up to three parameters of any types, all expressions that mix them with the built-in functions, all labels',
  'The tests register no function of their own besides the context functions.',
  ['relapse/funcs', 'relapse/compose'], [('Register, GetMaker, Maker', 'relapse/funcs/register.go'), ('NewBool and so on', 'relapse/funcs/newfunc.gen.go'), ('composition', 'relapse/compose/compose.go')], ['funcs.Register', 'funcs.GetMaker', 'compose.NewBool'],
  note='Whether a parameter that has to be a constant may be an expression without variables is not judged.'),
P('A06', 'The comments of a grammar can be found in its syntax tree',
  'The syntax tree of a grammar holds exactly the white space and comments that are between the tokens of its text, piece by piece, and every such white space gives its comments, their content without the markers, and the comment that is attached to what follows it (the last one, when nothing with a line break comes between).',
  ['programs', 'inputs'], 'all grammar texts with any comments and white space between any tokens',
  'The tests of comments are about formatting a few grammars; GetComments, GetContent and GetAttachedComment have none.',
  ['relapse/ast', 'relapse/bnf'], [('comments', 'relapse/ast/comment.go'), ('white space of the syntax tree', 'relapse/ast/util.go')], ['ast.Space', 'ast.Comment'],
  note='Whether a block comment is attached when white space with a line break follows it is not judged.'),
P('A07', 'Every text is divided into the tokens of the lexical grammar, or refused',
  'The lexer divides any text into the longest tokens that the lexical grammar allows (or reports that there is none), in order and without gaps, each with its place (offset, line, column). Any text, whatever its bytes, is parsed to the syntax tree that its tokens have or refused with an error, never a panic; printing the tree gives text with the same tokens, apart from the spelling of literals and names, that parses to the same tree.',
  ['inputs'], 'all texts: any sequence of bytes, grammars with any literals, spacing and damage',
  'The tests parse well formed grammars; tables of the lexer have 277 states, most of which need particular literals or damage to be reached.',
  ['relapse/lexer', 'relapse/parser', 'relapse/ast/util.go'], [('tables of the lexer', 'relapse/lexer/transitiontable.go'), ('literals', 'relapse/ast/util.go')], ['lexer.NewLexer(text).Scan', 'parser.ParseGrammar', 'Grammar.String'],
  note='When a text begins like a longer token that does not come, the lexer may find the shorter token or none. Texts that are not UTF-8 and doubles written as hexadecimal or octal ints may be refused.'),
]
