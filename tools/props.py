#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from the table below."""
import json, os, subprocess, sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = []


def P(id, title, statement, over, quant, why, files, mech, observe=None, technique="", note="", state=None):
    props.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files,
                      mech=mech, observe=observe, technique=technique, note=note, state=state))


P("P01", "A verdict is the meaning of the grammar",
  "For every grammar without immediate recursion and every document, preparing the grammar and validating the document gives true exactly when the document is in the language that the grammar denotes: sequences, interleavings, choices, conjunctions, complements, repetitions, optional and contained patterns, references, name expressions and value expressions each mean what the language documentation says. A grammar without a start pattern or with an undefined reference is refused with an error.",
  ["inputs", "programs"], "every grammar text and every document tree, through any parser",
  "The test suite has a few hundred hand written pairs of a grammar and a document; the verdict has to be right for every combination of operators, which the simplifier, the memo tables and the derivatives each treat by special cases.",
  ["relapse/relapse.go", "relapse/mem/*.go", "relapse/intern/*.go", "relapse/funcs/logic.go", "relapse/compose/*.go"],
  [("derivatives of interned patterns", "relapse/intern/deriv.go"), ("smart constructors", "relapse/intern/construct.go"), ("memo tables", "relapse/mem/mem.go"), ("condition trees", "relapse/mem/ifs.go")],
  "the boolean result of validation",
  "runtime monitoring: differential oracle (reference matcher)",
  "Every verdict of the real Prepare/Validate on generated grammar/document pairs is compared with an independent set-theoretic matcher that uses neither derivatives nor simplification. Bounded by grammar size about 24 nodes and documents of depth 3; documents on which a value expression raises an error outside a comparison are not judged here.")

P("P02", "All validation strategies agree",
  "The plain interpreter, the interning interpreter, the memoizing validator and the compiled automaton give the same verdict for every grammar and document. On documents whose field names are unique within each parent, the variants that are optimized for records give that verdict too.",
  ["inputs", "programs"], "every grammar without immediate recursion for which an automaton can be built, every document",
  "Tests run the strategies on one shared suite of examples; a rewrite that one strategy applies and another does not shows only on grammars that combine the operators involved.",
  ["relapse/interp/*.go", "relapse/intern/*.go", "relapse/mem/*.go", "relapse/auto/*.go", "relapse/sets/*.go"],
  [("interpreter", "relapse/interp/deriv.go"), ("interning interpreter", "relapse/intern/deriv.go"), ("memoizer", "relapse/mem/deriv.go"), ("automaton compiler", "relapse/auto/compile.go")],
  "the verdicts of the strategies on the same document",
  "runtime monitoring: differential oracle between strategies",
  "Verdicts of up to seven strategies are compared on generated pairs; automata are built under a work budget (the hook), so grammars whose automaton explodes are compared without it.")

P("P03", "A validator's history does not influence its verdicts",
  "A prepared grammar or compiled automaton gives, for each document of any sequence of documents, the verdict that a freshly prepared one would give, also after documents that were malformed, that were rejected early or that ended in an error.",
  ["histories", "inputs"], "every sequence of validations with one validator",
  "The memo tables grow with the history, and the number of histories is unbounded; tests validate one or a few documents with each validator.",
  ["relapse/mem/mem.go", "relapse/mem/ifs.go", "relapse/mem/deriv.go", "relapse/intern/sets.go", "relapse/sets/*.go", "relapse/auto/auto.go"],
  [("lazy memo tables", "relapse/mem/mem.go"), ("lazily built condition trees", "relapse/mem/ifs.go"), ("interned sets", "relapse/intern/sets.go")],
  "the verdict of a used validator against that of a fresh one",
  "runtime monitoring: history oracle (used against fresh validator)",
  "Random histories (with repeats, injected faults and shuffled replays) through one validator; every verdict is compared with the one of a new validator and with the first verdict for that document.")

P("P04", "Simplification preserves the language",
  "Simplifying a grammar gives a grammar that accepts and rejects the same documents and that is not larger in kind: it can be simplified again, printed and parsed without changing its language. The patterns that the interning interpreter works with can be turned back into a grammar, which accepts those documents as well. The simplification for records preserves the language on documents whose field names are unique within each parent.",
  ["inputs", "programs"], "every grammar and document",
  "Tests check selected rewrite rules on selected patterns; unsound rules show only on particular combinations of operators.",
  ["relapse/interp/simplify.go", "relapse/interp/order.go", "relapse/interp/nullable.go", "relapse/intern/construct.go", "relapse/intern/pattern.go", "relapse/name/name.go"],
  [("rewrite rules", "relapse/interp/simplify.go"), ("ordering and deduplication", "relapse/interp/order.go"), ("simplifying constructors", "relapse/intern/construct.go"), ("turning patterns back", "relapse/intern/pattern.go")],
  "the language of the simplified grammar",
  "runtime monitoring: translation oracle (reference matcher on the simplified grammar)",
  "The simplified grammar is converted back into the reference model and both are decided on the same documents by the independent matcher as well as by the real engines.")

P("P05", "Validators and encoders keep to the parser protocol",
  "Validators and encoders use a parser only as its contract allows: a label is read, tested or descended into only while it is current, leaves are never descended into, every descent is matched by exactly one ascent, and a level is not advanced after it ended, was left or reported an error. After a completed validation or encoding the parser is back at the level at which it was handed over, whether the document was read to its end or decided early.",
  ["inputs", "programs", "histories"], "every grammar and document, every parser, with and without early decisions",
  "The parsers of the test suite silently tolerate most breaches, so tests only see the verdict and not the sequence of calls.",
  ["relapse/mem/deriv.go", "relapse/intern/deriv.go", "relapse/interp/deriv.go", "relapse/auto/auto.go", "encode/*/*.go", "parser/parser.go"],
  [("traversal loops", "relapse/mem/deriv.go"), ("traversal loops", "encode/json/json.go")],
  "the sequence of parser calls",
  "runtime monitoring: online protocol automaton on every parser call",
  "A monitoring parser checks each call against the protocol automaton and the balance of descents.")

P("P06", "Grammars built by the combinator library mean what their functions say",
  "A grammar built from the combinator functions accepts exactly the documents that the equivalent grammar text accepts, value comparisons included, whatever the order of the arguments and whatever values are embedded. Building never fails for expressions that are well typed, and it leaves the patterns it was given usable for building further ones.",
  ["inputs", "programs"], "every combinator expression and every embedded constant",
  "Tests build a handful of grammars; constants are printed and parsed again while building, so each value of each type is a case of its own.",
  ["relapse/combinator/*.go", "relapse/ast/new.go", "relapse/funcs/const.gen.go"],
  [("combinators", "relapse/combinator/combinator.go"), ("value functions", "relapse/combinator/funcs.go")],
  "verdicts of the built grammar",
  "runtime monitoring: differential oracle (reference matcher and text grammar)",
  "Generated pattern models are built both through the combinators and as text; both are judged by the reference matcher on generated documents.")

P("P07", "Printing a grammar and parsing it again gives the same grammar",
  "For every parsed grammar the printed text parses again to an equal grammar, with the same spaces and comments. Grammars constructed or rewritten by the library print to text that parses to a grammar with the same meaning.",
  ["inputs", "programs"], "every grammar text and every constructed grammar",
  "Tests round trip a list of examples; printing treats each node type, each literal form and each position of spaces by its own code.",
  ["relapse/ast/string.go", "relapse/ast/new.go", "relapse/ast/keywords.go", "relapse/ast/var.go", "relapse/ast/builtin.go"],
  [("printing", "relapse/ast/string.go"), ("constructors", "relapse/ast/new.go")],
  "the printed text and the grammar parsed from it",
  "runtime monitoring: round-trip oracle",
  "Grammar texts with random spacing, comments and literal forms are parsed, printed and parsed again and compared structurally and by text.")

P("P08", "Formatting changes only the layout",
  "Formatting a grammar keeps its meaning and all its comments, and its printed result parses to an equal grammar up to layout. Formatting what has been formatted changes nothing, and what is left of a space that holds no comment is at most one space or line end.",
  ["inputs", "programs"], "every grammar text, with spaces and comments at every position",
  "Tests format a few examples; layout is decided per node type, per nesting and per comment position.",
  ["relapse/ast/format.go", "relapse/ast/comment.go", "relapse/ast/string.go"],
  [("formatter", "relapse/ast/format.go")],
  "the formatted text",
  "runtime monitoring: metamorphic oracle (idempotence, equal meaning, same comments)",
  "Generated texts are formatted; the result is reparsed and compared with the original after removal of the layout, comments are compared as sequences, and the result is formatted again.")

P("P09", "Any grammar text is accepted or refused, never a crash",
  "Parsing any text as a grammar, and preparing any grammar that was parsed, returns a result or an error: it never panics, never exhausts the stack and always terminates. An error leaves later calls unaffected.",
  ["inputs"], "every byte string, valid and invalid",
  "Tests parse valid grammars and a few invalid ones; literals of every size, truncations and stray bytes are out of their reach.",
  ["relapse/parser/*.go", "relapse/lexer/lexer.go", "relapse/ast/util.go", "relapse/compose/*.go", "relapse/intern/construct.go"],
  [("parser", "relapse/parser/parse.go"), ("literal conversion", "relapse/ast/util.go"), ("preparing", "relapse/intern/construct.go")],
  "panics and errors",
  "runtime monitoring: crash monitor over mutated and generated texts",
  "Token soups, truncations and mutations of valid grammars run in a child process with stack and memory limits; grammars with immediate recursion are excluded from preparing, as documented.")

P("P10", "Literals denote their values",
  "Every literal of the grammar language (decimal, octal and hexadecimal integers, unsigned integers, floating point numbers, quoted and raw strings, byte lists with numbers and characters, booleans) denotes exactly the value that the same literal has in Go. A literal that does not fit its type is refused with an error.",
  ["inputs"], "every literal of every type",
  "Tests use a few dozen literals; the decoding is by hand and each escape and each magnitude is a case of its own.",
  ["relapse/ast/util.go", "relapse/bnf/lexer.bnf", "relapse/lexer/*.go"],
  [("literal conversion", "relapse/ast/util.go")],
  "the value in the parsed grammar and in validation",
  "runtime monitoring: differential oracle (strconv and harness decoder)",
  "Generated literals are decoded by the real parser and by an independent decoder, at the AST and through validation of a document with that value.")

P("P11", "Value expressions compute what their functions are documented to compute",
  "For every well typed value expression and every label, evaluation gives the value that the documented meaning of the functions gives: comparisons, boolean connectives, string and regular expression functions, list membership, element and range selection, length and type tests. A comparison with a value of another type is false rather than an error, and whatever else cannot be computed is reported as an error rather than answered wrongly.",
  ["inputs", "programs"], "every expression over every function and type, every label value",
  "Tests evaluate a few expressions; the functions exist once per type in generated code and are combined freely.",
  ["relapse/funcs/*.go", "relapse/compose/*.go", "list_of_functions.txt"],
  [("functions", "relapse/funcs/"), ("composition", "relapse/compose/compose.go")],
  "the result of evaluating the expression on a label",
  "runtime monitoring: differential oracle (reference evaluator)",
  "Generated expressions of depth up to 4 are evaluated by the real code on generated labels and compared with an independent evaluator; where an error passes through a boolean connective only the absence of a wrong answer without error is judged.")

P("P12", "Compile-time evaluation does not change an expression",
  "Replacing sub-expressions without variables by their value, combining conditions with and, or and not, and detecting conditions that are always true or always false never change the result of an expression on any label. Expressions that are ill typed, that call unknown functions, or that give a function something other than the constant it requires are refused with an error when the grammar is prepared, and never accepted with a meaning of their own.",
  ["inputs", "programs"], "every expression and every label",
  "Tests fold selected expressions; folding interacts with every function and with the negation and conjunction rewrites.",
  ["relapse/funcs/logic.go", "relapse/funcs/const.gen.go", "relapse/funcs/register.go", "relapse/compose/bool.go", "relapse/compose/compose.go"],
  [("constant folding", "relapse/funcs/const.gen.go"), ("boolean rewrites", "relapse/funcs/logic.go"), ("type directed composition", "relapse/compose/compose.go")],
  "results with constants written in place against the same constants read from the label",
  "runtime monitoring: metamorphic oracle (folded against unfolded evaluation)",
  "Each expression is evaluated with its constants folded and with the same constants supplied at run time; conjunctions built from pairs of conditions are compared with evaluating both; ill-typed calls must be refused.")

P("P13", "A printed value expression parses back to the same function",
  "The printed form of every value function built by the library parses back to an expression that computes the same results on every label.",
  ["inputs", "programs"], "every expression, every constant of every type",
  "Tests compare the printed form of a few expressions; printing is per function and per constant type.",
  ["relapse/funcs/sprint.go", "relapse/funcs/const.gen.go", "relapse/funcs/compare.gen.go", "relapse/funcs/regex.go"],
  [("printing", "relapse/funcs/sprint.go")],
  "results of the reparsed expression",
  "runtime monitoring: round-trip oracle (behavioural)",
  "Functions built from generated expressions are printed, parsed, composed again and evaluated on generated labels side by side with the original.")

P("P14", "Functions are ordered and compared consistently",
  "Comparison of built value functions is a total order consistent with equality: it is reflexive, antisymmetric and transitive, equal functions have equal hashes and compute equal results, and functions that print differently are not equal.",
  ["inputs", "programs"], "every pair and triple of value functions",
  "One test compares one pair; ordering decides how patterns are merged and memoized, so an inconsistency anywhere changes verdicts.",
  ["relapse/funcs/*.go", "relapse/funcs/compare.gen.go"],
  [("comparison", "relapse/funcs/compare.gen.go"), ("hashing", "relapse/funcs/register.go")],
  "results of comparing and hashing",
  "runtime monitoring: algebraic-law monitor",
  "Pools of near-identical generated functions are compared pairwise and in triples; equality is checked against evaluation.")

P("P15", "Grammar trees compare, hash and clone by value",
  "Two grammar trees are equal exactly when they have the same structure and values; equal trees have equal hashes, comparison is a total order consistent with equality, and a clone is equal to and shares nothing with the original.",
  ["inputs", "programs"], "every pair of grammar trees",
  "Tests cover one clone; the comparison and hash code has a case for each field of each node.",
  ["relapse/ast/derived.gen.go", "relapse/ast/compare.go", "relapse/ast/clone.go"],
  [("comparison", "relapse/ast/compare.go"), ("cloning", "relapse/ast/clone.go"), ("hashing", "relapse/ast/derived.gen.go")],
  "results of Equal, Compare, Hash and Clone",
  "runtime monitoring: algebraic-law monitor with mutation of clones",
  "Trees that differ in one random field are compared; every field of a clone is mutated in turn and the original is checked to be unchanged.")

P("P16", "Preparing, validating, simplifying and printing leave the grammar unchanged",
  "A parsed grammar is a value: preparing, compiling, interpreting, simplifying, printing and comparing it leave it exactly as it was, so that one parsed grammar can be used any number of times and by several validators.",
  ["inputs", "histories"], "every grammar and every sequence of operations on it",
  "Tests use a grammar once; in-place sorting and sharing of sub-trees show only after several uses.",
  ["relapse/interp/simplify.go", "relapse/intern/construct.go", "relapse/auto/compiler.go", "relapse/ast/*.go"],
  [("in-place sorting", "relapse/interp/order.go"), ("in-place sorting", "relapse/intern/order.go")],
  "a deep snapshot of the grammar before and after",
  "runtime monitoring: state snapshot monitor",
  "A deep printed snapshot of the tree is taken before and after random sequences of operations.")

P("P17", "The JSON parser presents exactly the document",
  "For every valid JSON text the parser presents the objects, arrays, names and values that the JSON standard assigns to it, in order: strings decoded, array elements under their index, true and false as booleans, null as a node without children, numbers as their nearest double and, when they are integers that fit, as signed and unsigned integers too. Nothing is invented, lost, duplicated or reordered.",
  ["inputs"], "every valid JSON text",
  "Tests use a few documents; escapes, white space, nesting and number forms combine freely.",
  ["parser/json/json.go", "parser/json/unquote.go"],
  [("scanner", "parser/json/json.go"), ("string decoding", "parser/json/unquote.go")],
  "the tree read through the parser interface",
  "runtime monitoring: differential oracle (encoding/json)",
  "Generated JSON texts with random layout, escapes and number forms are walked through the real parser and compared with the tree that an independent decoder builds.")

P("P18", "The protobuf parser presents exactly the message",
  "For every message of every supported field kind the parser presents the fields, elements, keys and values that are on the wire, as unmarshalling the same bytes gives them: all integer encodings, packed and unpacked repeated fields, nested and self-containing messages, enums, bytes, strings, file-level extensions, proto2 and proto3. Unknown fields are skipped. The current message and the current field that it names are those of the label it is at, and a reset parser presents the message from its start again. As documented, absent fields get no default and elements that are apart on the wire are not merged; maps and groups are not supported.",
  ["inputs"], "every message, every field kind, in every order of fields on the wire",
  "Tests use a few fixed messages; wire types, negative numbers and packing combine per field kind.",
  ["parser/proto/proto.go", "parser/proto/desc.go"],
  [("wire decoding", "parser/proto/proto.go"), ("descriptor lookup", "parser/proto/desc.go")],
  "the tree read through the parser interface",
  "runtime monitoring: differential oracle (gogo/protobuf reflection)",
  "Randomly populated messages are marshalled, walked through the real parser and compared with the tree derived from the message in memory.")

P("P19", "The reflection parser presents exactly the Go value",
  "For every Go value made of structs, pointers to structs and scalars, slices, and scalars of the supported types (bool, 32 and 64 bit integers, floating point numbers, strings and byte slices) the parser presents its fields, elements and values, in order, with nil pointers and nil slices left out. A parser can be pointed at another value at any moment and presents that value from its start.",
  ["inputs", "histories"], "every value of every struct type, every re-initialization",
  "Tests use a few types; each kind and each nesting is a case of its own.",
  ["parser/reflect/reflect.go"],
  [("traversal", "parser/reflect/reflect.go")],
  "the tree read through the parser interface",
  "runtime monitoring: differential oracle (independent reflection walk)",
  "Randomly typed and populated values (struct types are generated at run time) are walked and compared with an independent walk.")

P("P20", "The XML parser presents exactly the document",
  "For every well formed XML document the parser presents its elements, attributes and text in document order, attributes before the content of their element, with entities and CDATA decoded, text readable through every typed view that its characters denote (boolean, integer, unsigned integer, double, string). Comments, processing instructions, declarations and white space outside of the root element are not presented.",
  ["inputs"], "every well formed XML document",
  "Tests use a few documents; entities, CDATA, comments, nesting and white space combine freely.",
  ["parser/xml/parser.go", "parser/xml/xml.go", "parser/xml/buffer.go"],
  [("traversal", "parser/xml/parser.go"), ("tokenizer", "parser/xml/xml.go")],
  "the tree read through the parser interface",
  "runtime monitoring: differential oracle (encoding/xml)",
  "Generated XML texts are walked through the real parser and compared with the tree that encoding/xml tokens give.")

P("P21", "The YAML parser presents exactly the supported documents",
  "For every document of the supported block style (nested mappings by consistent indentation, sequences of plain scalars or of single-key mappings, plain scalars, nulls, blank lines, either line ending) the parser presents the mappings, sequences and values that YAML assigns to it, in order, scalars readable through every typed view that their text denotes.",
  ["inputs"], "every document of the supported subset",
  "Tests use a few documents; the parser tracks indentation by hand, so each nesting is a case of its own.",
  ["parser/yaml/yaml.go"],
  [("indentation scanner", "parser/yaml/yaml.go")],
  "the tree read through the parser interface",
  "runtime monitoring: generator oracle (document model)",
  "Documents are generated from a model, rendered as YAML and walked; the tree must be the model.")

P("P22", "Malformed input is reported, never a crash",
  "Walking any byte string with the JSON, protobuf, XML or YAML parser, in any navigation order that the protocol allows, ends after boundedly many steps with a result or an error and never panics. What is presented depends only on the bytes of the input and not on what lies behind its end. JSON or protobuf input that is cut short inside a value is reported as an error when it is read to its end.",
  ["inputs", "fault_sequences"], "every byte string and every navigation",
  "Tests feed a few malformed inputs; truncation and damage at every position of every construct is out of their reach.",
  ["parser/json/json.go", "parser/proto/proto.go", "parser/xml/*.go", "parser/yaml/yaml.go"],
  [("scanners", "parser/json/json.go"), ("wire decoding", "parser/proto/proto.go")],
  "panics, errors and the number of steps",
  "runtime monitoring: crash and progress monitor over damaged inputs",
  "Truncations at every position, bit flips, deletions, insertions and random bytes, walked with complete, skipping and early-ascending navigation under step, stack and memory limits.")

P("P23", "What a parser presents does not depend on how it is navigated",
  "Skipping a node without descending, ascending before the end of a level, reading a label several times or not at all, and re-initializing the parser never change what is presented for the rest of the document.",
  ["histories", "inputs"], "every document of every format and every navigation sequence",
  "Tests mostly walk documents completely; skipping has its own code in each parser.",
  ["parser/json/json.go", "parser/proto/proto.go", "parser/xml/parser.go", "parser/reflect/reflect.go", "parser/yaml/yaml.go"],
  [("skipping", "parser/json/json.go"), ("skipping", "parser/proto/proto.go"), ("skipping", "parser/xml/parser.go")],
  "the nodes seen by a partial navigation against those of a complete walk",
  "runtime monitoring: metamorphic oracle (partial against complete navigation)",
  "Random navigation scripts are run on each format and each observation is compared with the tree of a complete walk.")

P("P24", "The verdict does not depend on the format of the document",
  "The same record presented as JSON, as a protobuf message, as a Go value and, for records of nested objects and plain words, as XML or YAML gets the same verdict from every grammar that looks at values only through types and names that the formats share; the same grammar never needs to know the format.",
  ["inputs", "programs"], "every record expressible in the formats and every grammar over it",
  "Tests validate each example in the formats it was written for.",
  ["relapse/testsuite/files.go", "parser/*/*.go", "relapse/mem/*.go"],
  [("parser interface", "parser/parser.go")],
  "verdicts across formats",
  "runtime monitoring: differential oracle between parsers",
  "Random records are marshalled to each format and validated with generated grammars that only use what the formats share.")

P("P25", "Messages with latent appending or merging are recognized exactly",
  "The check for protobuf messages that would be changed by unmarshalling and marshalling again (NoLatentAppendingOrMerging) reports an error exactly for messages in which a non repeated field occurs more than once, or in which the elements of a repeated field come in more than one run, at any depth. A run is a sequence of consecutive unpacked elements or one packed chunk. It also reports an error when the message cannot be read to its end.",
  ["inputs"], "every message and every order and repetition of its fields on the wire",
  "Tests check a few messages; the order of fields on the wire and the nesting are unbounded.",
  ["parser/proto/nomerge.go"],
  [("occurrence scan", "parser/proto/nomerge.go")],
  "the error of the check",
  "runtime monitoring: differential oracle (independent wire scanner)",
  "Messages are assembled field by field in random order with random duplications and the result is compared with an independent scan.")

P("P26", "Encoding to JSON keeps the document",
  "Encoding any document that a parser presents as JSON gives valid JSON that decodes to the same objects, arrays, names and values: levels with names become objects, levels with indexes become arrays, leaves become numbers, booleans or strings, bytes become base64 and a level without children becomes null. A fault of the parser, and a number that JSON cannot express, is returned as an error and not hidden in the output.",
  ["inputs", "fault_sequences"], "every document and every fault of the parser",
  "Tests encode a few documents.",
  ["encode/json/json.go"], [("encoder", "encode/json/json.go")],
  "the encoded text", "runtime monitoring: round-trip oracle with fault injection",
  "Generated documents are encoded from the monitoring parser and from the JSON parser and decoded by encoding/json; faults are injected at every step.")

P("P27", "Encoding to protobuf keeps the message",
  "Encoding any document that is an instance of a message type gives bytes that unmarshal to the same message, for every supported field kind, packed and unpacked, extensions, nested to any depth. Names that the type does not declare are skipped. A fault of the parser and a leaf of the wrong type are returned as errors.",
  ["inputs", "fault_sequences"], "every message of every supported type and every fault of the parser",
  "Tests encode a few messages.",
  ["encode/proto/proto.go"], [("encoder", "encode/proto/proto.go")],
  "the encoded bytes", "runtime monitoring: round-trip oracle with fault injection",
  "Randomly populated messages are parsed and encoded again, also via other formats, and unmarshalled by gogo/protobuf; faults are injected at every step.")

P("P28", "Filling a Go value from a document keeps the document",
  "Filling a Go struct from any document that is an instance of its type gives a value that presents the same document again, whatever the format it is read from. Integers fill fields of every width that they fit in, and are refused by others. A fault of the parser and a leaf of the wrong type are returned as errors, without a panic.",
  ["inputs", "fault_sequences"], "every value of every supported struct type and every fault of the parser",
  "Tests fill a few values.",
  ["encode/reflect/reflect.go"], [("encoder", "encode/reflect/reflect.go")],
  "the filled value", "runtime monitoring: round-trip oracle with fault injection",
  "Randomly typed values are parsed, filled into a new value and compared; faults are injected at every step.")

P("P29", "Encoding to XML keeps the document",
  "Encoding to XML any document whose names are XML names and whose texts consist of XML characters gives well formed XML with the same elements, nesting and text in the same order, special characters escaped. A fault of the parser is returned as an error.",
  ["inputs", "fault_sequences"], "every document and every fault of the parser",
  "Tests encode a few documents.",
  ["encode/xml/xml.go"], [("encoder", "encode/xml/xml.go")],
  "the encoded text", "runtime monitoring: round-trip oracle with fault injection",
  "Generated documents are encoded and decoded by encoding/xml; faults are injected at every step.")

P("P30", "Independent validators can be used concurrently",
  "Parsing grammars, preparing validators from a shared grammar, and validating documents with validators, automata and parsers that are not shared between goroutines is free of data races and gives the same verdicts as doing so one after another.",
  ["schedules"], "every interleaving of independent validations",
  "The tests are sequential; shared package state, shared grammars and shared constants show only under concurrency.",
  ["relapse/intern/construct.go", "relapse/funcs/register.go", "relapse/parser/*.go", "relapse/compose/*.go"],
  [("package level patterns", "relapse/intern/construct.go"), ("function registry", "relapse/funcs/register.go")],
  "race detector reports and verdicts",
  "runtime monitoring: Go race detector plus sequential oracle",
  "Eight and more goroutines with random yields prepare from shared grammars and validate under the race detector; all verdicts are compared with a sequential run.")

P("P31", "Repeated validation does not accumulate state",
  "Validating the same set of documents again does not grow a validator: after it has seen the documents, further validations of them allocate no lasting memory, and the number of lasting states depends on the grammar and on the distinct shapes of the documents but not on how often or in which order they are validated.",
  ["histories"], "every long history of validations",
  "Tests validate a document a few times and do not look at the memory.",
  ["relapse/mem/mem.go", "relapse/intern/sets.go", "relapse/sets/*.go"],
  [("interned sets", "relapse/intern/sets.go"), ("memo tables", "relapse/mem/mem.go")],
  "live heap after many validations",
  "runtime monitoring: live-heap monitor",
  "The live heap of a pool of validators is measured after warming up and after hundreds of further rounds of the same documents.")

P("P32", "Faults of the parser surface as errors",
  "When a parser reports an error at any point of a validation, the validation returns that error instead of a verdict, unless it had decided before. It never panics or loops, and the validator remains usable with unchanged verdicts.",
  ["fault_sequences", "histories"], "every position of a fault in every document, for every strategy",
  "Tests use parsers that do not fail.",
  ["relapse/mem/deriv.go", "relapse/intern/deriv.go", "relapse/interp/deriv.go", "relapse/auto/auto.go"],
  [("error paths", "relapse/mem/deriv.go")],
  "the result of the validation and later verdicts",
  "runtime monitoring: fault enumeration with error and reuse oracle",
  "For each generated pair an error is injected at every advance of the parser in turn, and the result and later verdicts are compared.")

P("P33", "A context reaches every function that asks for it",
  "A context that is set on a validator is visible to user defined functions wherever they occur in the grammar, changing it changes the following validations, and validators do not see each other's contexts.",
  ["histories", "programs"], "every position of a function and every sequence of contexts",
  "One test sets one context for one function at one position.",
  ["relapse/mem/mem.go", "relapse/intern/context.go", "relapse/compose/compose.go", "relapse/funcs/context.go"],
  [("context distribution", "relapse/intern/context.go")],
  "verdicts that depend on the context",
  "runtime monitoring: probe functions with a history oracle",
  "Registered probe functions report the context they see; grammars place them at random positions and contexts are switched at random between validations.")

P("P34", "Immediate recursion is detected",
  "The check for recursion reports a grammar exactly when some declaration can reach itself, through references only, without passing a named node. It terminates for every grammar, and grammars for which it reports nothing can be prepared and used without exhausting the stack.",
  ["inputs", "programs"], "every grammar",
  "Tests check a few grammars.",
  ["relapse/interp/recursion.go"], [("recursion check", "relapse/interp/recursion.go")],
  "the reported boolean", "runtime monitoring: differential oracle (graph reachability)",
  "Generated grammars with references at random positions are compared with an independent reachability computation; recursion-free ones are also prepared and run.")

P("P35", "Debugging wrappers are transparent",
  "Wrapping a parser for logging, and parsing with the debugging walkers, presents the same nodes and values as the parser itself and leads to the same verdicts, whichever logger receives the lines.",
  ["inputs"], "every document and every grammar",
  "Tests use the wrappers on a few documents and only look at failures.",
  ["parser/debug/*.go"], [("logging wrapper", "parser/debug/log.go"), ("walkers", "parser/debug/walk.go")],
  "the nodes presented by the wrapper", "runtime monitoring: differential oracle (wrapped against bare parser)",
  "Generated documents are read bare and wrapped; walkers are compared with an independent walk and random walks are checked for protocol breaches.")

P("P36", "A grammar survives its serialized form",
  "Writing a grammar tree, or any part of it, in its protocol buffer form and reading it back gives the same tree, spaces, comments and literals included. What is written follows the fields that relapse.proto declares, and whatever another program writes by them is read, in any order of fields and with unknown fields in between. The reported size is the size written, and damaged bytes give an error or a tree, never a crash.",
  ["inputs"], "every grammar tree and every byte string",
  "No test serializes a grammar; each of the thirty kinds of nodes has its own generated code for sizes, writing and reading.",
  ["relapse/ast/relapse.pb.go", "relapse/ast/relapse.proto"], [("generated marshaling", "relapse/ast/relapse.pb.go")],
  "the bytes written and the tree read back", "runtime monitoring: round trip and differential oracle (independent encoder and decoder)",
  "Generated trees are written by the library and by an encoder that is driven by the declared field numbers, and read by the library and by an independent decoder; bytes are damaged at random.")

P("P37", "Tools that read a grammar tree see all of it",
  "Walking a tree visits every node below its start exactly once, each after the node that holds it and with the visitor that was returned for that node. The answers about a tree follow from its nodes: whether an expression has a variable, whether a pattern is negated, which references are declared, and whether one is used that is not. A lookup of references and the grammar made from it hold the same patterns. The Go source that a tree prints evaluates to an equal tree.",
  ["inputs"], "every grammar tree, complete or still being built",
  "Tests walk a few trees; each kind of node has its own code in each of the tools, and a node that is skipped is missed only where something is looked for below it.",
  ["relapse/ast/walk.go", "relapse/ast/var.go", "relapse/ast/new.go", "relapse/ast/combo.go", "relapse/ast/gostring.go", "relapse/ast/derived.gen.go"],
  [("walking", "relapse/ast/walk.go"), ("variables", "relapse/ast/var.go"), ("references", "relapse/ast/new.go"), ("Go source", "relapse/ast/derived.gen.go")],
  "the nodes visited and the answers", "runtime monitoring: differential oracle (reflective traversal, interpreted Go source)",
  "A recording visitor is compared with a reflective traversal of the same tree, and the printed Go source is evaluated by a small interpreter and compared node by node.")

P("P38", "A refused grammar names the place",
  "When a text is not a grammar, the error names the token where it stops being one, with the right offset, line and column. What is before that place is the start of some grammar, and the tokens that the error expects there are exactly those that may follow. A parser that was used before reports the same.",
  ["inputs", "histories"], "every text that is not a grammar",
  "Tests check that some texts are refused, not where and why.",
  ["relapse/parser/*.go", "relapse/lexer/*.go", "relapse/errors/errors.go", "relapse/token/token.go"],
  [("error report", "relapse/parser/parser.go"), ("positions", "relapse/lexer/lexer.go"), ("message", "relapse/errors/errors.go")],
  "the error that parsing returns", "runtime monitoring: oracle by probing (each token tried at the place)",
  "For generated broken texts every kind of token is put in the place that the error names and parsed again, what is before is completed to a grammar, and the position is recomputed from the text.")

P("P39", "Sets find what is equal and keep apart what differs",
  "A set of lists of patterns, of bits, of numbers or of pairs gives two values the same number if and only if they are equal, also when their hashes collide, and keeps what it was given under that number. Bits read back as they were set, are equal if and only if they have the same size and the same bits, and count like a number. A zipped list holds each of its patterns once, leaves out the pattern that matches all and the one that matches nothing, and unzips to the list, and bits about it to the bits about the list. An interned list's bits, acceptance and zipped form are those of its patterns.",
  ["inputs", "histories"], "every sequence of additions and every list of patterns",
  "Tests add a few short lists, none with colliding hashes or more than one word of bits in a set.",
  ["relapse/sets/*.go", "relapse/intern/sets.go", "relapse/intern/zip.go", "relapse/intern/order.go", "relapse/intern/pattern.go"],
  [("bits", "relapse/sets/bits.go"), ("indexed sets", "relapse/sets/indexset.go"), ("zipping", "relapse/sets/zip.go"), ("interned sets", "relapse/intern/sets.go")],
  "the numbers, bits and lists that the sets return", "runtime monitoring: model-based test of the sets against maps and big integers, with colliding hashes",
  "Random histories of operations run on the real sets and on maps that are keyed by the printed values; every answer is compared, and every list is zipped and unzipped.")

P("P40", "A registered function works like a built-in one",
  "A function that a user registers is called wherever an expression of its type may stand, with exactly the arguments that the grammar gives it, and chosen by the number and the types of its arguments alone; a call with other arguments is refused when the grammar is compiled, and so is one whose constructor refuses, with its error. Two calls of different registered functions are not mistaken for one another, even if their hashes collide. A function that says that its value can change is evaluated anew for every document; what it returns, also an error, has the same effect on the verdict in every validator as that of a built-in function. Registering something that is not a function of the library's form is refused.",
  ["inputs", "histories"], "every function that keeps to the interface, every grammar that calls it and every sequence of documents",
  "Tests register one or two functions and call each once.",
  ["relapse/funcs/register.go", "relapse/funcs/variable.go", "relapse/compose/*.go", "relapse/combinator/*.go"],
  [("registering", "relapse/funcs/register.go"), ("composing", "relapse/compose/compose.go"), ("the variables of a function", "relapse/funcs/variable.go")],
  "the results of expressions and grammars with registered functions", "runtime monitoring: differential test of registered functions of known meaning against a reference evaluator",
  "The harness registers sixty functions of all types, among them overloaded, failing, colliding, refusing and changing ones, whose value is a known function of their arguments; grammars that mix them with the built-in ones run in every validator and are compared with the reference.")

P("P41", "A name expression is a function of labels, and back",
  "The function that a name expression becomes holds for a label if and only if the expression covers the label: every label for the wildcard, the labels that are equal in kind and value for a literal, those that one alternative covers for a choice, and those that its operand does not cover for an exception; it never fails. Evaluating the expression on a label gives the same. Every such function is turned back into a name expression that covers the same labels, also once printed and parsed; a function that is not such a one is refused, or means the same as the name it becomes.",
  ["inputs"], "every name expression, every function and every label",
  "Tests turn a few names into functions, and hardly any function back.",
  ["relapse/name/name.go", "relapse/funcs/compare.gen.go", "relapse/funcs/logic.go"],
  [("names to functions", "relapse/name/name.go"), ("functions to names", "relapse/name/name.go")],
  "the functions, names and their results on labels", "runtime monitoring: differential test of names and functions on labels against a reference meaning",
  "Random nested names and functions near to those of names are converted there and back, and each form is evaluated on labels at and next to every literal, of its kind and of the other kinds.")

P("P42", "What a validator retains is bounded by its grammar",
  "What a prepared grammar retains between and during validations is bounded by the grammar and the kinds of labels, and not by the documents: when a document repeats the same children, next to each other or below each other, more and more often, the memoizing validator (with or without the optimization for records) comes to add nothing any more; validating a document that it has validated before adds nothing at all and gives the same verdict; and a compiled automaton never changes when it validates. So a document may be as long as one likes without using up the memory.",
  ["histories", "inputs"], "every grammar without immediate recursion and every sequence of documents",
  "Tests validate documents of a few elements, for which any growth goes unnoticed.",
  ["relapse/mem/mem.go", "relapse/mem/ifs.go", "relapse/intern/construct.go", "relapse/intern/order.go", "relapse/intern/sets.go", "relapse/sets/indexset.go"],
  [("states and returns of the memoizing validator", "relapse/mem/mem.go"), ("canonical form of derivatives", "relapse/intern/construct.go")],
  "all that is reachable from the validator", "runtime monitoring: a monitor of the objects reachable from the validator, sampled while documents grow",
  "Blocks of children of random and of deliberately ambiguous grammars are repeated 1 to 512 times beside and below each other; after each document everything that can be reached from the validator is counted, and the counts must come to a halt.")

CHECKS_DONE = None  # filled from the harness


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in props:
            anchors = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
            if p["observe"]:
                anchors["observe_at"] = [p["observe"]]
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                                "quantifier": {"over": p["over"], "text": p["quant"]},
                                "why_tests_cant": p["why"], "anchors": anchors}) + "\n")
    done = sys.argv[1:] or [p["id"] for p in props]
    hooks = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=^verif:"], capture_output=True, text=True).stdout.split()
    man = {"version": 1, "setup_cmd": "bash /verif/build.sh",
           "hooks": {"guard": "build tag verif", "enable": "go build -tags verif (done by /verif/build.sh)", "source_commits": hooks},
           "checks": [], "not_applicable": [],
           "notes": "Every check is one property of the Go harness in /verif/harness; /verif/check.sh rebuilds it from /repo's working tree and runs it. See DESIGN.md."}
    for p in props:
        if p["id"] in done:
            man["checks"].append({"property": p["id"], "quick_cmd": "bash /verif/check.sh %s quick" % p["id"],
                                  "thorough_cmd": "bash /verif/check.sh %s thorough" % p["id"],
                                  "technique": p["technique"], "level": "fault_enumeration" if p["id"] == "P32" else "exploration",
                                  "level_note": p["note"]})
        else:
            man["not_applicable"].append({"property": p["id"], "reason": "the check is not built yet"})
    json.dump(man, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")


main()
