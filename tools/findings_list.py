fixed("P01 P09", "report undefined references", "a grammar with an undefined reference or without a main pattern panicked, and #main was not accepted as a start")
fixed("P12 P02", "the negation of an equality", "not(eq($int,1)) was rewritten to ne($int,1), which differs on values of another type; the conjunction of not(x) and v2 was simplified to the wrong operand")
fixed("P02", "auto: an impossible else", "the automaton compiler took the wrong branch of a condition whose else branch is impossible")
fixed("P02 P03", "intern: merging", "merging two interned disjunctions or conjunctions reordered the patterns of a pattern that was already interned")
fixed("P11 P01", "elem and range: a negative", "elem and range with an index below -length panicked")
fixed("P13", "funcs: print double", "double, string and regex constants were printed such that they did not parse back to the same value")
fixed("P02 P04", "the shorthand of a comparison", "simplification and printing of interned patterns reparsed a shorthand that exchanges the sides of comparisons")
fixed("P04", "name: decompile", "a name expression below not could not be decompiled")
fixed("P02 P04", "interp: the interleaving", "the simplifier removed duplicates from interleavings")
fixed("P14", "funcs: compare constants", "comparing a constant with a function of another type was not antisymmetric")
for g in ["random", "constants"]:
    known("P13", g + "/shorthand-const-first", "funcs.Sprint prints ge, gt, le and lt with the constant first as a shorthand that has the variable first (relapse/funcs/compare.gen.go Shorthand; case generator %s); the test TestTrim requires that output" % g)
fixed("P07", "ast: hasSuffix", "a hasSuffix shorthand was printed as a contains shorthand")
fixed("P07 P08", "ast: print doubles", "large and small doubles, the names _, true and false, nested shorthands and == and :: after = and : were printed such that they did not parse, or parsed differently")
fixed("P10 P09", "ast: decode octal", "octal, hexadecimal and character literals and literals out of range panicked in the parser")
fixed("P07", "ast: print the arrow", "a constructed sequence or field with a shorthand was printed without its separator")
fixed("P07", "ast: keep printed", "a printed shorthand ran into the expression after it")
fixed("P15", "ast: equal terminals", "terminals that are equal had different hashes")
fixed("P34", "interp: HasRecursion", "HasRecursion reported (@a|@a) as recursive and panicked on undefined references")
fixed("P06", "combinator: the sides", "combinator.Value built GE(IntConst, IntVar) and contains, hasPrefix and hasSuffix with a constant first with their sides exchanged")
fixed("P06 P07", "ast: nil bytes", "nil bytes made an expression or name without a value, which panicked when it was printed")
fixed("P09", "intern: a declaration that repeats", "a declaration that repeats an earlier one with the same name became a reference to itself, and preparing overflowed the stack")
fixed("P33", "intern: set the context", "the context did not reach functions below a zero or more pattern")

fixed("P17 P22 P23", "parser/json: strings with unicode", "unicode escapes were decoded wrongly, brackets inside strings confused skipping, and input cut short inside a value was accepted")
fixed("P18", "parser/proto: negative sint32", "negative sint32 and sint64 values were decoded wrongly")
fixed("P18 P19", "parser/proto, parser/reflect: the index", "the index of an array could be read as a string")
fixed("P18", "parser/proto: message types that are nested", "nested message types with the same short name in different messages were confused")
fixed("P22", "parser/proto: check lengths", "lengths beyond the buffer panicked")
fixed("P18 P25", "parser/proto: packed elements", "packed elements after elements that were not packed were read wrongly")
fixed("P22", "parser/proto: many unknown", "a long run of unknown fields overflowed the stack")
fixed("P20 P22 P23", "parser/xml: reset", "state was left behind by Init and Reset, everything between the first and the last processing instruction was dropped, whitespace before the root was presented as text, Up after leaving an element early skipped too little or panicked")
fixed("P21", "parser/yaml: trim values", "values of fields never read as numbers or booleans since the space after the colon was kept, an empty element of an array presented another part of the text, a null in the last element of an array presented its key as a string")
fixed("P27", "encode/proto: grow the buffer", "documents whose length prefixes need more bytes than estimated panicked, and errors of the parser were lost")
fixed("P27", "encode/proto: messages that contain", "building an encoder for a message type that contains itself never ended, and extension fields were dropped")
fixed("P27 P05", "encode/proto: the key of elements", "elements after the first of a packed field without packing got the wrong key, and a leaf where a message is expected was descended into")
fixed("P19 P22 P23", "parser/reflect: Bytes of", "Bytes of an int8 or uint8 value panicked and Init kept the stack of the previous value")
fixed("P28 P05", "encode/reflect: convert", "values whose Go type differs from the view that was read first panicked, errors were lost, and the leaf was tested before it was current")
fixed("P30", "parser/proto: building a parser wrote", "building protobuf parsers or encoders from a shared descriptor set raced, since extension fields were appended behind the fields of the shared descriptor")
