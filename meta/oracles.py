# How each property is decided: what is symbolic, and against which oracle.
ORACLE = dict(
S01="Source bytes are symbolic. The token sequence of `Scanner.Scan` is compared, token by token, with a reference lexer written from the token table (`scan.go`).",
S02="Same sources; every token's position and end must tile the text between blanks and comments; a second `Init` on a used scanner must give what a fresh one gives.",
S03="Reference lexer with the insertion rule as a table over the previous token; line ends, comments and end of file in all positions.",
S04="The reference lexer also says whether and where a source is malformed; error handler calls, `ErrorCount` and positions are compared.",
S05="Token kinds are a symbolic 64-bit value: spelling and kind tables are inverse; `AutoKwScanner` against a dictionary model.",
S06="Lines, columns and source slices are recomputed from the bytes and compared with `FileLine`, `Source`, and `//line` free positions.",
M01="Sub-grammars are arbitrary: each leaf consults an uninterpreted relation of (leaf, position), so it may match any number of tokens or fail; the result of every operator is compared with PEG semantics.",
M02="`Len` after a match against the number of elements that the reference semantics counts.",
M03="Sequences of arbitrary parts with the mark at a symbolic position inside alternatives, lists, repetitions; the error must pass every enclosing choice.",
M04="Calls of actions and transactions are logged and compared with the reference log (order, tokens, grammar, rollback).",
M05="Arbitrary leaves that may match nothing; a path that exceeds the step limit, or a result outside the document, is a violation.",
M06="Every entry point (`Match`, `MatchExactly`, `Eval`, `EvalSub`, over text and tokens) on the same symbolic source against tokenise-then-match.",
M07="Position of the reported error against the furthest position of the reference match; `Error()` must not panic and names that line.",
C01="Grammar text is printed from a symbolic tree; compiled matching is compared with the semantics of the tree.",
C02="Grammar text is symbolic bytes; a reference parser of the grammar language decides well-formedness and rule names.",
C03="`Code(g)` is compiled again and both are compared on symbolic tokens.",
G01="The text made by `GenStaticCode` is parsed by the real `go/parser` and run by an interpreter of Go (`goeval.go`), both executed symbolically; the result is compared with the compiled grammar.",
G02="Every run has /repo's tplgen write the static compilers of `harness/static/*`; engine and static engine are executed symbolically side by side on the same symbolic source, every call with its arguments, the stack and the error text must agree.",
I01="A table of function kinds times marks: what a function asks for (stack, tokens, literals, lengths, values) against what the matched text gives.",
I02="Marks and mute operations in symbolic order against a counter model.",
I03="Literals are symbolic digits; the value is recomputed digit by digit in wide arithmetic, overflow must be reported.",
I04="Failing functions at symbolic positions: error text, line and the state of an outer evaluation against a model.",
I05="Signatures times operand kinds times arity: which calls are rejected, which values arrive.",
K01="Expression trees are symbolic; the value is computed by the same IEEE operations in the order the grammar prescribes and compared as terms.",
K02="Each function of the table against Go's math function on symbolic floats; wrong arity, unknown names, malformed text and host functions of other kinds are errors.",
K03="As K01 over exact rationals (SMT reals); a recogniser decides which texts are expressions.",
K04="As K01 over pairs of floats; a recogniser decides which texts are expressions.",
Q01="Operands of every type combination are symbolic values; result and dynamic type against Go arithmetic.",
Q02="Which operands are evaluated (logged by a host function) against the truth table, operand values symbolic.",
Q03="Conditions are symbolic booleans; executed branches are logged.",
Q04="The number of rounds is symbolic; loops over slices and maps against a model of the log.",
Q05="Argument counts, parameter kinds and the position of `return` are symbolic choices; a model computes the result.",
Q06="Programs of nested functions are built from symbolic steps; a scope model predicts every read.",
Q07="Function bodies are built from symbolic statements (defer, return, failure, recover, nested calls); a model predicts the log.",
Q08="Classes, methods, members and calls in symbolic order against an object model.",
Q09="Elements and indices symbolic; slices and maps against Go values, including the errors.",
Q10="Host functions of many signatures are called with symbolic arguments; conversion of results and errors against a table.",
Q11="Modules with symbolic names and initialisers; import state is compared with a model.",
Q12="Sequences of succeeding and failing scripts on one interpreter against the same script on a fresh one.",
Q13="Builtins on symbolic numbers, strings and slices against Go.",
Q14="Scripts that define an interpreter (grammar, marks, functions) are put together from choices and run over symbolic token texts; the log is compared with a model of matching.",
Q15="`EvalCode`/`EvalSub` for another object and values that are no interpreters, against a model of which calls reach whom.",
Q16="Literals of symbolic bytes and escapes against a decoder written here; numbers against their digits.",
Q17="The place of the failing step is looked up in the text the harness wrote and compared with the error text.",
X01="Documents with groups and marks in symbolic order; the extracted tree is compared with a tree built by the reference.",
X02="Leaf literals symbolic; value and Go type against the mark's suffix.",
X03="Alternatives that fail late (tokens symbolic); nothing of them may remain.",
X04="Sequences of sources, options and malformed grammars; results against a fresh extractor.",
)
