G = "tpl/grammar.go"
MT = "TestMatch matches two fixed expressions against two fixed grammars"

P("M01", "Grammar operators match as a parsing expression grammar",
  """Sequence, ordered choice, `*`, `+`, `?`, list `%` and `%=`, lookahead `@`, negation `~`, end of file, the empty grammar, named rules and variables match exactly the tokens their parts prescribe:
  choices commit to the first alternative that matches, repetitions and lists are greedy and give back only an unfinished separator, and lookahead consumes nothing.
  A token class matches exactly tokens of its kind, except that FLOAT also accepts integers.""",
  "every composite of up to three levels whose parts succeed or fail arbitrarily at each position with arbitrary match lengths, over documents of up to the stated number of tokens",
  MT + "; the claim quantifies over every behaviour of the parts of an operator at every position.",
  [G], [("grAnd, grOr, grRepeat0, grRepeat1, grRepeat01, grList, grPeek, grNot Match", G), ("Gr, GrTrue, GrEOF, GrVar, GrNamed", G)], ["Grammar.Match"], over=("inputs", "programs"),
  bound="Leaves are arbitrary (nondeterministic) sub-grammars, so nesting inside them is covered by their contract; composites: 2-3 levels; documents <= 3-4 tokens.")

P("M02", "The length of a grammar is the number of elements of its last match",
  """After a successful match the length of a repetition or list is the number of elements it matched, 0 or 1 for an optional part, the number of parts for a sequence or choice, and -1 for anything else.
  It describes the last match only, and nested repetitions do not disturb it.""",
  "every outcome of the parts of a repetition, list, sequence or choice at every position, matched once or twice in a row, over documents of up to the stated length",
  "Interpreters rely on the count to collect operands; tests exercise one count per rule.",
  [G], [("arity fields updated by Match, Len", G)], ["Grammar.Len"], over=("inputs", "histories"),
  bound="Documents <= 3-4 tokens; two levels.")

P("M03", "After the fail-fast mark a mismatch ends the whole match",
  """If a part of a sequence after the `!` mark does not match, matching as a whole is abandoned with the error of that part, whatever choices, repetitions or lookaheads surround it.
  A mismatch before the mark, and any mismatch in a sequence without it, leaves the surrounding alternatives available.""",
  "every position of the mark in a sequence of three arbitrary parts inside every kind of surrounding grammar, over documents of up to the stated length",
  "No test contains the mark.",
  [G], [("grAnd.Match panics with the match error after nil", G)], ["Grammar.Match panics with *MatchError"], over=("inputs", "programs"),
  bound="Sequences of three arbitrary parts; documents <= 3-4 tokens.")

P("M04", "Actions and transactions run once per match, in order, on exactly its tokens",
  """An action runs exactly once for every successful match of its grammar and never for a failed one, in matching order, with exactly the tokens that grammar matched and its length.
  A transaction begins before its grammar is tried and is committed or rolled back exactly once, with the outcome of that grammar, properly nested.""",
  "every composite of two levels with actions (or transactions) on every part, whatever its parts do, over documents of up to the stated length",
  "Tests only count on actions in grammars that succeed at once; order, rollback and repetition are not looked at.",
  [G], [("grAction.Match, grTrans.Match", G)], ["Action callback", "Transaction begin/end"], over=("inputs", "programs"),
  bound="Two levels over arbitrary parts; documents <= 3-4 tokens.")

P("M05", "Matching always terminates and stays inside the document",
  """Whatever its parts do, matching a grammar ends, also when a repeated part or a separator matches nothing, and never claims tokens beyond the end of the document.""",
  "every nesting of up to three repetitions and lists over parts that may match nothing, for documents of up to the stated length",
  "Repetition of something that can be empty (such as `*(?A)`) is never tested; it used to loop for ever.",
  [G], [("progress test in grRepeat0, grRepeat1, grList", G)], ["Grammar.Match"], over=("inputs", "programs"),
  bound="Up to three nested repetitions; documents <= 2-4 tokens; loops are unwound until they end (a path that exceeds the step limit is reported as a violation).")

P("M06", "Every way to evaluate a source matches exactly its tokens, once",
  """Evaluating a source text or its tokens, from the document rule or from any named rule, runs the init hook once and then matches the rule once against all tokens of the source; an exact match succeeds only if every token is consumed, and otherwise reports precisely the tokens that are left.
  A source that cannot be tokenized, a rule that does not exist, a source of the wrong kind and a missing grammar are reported without matching anything.""",
  "every source of up to the stated number of symbolic bytes, every entry point and scan mode, and a grammar that matches any number of tokens or fails",
  "Tests call one entry point with sources that match; left-over tokens and hooks are not looked at.",
  ["tpl/grammar.go", "tpl/match.go", "tpl/compiler.go"], [("Matcher.Match, MatchExactly, Eval, Tokenize", "tpl/match.go"), ("CompileRet.EvalSub", "tpl/compiler.go")],
  ["Matcher.Match", "Matcher.MatchExactly", "Matcher.Eval", "CompileRet.EvalSub"],
  bound="Sources <= 3 (4) symbolic bytes over a 4-6 character alphabet.")

P("M07", "A failed match is reported where matching got stuck",
  """The error of a failed match names the grammar that did not match and the farthest position its alternatives reached: of several alternatives the one that got strictly farthest, else the choice itself; left-over tokens are reported as a missing end of document.
  Its message is always available, carries the line of that position, shows the source text there as far as the mismatch, and stays the same when other sources are matched afterwards.""",
  "every grammar of two levels over all operators (and the fail-fast mark) with symbolic token kinds, over sources of up to the stated number of tokens on one or more lines",
  "No test looks at the position of an error; the message of an error at the end of the source used to panic.",
  ["tpl/grammar.go", "tpl/match.go"], [("MatchError, IdxErr bookkeeping in grAnd, grOr, grList", "tpl/grammar.go"), ("MatchError.Error", "tpl/match.go")], ["MatchError"], over=("inputs", "programs"),
  bound="Two levels of operators; <= 3 (4) tokens; sequences of four over up to 60 lines.")
