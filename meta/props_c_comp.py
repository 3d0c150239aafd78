CP = "tpl/compiler.go"

P("C01", "Grammar text means what its operators, precedence and marks say",
  """A compiled grammar matches exactly as the tree its text denotes: unary operators bind tighter than lists, lists tighter than sequences, sequences tighter than choices, and lists associate to the left; parentheses group, and white space and comments do not matter.
  A mark belongs to the operand it is written behind and is called for exactly the matches of that operand, with its length.""",
  "every grammar tree with up to the stated number of operators, rendered with as few parentheses as the precedence allows, compiled by the real compiler and matched against every sequence of up to the stated number of tokens",
  "Tests compile a handful of fixed calculator grammars.",
  [CP, "tpl/grammar.go"], [("Compiler.Grammar, Compiler.Cl", CP)], ["Compiler.Cl", "Grammar.Match"], over=("inputs", "programs"),
  bound="<= 3 (4) operators, chains <= 4 (5) parts, <= 3 tokens of arbitrary kinds.")

P("C02", "Exactly the well-formed grammars compile, and rules resolve by name",
  """Grammar text compiles exactly when it is well formed: every rule is defined once, has a body, every name it uses is defined or is a token class, and the document rule exists; anything else is rejected.
  A name means its rule whatever the order of the definitions, rules may be recursive, a name without a definition that is written as a word is a keyword or token class, and every rule can be evaluated by its name.""",
  "every grammar text of up to the stated number of symbolic bytes in several contexts, every order of definition, every use of reserved and defined names; what compiles is compared with a reference parser on every token sequence within the bound",
  "Tests compile valid grammars only; forward references and `EOF` used to misbehave.",
  [CP, "tpl/match.go"], [("Compiler actions ident, assign, newVar; resolution of variables in Cl", CP)], ["Compiler.Cl", "CompileRet.EvalSub", "CompileRet.Vars"], over=("inputs", "programs"),
  bound="Grammar texts <= 4-5 (5-6) symbolic bytes over alphabets of the metacharacters; left-recursive grammars are outside the claim (a parsing expression grammar cannot be left-recursive).")

P("C03", "The code of a grammar compiles back to the same grammar",
  """The text that is generated for a compiled or constructed grammar is itself a well-formed grammar that matches exactly the same token sequences, with the same number of tokens, and generating the text again yields the same text.""",
  "every grammar tree with up to the stated number of operators, compiled from text or put together from the constructors, against every sequence of up to the stated number of tokens",
  "Tests compare the code of two grammars with a fixed text; parentheses around nested operators used to be lost.",
  ["tpl/grammar.go", CP], [("Marshal of every grammar, MarshalTokens", "tpl/grammar.go"), ("CompileRet.Code, Code", CP)], ["Code", "CompileRet.Code"], over=("inputs", "programs"),
  bound="<= 3 (4) operators, <= 3 tokens.")
