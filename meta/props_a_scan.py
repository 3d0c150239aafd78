SCT = "tpl/scanner.go"
TEST = "The existing tests scan a few fixed snippets with well-formed tokens; the claim quantifies over every source text"

P("S01", "Tokens have the documented kind, extent and literal (maximal munch)",
  """Scanning a source yields exactly the tokens of the documented token language, in order: every identifier, integer, float, imaginary, character,
  string and raw string literal, operator and (if requested) comment gets its own kind, covers exactly its longest spelling and carries its text as literal.
  Operators are recognised by longest match and text the language does not know yields single-character tokens.""",
  "every source of up to the stated number of bytes over each alphabet (all ASCII bytes; number, string, escape, comment, operator, punctuation and UTF-8 alphabets), with and without comments requested",
  TEST + "; combinations such as `1..2`, `0x.`, `&^=`, unterminated literals or multi-byte letters at token borders are never reached.",
  [SCT, "tpl/token.go"], [("Scan dispatch on the next character", SCT), ("scanNumber / scanString / scanRawString / scanChar / scanComment", SCT), ("switch2/3/4 operator munching", SCT)],
  ["Matcher.Tokenize", "Scanner.Scan"],
  bound="Oracle: an independent reference lexer. Bounds: 2-6 bytes after a prefix, per alphabet.")

P("S02", "Tokens tile the source and a scanner can be reused",
  """Tokens come out in source order without overlapping, each token's end lies at the end of its text, the text between tokens consists of blanks and comments only,
  and scanning always reaches the end of the source. A scanner initialised again on another source behaves like a new one.""",
  "every source up to the stated length over each alphabet, all four scan modes, and every way of abandoning one scan to start another",
  TEST + "; no test compares positions with the text, and none reuses a scanner after a partial or failed scan.",
  [SCT, "tpl/token.go"], [("next/offset bookkeeping", SCT), ("Token.End", "tpl/token.go"), ("Scanner.Init", SCT)],
  ["Scanner.Scan", "Token.End"], over=("inputs", "histories"),
  bound="Bounds: 2-6 bytes per alphabet; reuse: 8 first sources x 0-2 scans x second sources of <= 3 bytes.")

P("S03", "Semicolons are inserted at line ends exactly where the rule says",
  """With semicolon insertion switched on, a semicolon token appears at a line end or at the end of the source exactly when the last token on the line is an identifier, a literal,
  an increment/decrement or a closing bracket, also when comments stand in between or when a comment contains the line break. Without it no semicolon is ever added.""",
  "every source up to the stated length over blank, comment, operator and ASCII alphabets behind every kind of preceding token, with comments requested or skipped",
  "Tests use one layout; the claim depends on the interplay of every preceding token kind with every sequence of blanks, comments and line breaks.",
  [SCT], [("insertSemi flag and findLineEnd", SCT)], ["Scanner.Scan"], over=("inputs", "configurations"),
  bound="Oracle: reference lexer. Bounds: 3-5 bytes behind 1-9 prefixes.")

P("S04", "A malformed source is reported as an error, a well-formed one is not",
  """The scanner reports an error if and only if the source contains something malformed (an unterminated literal or comment, an illegal number, escape, character, byte order mark, null byte or encoding),
  the first error points into the malformed item, and tokenizing a document fails in exactly these cases. No input makes the scanner panic.""",
  "every source up to the stated length over the ASCII, number, string, escape, comment and UTF-8 alphabets and all scan modes",
  "The tests contain no malformed input at all.",
  [SCT, "tpl/match.go"], [("error callback and ErrorCount", SCT), ("scanEscape, scanMantissa, digitVal", SCT), ("Tokenize onError", "tpl/match.go")], ["Matcher.Tokenize", "ScanErrorHandler"],
  bound="Oracle: reference lexer. Bounds: 2-6 bytes per alphabet; UTF-8: one rune of 2-4 arbitrary high bytes.")

P("S05", "Token kinds and spellings correspond one to one; keywords are exact",
  """Every token kind translates to its spelling and back to itself, every documented operator has its own kind and its length, and kinds outside the table are rejected or have length 0.
  A quoted word in a grammar becomes a keyword with a kind of its own, and exactly the identifiers equal to that word get this kind.
  A scanner supplied by the caller decides in place of this which words are tokens, in grammars and in sources.""",
  "every 64-bit kind, every literal of up to 3 bytes, every set of three keywords of up to two letters against every source of up to three bytes; three scanners, each with every grammar of two words and every source of two",
  "Tests print a handful of tokens and use a handful of keywords.",
  ["tpl/token.go", "tpl/compiler.go"], [("tokens table, Token2Lit, Lit2Token, TokenLen", "tpl/token.go"), ("AutoKwScanner keywords", "tpl/compiler.go")], ["Scanner.Ttol", "Scanner.Ltot"],
  bound="Kinds: all 2^64; literals <= 3-4 bytes; keywords of 1-2 letters over {a,b,_}.")

P("S06", "Positions, lines and source text of tokens are those of the input",
  """The line and column of every token are those of its first byte in the source, also after raw strings and comments that span lines; a line comment that names a file and a line moves what follows it.
  The source text of a run of tokens reaches from its first token to the start of the token after it (or the end of the source), and file name and line reported for it are those of its first token.""",
  "every source up to the stated length over texts with line breaks, raw strings and comments; every subrange of its tokens; line comments with up to three symbolic digits, with new and used scanners",
  "Tests never look at lines or at the source text of token ranges.",
  ["tpl/scanner.go", "tpl/grammar.go", "tpl/token.go"], [("file.AddLine in next()", SCT), ("Source / FileLine", "tpl/scanner.go")], ["Source", "FileLine", "token.File"],
  bound="Bounds: texts of up to 4-5 bytes after a prefix.")
