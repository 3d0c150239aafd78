P("G01", "Generated code makes the same grammar as compiling the grammar text",
  """The code generated from a grammar text is valid Go that makes a compiler with the same rules, scanner, keywords, literals and marks as compiling the text, so both accept the same sources with the same actions, and every rule is found by its name.
  The generator rejects exactly the texts that are no grammar, and generates the same code every time.""",
  "every grammar tree of the stated depth, chains of operators, rules in every order of definition and use (also recursive), token and literal forms, arbitrary token sequences, and sources with symbolic tokens",
  "The generator has no tests; whether its output is valid and equivalent depends on the grammar.",
  ["tpl/generator/static_parser_gen.go"], [("GenStaticCode", "tpl/generator/static_parser_gen.go")], ["GenStaticCode"], over=("programs", "inputs"),
  bound="grammar trees of depth <= 2, <= 4 tokens of symbolic kind, <= 3 rules; the generated code is executed by an interpreter for the part of Go it uses, which is itself executed symbolically.")

P("G02", "A grammar in a Go package gets a static compiler that works like the grammar",
  """The generator tool finds a grammar wherever a package declares it as a string (constant, variable, in a function, in a group, raw or with escapes), and the file it writes compiles.
  The compiler in it matches the same sources with the same marks, preparation, rules and errors as one made from the text at run time, with the same scan mode.
  The interpreter in it calls the same functions on the same objects with the same arguments, reports the same failures, mutes and evaluates nested code alike, and rejects the same function tables as an interpreter made at run time.""",
  "every source of up to the stated number of tokens over each of four grammars, which have every kind of function, operator and mark between them; symbolic digits of literals; sequences of sources, failed ones included",
  "The tool and the interpreter it writes have no tests (what it wrote did not even compile).",
  ["tpl/cmd/tplgen/main.go", "tpl/cmd/tplgen/output.tpl", "tpl/generator/static_parser_gen.go"], [("findInDecl", "tpl/cmd/tplgen/main.go"), ("NewStaticInterpreter", "tpl/cmd/tplgen/output.tpl"), ("GenStaticCode", "tpl/generator/static_parser_gen.go")], ["tplgen"], over=("inputs", "histories"),
  bound="four grammars in four forms of declaration, written anew by /repo's tplgen on every run; sources <= 2-3 operators with operands (interpreter), <= 4-5 words (compilers).")
