P("I01", "A mark calls its function with what the function asks for",
  """While a grammar is matched, the function of a mark is called once per match of the marked part, in order; it gets the interpreter or its stack, and the value, the tokens, the length, the engine or the context of that match, whichever its parameters ask for, while a plain function takes its operands from the stack and puts its results back in order.
  A mark without a usable function is rejected when the interpreter is made, and a call that cannot be done is reported at the match.""",
  "every source of up to the stated number of symbolic bytes, matched by every listed combination of marked grammar and kind of function, every number of operands on the stack",
  "Tests run fixed expressions through the shipped calculators, which use a few of the kinds of function.",
  ["tpl/interpreter/interpreter.go", "tpl/interpreter.util/call.go"], [("New and the marker it installs", "tpl/interpreter/interpreter.go"), ("Call", "tpl/interpreter.util/call.go")], ["Engine.MatchExactly", "Engine.Eval", "Stack"], over=("inputs", "programs"),
  bound="sources <= 3 (4) bytes over the alphabet a 1 , ; with 11 marked grammars x 17 function kinds; <= 3 operands.")

P("I02", "Muted marks are not executed, all others are",
  """Between a mute mark and its unmute mark, which nest, no ordinary mark is executed; a mark whose name starts with an underscore is still executed inside one level of muting.
  Muting does not change what is matched, and every evaluation starts unmuted, even if the one before failed while muted.""",
  "every sequence of up to the stated number of tokens that mute, unmute, and carry ordinary and underscore marks, followed by every second evaluation on the same engine, with and without a match failure",
  "Muting is only exercised by the scripts of the test suite.",
  ["tpl/interpreter/interpreter.go"], [("mute counter", "tpl/interpreter/interpreter.go")], ["Engine.Eval"], over=("programs", "histories"),
  bound="first evaluation <= 4 (5) tokens, second <= 2; never more unmute marks than mute marks.")

P("I03", "Literals are converted to their exact value or reported",
  """An integer literal, decimal, octal or hexadecimal, converts to its exact value, as an integer and as a float, and one that is out of range or is no number for the type that is asked for is reported; the string value of a literal is its text.""",
  "every integer literal with up to the stated number of symbolic digits, all literals around the largest representable value, every short text over digits, letters and the point for every kind of type",
  "Tests convert a few literals.",
  ["tpl/interpreter/interpreter.go"], [("ParseInt, ParseFloat, GetValue", "tpl/interpreter/interpreter.go")], ["ParseInt", "ParseFloat", "GetValue"],
  bound="<= 4 digits, or the last one or two digits around 2^63 in each base; strconv.ParseFloat itself is an engine model.")

P("I04", "Failing functions are reported where they fail, nested evaluation is isolated",
  """An error that a function returns or panics with is reported with file and line of the match it was called for, nothing is executed after it, and a panic that is no error passes through unchanged.
  Evaluating a part of the source with another interpreter runs the functions of the part for that interpreter, starts unmuted, and leaves interpreter, mute state and source positions of the whole as they were, even if the part fails or is another text.""",
  "every source of up to the stated number of tokens and line breaks with a failing function anywhere, each way of failing; every combination of part, nesting, failure and mute state of the whole",
  "No test checks positions of runtime errors or state after a failed nested evaluation.",
  ["tpl/interpreter/interpreter.go"], [("RuntimeError, EvalCode", "tpl/interpreter/interpreter.go")], ["Engine.MatchExactly", "Engine.EvalCode", "RuntimeError.Error"], over=("inputs", "histories"),
  bound="<= 3 (4) tokens with line breaks; parts <= 3 tokens, two levels of nesting, 7 parts x 4 tokens for the mute state, 7 x 4 texts in sources of <= 4 (5) tokens for positions.")

P("I05", "Calls from the stack check number and type of arguments",
  """Calling a function or an object with a call method from the stack passes exactly its operands in order, converting numbers where a float is wanted, and puts the result in their place, for variadic functions too.
  A wrong number of arguments, a missing operand, an argument of the wrong type or something that cannot be called is reported and the function is not run.""",
  "every listed function signature with every number of arguments, every number of operands on the stack and every combination of operand types",
  "Tests call functions with the right arguments only.",
  ["tpl/interpreter.util/call.go"], [("Call, DoCall, VCall, validateType", "tpl/interpreter.util/call.go")], ["Call", "VCall"], over=("inputs",),
  bound="6 signatures, <= 3 arguments, 8 kinds of operand.")
