P("K01", "The float calculator evaluates expressions with the usual precedence",
  """For every arithmetic expression the calculator yields exactly the floating-point value of the expression under the usual precedence and left association, with operands evaluated and applied in written order, and exactly one value.
  Decimal, octal, hexadecimal, fractional and exponent literals and named constants have their usual value, and an unknown name is reported.""",
  "every expression tree with up to the stated number of operators and arbitrary float64 operands, and every literal with up to the stated number of symbolic digits",
  "Tests evaluate a few fixed expressions.",
  ["tpl/number/number.go", "tpl/interpreter/interpreter.go"], [("Grammar, Calculator and Fntable of the float calculator", "tpl/number"), ("mark dispatch", "tpl/interpreter")], ["Engine.Eval", "Calculator.Ret"], over=("inputs", "programs"),
  bound="<= 3 operators over + - * / % and signs, chains of 4; literals <= 3 (5) digits. float64 operations are IEEE (math.Mod is uninterpreted).")

P("K02", "Calculator functions compute what their names say, with checked arity",
  """Every function of the float calculator computes the mathematical function of its name from its arguments in written order, min and max take any number of arguments.
  A call with the wrong number of arguments, an unknown function and a malformed expression are reported, and whatever happened before, the next expression is evaluated as if it were the first.
  Functions of the host get their arguments in order, and succeed exactly when parameters and result are numbers of the calculator.""",
  "every documented function with arbitrary float64 arguments, every combination of function and number of arguments, and every expression text of up to the stated number of symbolic bytes",
  "Tests call two functions; errors and reuse after an error are not tested.",
  ["tpl/number/number.go", "tpl/interpreter.util/call.go"], [("Fntable", "tpl/number"), ("Call, stack handling", "tpl/interpreter.util")], ["Engine.Eval", "Calculator.Ret"], over=("inputs", "histories"),
  bound="<= 3 arguments, malformed texts <= 4 (5) bytes; math functions other than arithmetic are uninterpreted (equal arguments give equal results).")

P("K03", "The rational calculator is exact",
  """Every expression over rational operands evaluates to its exact value, in integers of any size, with the usual precedence and association, and fails only where it divides by zero.
  Evaluation never changes the operands it was given.
  A malformed expression, an unknown function, a wrong number of arguments and a result that is not rational are reported and do not disturb later expressions.""",
  "every expression tree with up to the stated number of operators over arbitrary rational operands, decimal and octal literals with symbolic digits, and the documented functions",
  "Tests evaluate one expression.",
  ["tpl/rat/big.go"], [("Grammar, Stack and Fntable of the rational calculator", "tpl/rat/big.go")], ["Engine.Eval", "Calculator.Ret"], over=("inputs", "programs"),
  bound="<= 3 operators; rationals are modelled as exact reals; literals <= 3 (4) digits plus fixed numbers beyond 64 bits; malformed texts <= 4 (5) bytes.")

P("K04", "The complex calculator evaluates expressions with the usual precedence",
  """For every expression over complex operands the calculator yields the value under the usual precedence and association; imaginary literals, real and imaginary part, construction from real parts and the named functions are what their names say.
  A malformed expression, an unknown function, a wrong number of arguments and a result that is not a number are reported and do not disturb later expressions.""",
  "every expression tree with up to the stated number of operators over arbitrary complex operands, every function with an arbitrary argument, literals with symbolic digits",
  "Tests evaluate one expression.",
  ["tpl/cmplx/cmplx.go"], [("Grammar, Stack and Fntable of the complex calculator", "tpl/cmplx")], ["Engine.Eval", "Calculator.Ret"], over=("inputs", "programs"),
  bound="<= 3 operators over + - * and signs; literals <= 3 digits; malformed texts <= 4 (5) bytes; functions of math/cmplx are uninterpreted.")
