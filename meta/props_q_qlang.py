QL = "tpl/qlang/cl/"
BI = "tpl/qlang/lib/builtin/"
QW = "No test of the repository runs a qlang script."

P("Q01", "Script operators compute the result their operand types call for",
  """Arithmetic on two integers is exact integer arithmetic, with a float on either side it is float arithmetic on both values in their order, strings are joined and compared as text, and every other combination of types, and a division of an integer by zero, is reported.
  Unary operators, increment and decrement follow the same rules, and parentheses, precedence and left associativity decide which operands belong to which operator.""",
  "every pair of values of every kind (integer, float, string of up to two bytes, byte, boolean, nil) for every operator; every expression of up to the stated number of operators over symbolic values",
  QW, [BI + "number.go", BI + "boolean.go", QL + "qlang.go"],
  [("Add, Sub, Mul, Quo, Mod, Neg, Inc, Dec", BI + "number.go"), ("LT, GT, LE, GE, EQ, NE, Not", BI + "boolean.go"), ("grammar", QL + "qlang.go")],
  ["Qlang.SafeEval", "Qlang.Ret"], over=("inputs", "programs"),
  bound="strings <= 2 bytes; expressions <= 3 operators of 12, typed integer or boolean; integers and floats over their full 64 bits.")

P("Q02", "Boolean operators evaluate the right side only if it decides",
  """The right operand of and is evaluated exactly if the left one is true, that of or exactly if it is false, whatever operators are nested in either; the value is the boolean result.
  An operand that is evaluated and is no boolean is reported, one that is not evaluated has no effect at all.""",
  "every expression of up to the stated number of boolean operators, every value of every operand, every position of an operand that is no boolean, at the top and inside functions, conditions and brackets",
  QW, [QL + "ctrl.go", QL + "qlang.go"], [("And, Or", QL + "ctrl.go")], ["Qlang.SafeEval", "calls of a host function by the operands"], over=("inputs", "programs"),
  bound="<= 3 (4) operators; 5 shapes of nesting with two operators each.")

P("Q03", "If and switch run the first branch whose condition holds",
  """An if, with any number of further conditions, and a switch, with or without a value to compare, evaluate their conditions in order up to the first that holds and run the body of that branch only, the else or default branch if none holds, and have the value of that body, or nil if none ran.
  A condition that is no boolean is reported where one is required.""",
  "every if of up to the stated number of conditions and every switch of up to the stated number of cases with symbolic conditions, nested in each other and in functions, with and without else or default",
  QW, [QL + "ctrl.go"], [("If, Switch", QL + "ctrl.go"), ("evalCondS", QL + "ctrl.go")], ["Qlang.SafeEval", "order of host calls"], over=("inputs", "programs"),
  bound="<= 3 conditions, one level of nesting; <= 2 (3) cases.")

P("Q04", "Loops repeat their body exactly while the condition holds",
  """A loop runs its first part once, then tests the condition before every round, and runs body and step in that order as long as it holds; afterwards the loop leaves nothing behind but its effects on variables, and its value is nil.
  A return inside a loop ends the function at once, a condition that is no boolean is reported.""",
  "every loop of the three forms with symbolic limits, every listed body and nesting of two loops, at the top and inside a function",
  QW, [QL + "ctrl.go"], [("For", QL + "ctrl.go"), ("evalCode", QL + "ctrl.go")], ["Qlang.SafeEval", "order of host calls"], over=("inputs", "programs"),
  bound="<= 2 (3) rounds per loop, two loops nested.")

P("Q05", "Calls bind arguments to parameters, return ends only its function",
  """A script function that is called with as many arguments as it has parameters sees them under their names, a variadic one gets the rest as a slice, which a call can also spread, and any other number of arguments is reported before the body runs.
  The value is that of the return that is reached, which ends this function and no other, or of the body's last statement; recursion keeps the variables of every call apart.""",
  "every number of parameters and arguments up to the stated bound, fixed, variadic and spread, with symbolic values; return at every position of nested statements; recursive functions for every symbolic depth within the bound",
  QW, [QL + "function.go", QL + "qlang.go"], [("Function, Call, Return", QL + "function.go"), ("VCall", QL + "qlang.go")], ["Qlang.SafeEval"], over=("inputs", "programs"),
  bound="<= 3 parameters, <= 4 arguments, recursion <= 4 deep, return at 6 kinds of position.")

P("Q06", "Variables belong to the function that first assigns them",
  """A function sees the variables of the functions around it, the innermost first, and once it has read one an assignment changes that very variable; an assignment without reading it first is reported, a name that exists nowhere around is made local, one that begins with an underscore is private to its function, and reading a variable that does not exist, or was removed, is reported.
  A function keeps the variables around it alive, shares them with others made in the same call, and has its own from every call.""",
  "every sequence of up to the stated number of assignments, reads, increments and unsets at three levels of nested functions; every sequence of calls of closures made by two calls of one function",
  QW, [QL + "function.go"], [("getVars, getRef, getVar, Unset", QL + "function.go")], ["Qlang.SafeEval", "Qlang.Var"], over=("inputs", "programs", "histories"),
  bound="4 names, 5 kinds of step at each of three levels; 5 kinds of step with unset at five places; <= 4 calls of closures.")

P("Q07", "Deferred expressions run once, last first, however the function ends",
  """Every expression that a function or a script defers is evaluated exactly once when it ends, in reverse order, whether it ends by its last statement, a return or an error, and the value of the function stays what it was.
  Recover stops the error of the function that deferred it and yields it, an error in a deferred expression does not keep the others from running and replaces an error that came before it, and neither kind of end affects the caller beyond the error it gets.""",
  "every sequence of up to the stated number of statements that log, defer, fail, return, recover or call in a function, in a function called by another that defers too, and in a script",
  QW, [QL + "function.go", "tpl/qlang/engine.go"], [("Defer, ExecDefers, Recover, Call", QL + "function.go"), ("SafeExec", "tpl/qlang/engine.go")], ["Qlang.SafeEval", "order of host calls"], over=("inputs", "programs", "histories"),
  bound="<= 3 (4) statements of 9 kinds.")

P("Q08", "Methods act on their object, objects are separate",
  """A method called on an object sees that object and the arguments, also as a method value, from other methods and from closures it makes, and what it assigns to members is seen through every reference to that object and no other; the constructor gets the arguments of the creation.
  A member that does not exist, a method that is replaced, a wrong number of arguments and a creation from something that is no class are reported.""",
  "every sequence of up to the stated number of uses of two objects with symbolic members, in eighteen forms; every listed form of creation",
  QW, [QL + "class.go", QL + "function.go"], [("Class, New, MemberRef, MemberFuncDecl, SetMemberVar", QL + "class.go")], ["Qlang.SafeEval"], over=("inputs", "histories"),
  bound="<= 2 (3) uses, 18 forms; 11 forms of creation.")

P("Q09", "Slices, maps and assignments hold exactly what was put in",
  """A slice or map literal has its elements, in the element type they have in common; an index or a part yields exactly the elements between its limits and is reported if there are none, a missing key is undefined, and setting, appending and deleting change nothing else.
  An assignment of several values gives each variable the value at its place, all read before any is written, a different number of values is reported, and an assignment with an operator is that operator applied to the variable.""",
  "every literal of up to the stated number of elements of every kind, every 64 bit index and pair of limits, every change; every assignment of up to the stated number of variables and values",
  QW, [BI + "builtin.go", QL + "function.go"], [("SliceFrom, MapFrom, Get, Set, SubSlice, Append, Delete", BI + "builtin.go"), ("MultiAssign, AddAssign and the others", QL + "function.go")], ["Qlang.SafeEval", "Qlang.Var"], over=("inputs", "programs"),
  bound="<= 3 elements, <= 2 map entries, elements of 5 kinds; <= 3 variables, <= 4 values.")

P("Q10", "Host functions and objects can be used from a script as from Go",
  """A host function gets the arguments of the call in order, integers converted where floats are wanted, and its results come back as integers, floats or what they are, several of them as a slice; the wrong number or types of arguments are reported and the function is not called.
  Fields and methods of host objects are those of the object, a failing host function is reported to whoever runs the script or can be recovered, and the interpreter stays usable.""",
  "every function signature listed with every number and kind of symbolic arguments; every way of failing in every listed position; every listed use of members, with and without automatic calls",
  QW, [QL + "qlang.go", QL + "class.go", "tpl/interpreter.util/call.go"], [("PushRet, castVal, VCall", QL + "qlang.go"), ("MemberRef", QL + "class.go"), ("Call", "tpl/interpreter.util/call.go")], ["Qlang.SafeEval", "arguments seen by the host"], over=("inputs", "programs"),
  bound="21 results, 6 signatures with <= 3 arguments of 5 kinds, 5 failures x 4 positions, 9 uses of members.")

P("Q11", "Imported modules are separate and never replaced",
  """A module that is imported is seen under its name with exactly the symbols it has, a name that is taken, by a module or a symbol, is rejected and what was there stays as it is.
  In safe mode a module decides by its initialiser what it offers, and one whose initialiser cannot be used is rejected.""",
  "every combination of safe mode, initialiser, name and symbol listed, with symbolic values",
  QW, ["tpl/qlang/spec/spec.go"], [("Import", "tpl/qlang/spec/spec.go")], ["Import", "Qlang.SafeEval"], over=("inputs", "configurations"),
  bound="two modules, 3 initialisers, 5 names of symbols.")

P("Q12", "An interpreter can be used again after every script, whatever it did",
  """After a script that succeeds, fails or panics anywhere, the next script on the same interpreter behaves exactly as it would after the variables it left, with nothing left over from before: no values, no deferred expressions, no errors, no muting.""",
  "every sequence of up to the stated number of scripts of twelve kinds with symbolic values, compared with a reference interpreter",
  QW, [QL + "function.go", QL + "ctrl.go", "tpl/qlang/engine.go"], [("SafeExec", "tpl/qlang/engine.go"), ("evalCode", QL + "ctrl.go"), ("Clear", QL + "function.go")], ["Qlang.SafeEval", "Qlang.Ret", "Qlang.Var"], over=("histories", "inputs"),
  bound="<= 3 scripts of 12 kinds.")

P("Q13", "Conversions, extremes and constructors give what they name",
  """Converting a number to integer, float or byte keeps a value that fits, converting a character gives its text, the length is the number of bytes or elements, and what has no such conversion is reported.
  The largest and smallest of numbers is one of them with none beyond it, as integer if all are, and a collection is made with the type, length and capacity that were asked for; an error a script raises is the one it gets.""",
  "every value of every kind for every conversion; every one to three numbers; every listed constructor",
  QW, [BI + "number.go", BI + "builtin.go"], [("Int, Float, Byte, String, Max, Min", BI + "number.go"), ("Slice, Mkmap, MapFrom", BI + "builtin.go")], ["Qlang.SafeEval"],
  bound="strings <= 2 bytes, floats only whole numbers from 0 to 255 where they are converted; three numbers only of one kind.")

P("Q14", "An interpreter defined by a script calls what its marks name, in order",
  """When a script object defines an interpreter, every mark that matched calls its function once and in order: a method of the stack or of the object with what the name of the mark asks for (text, number, source, length, engine), any other function - of the script or of the host - with the operands popped from the stack, its result pushed.
  Muted marks call nothing, numbers that cannot be converted and functions that fail are reported, and the next source is evaluated as if it were the first.""",
  "every sequence of up to the stated number of tokens of sixteen kinds with symbolic digits and letters, all nestings of muted parts, sources after failed ones, and every arithmetic expression of a calculator written in a script over arbitrary float64 operands",
  "No test runs a script-defined interpreter.",
  ["tpl/qlang/cl/interpreter/interpret.go"], [("marks to calls, callFn and callVfn", "tpl/qlang/cl/interpreter/interpret.go"), ("mute", "tpl/qlang/cl/interpreter/interpret.go newEngine")], ["Engine.Eval", "Engine.Exec"], over=("programs", "inputs", "histories"),
  bound="<= 2 (3) tokens after <= 2 operands, <= 4 (5) tokens for mute, 2 sources in a row, expressions of <= 2 (3) operators.")

P("Q15", "Code can be evaluated for another object; what is no interpreter is rejected",
  """Code that is evaluated for another object in the middle of a source calls the methods with that object, starts unmuted, and leaves the engine with the object and the mute state it had, also if the code fails or does not match, which is reported.
  An object that lacks a method, gives it another type, or has a mark without a usable function is rejected when the interpreter is made.""",
  "every code of up to the stated number of tokens of seven kinds as text or tokens, evaluated for the same or another object in an outer source muted zero, one or two times; and every listed way in which an object fails to define an interpreter",
  "No test runs a script-defined interpreter.",
  ["tpl/qlang/cl/interpreter/interpret.go"], [("EvalCode, New", "tpl/qlang/cl/interpreter/interpret.go")], ["Engine.EvalCode", "New"], over=("programs", "histories"),
  bound="<= 2 (3) tokens of code, 24 objects times 5 missing methods.")

P("Q16", "Literals of a script have the value that is written",
  """A character literal is the byte it shows or its escape stands for, a string literal the sequence of its characters with every escape replaced by what it stands for, a raw string exactly what is between the quotes, and a number the value of its digits in the base its prefix names.
  A literal that is malformed, a character of more than one byte and a number that cannot be kept are reported, never read as something else.""",
  "every character and string literal of up to the stated number of arbitrary bytes or of escapes with symbolic digits, every integer of up to three symbolic digits in three bases, and the numbers at the limits",
  QW, [QL + "qlang.go", "tpl/interpreter/interpreter.go", "tpl/scanner.go"], [("PushByte, PushString", QL + "qlang.go"), ("ParseInt, ParseFloat", "tpl/interpreter/interpreter.go")],
  ["Qlang.SafeEval", "Qlang.Ret"], over=("inputs",),
  bound="<= 2 (3) arbitrary bytes of valid UTF-8, <= 2 escapes; <= 3 digits; 16 numbers at the limits; \\\\u in character literals is left open.")

P("Q17", "A failing script names the file and line of the step that failed",
  """A failure in a script is reported with the name of the script and the line of the step that failed, whatever statements, functions, methods or deferred expressions it is nested in.
  This holds as well for functions and methods that an earlier script defined, for scripts that called such functions before they fail, and however many scripts run before the report is read.""",
  "every nesting of two of nine constructs around each of three failing steps, one of which fails for one value of a symbolic operand, in a script or in a function, closure or method of an earlier script",
  QW, [QL + "function.go", QL + "class.go", "tpl/interpreter/interpreter.go", "tpl/match.go"], [("Function.Call, sourceOf", QL + "function.go"), ("RuntimeError", "tpl/interpreter/interpreter.go"), ("Snapshot, SwitchSource", "tpl/match.go")],
  ["Qlang.SafeExec", "error text"], over=("inputs", "programs", "histories"),
  bound="two nested constructs of nine, five places, three failing steps.")
