P("X01", "An extracted document has the tree of the marked matches",
  """The document made from a source has one member for every leaf, node, array of nodes and array of values that was matched, nested as the marks were nested, with the elements of an array in the order they stand in the source whatever stands between them.
  Nothing else appears.""",
  "every source of the stated grammar (nodes, arrays of nodes, arrays of every value type, recursion) with up to the stated number of items in every order, and arbitrary characters and digits in the leaves",
  "Tests extract one document; whether elements of interleaved and nested arrays end up in the right node depends on the order of items and the nesting.",
  ["tpl/extractor/extractor.go", "tpl/extractor/document.go"], [("marks to node, array and leaf actions", "tpl/extractor/extractor.go New"), ("open node and insert position", "tpl/extractor/document.go")], ["Engine.Parse", "Engine.SafeParse"], over=("inputs", "histories"),
  bound="<= 4 (5) items over groups nested arbitrarily within that number; leaves of one symbolic byte.")

P("X02", "A leaf of an extracted document has the value and type its mark names",
  """A leaf holds the number, character, unquoted string or source text of the token that was matched, in the type its mark names, single or as element of an array.
  A token that is no value of that type is reported and gives no document, and a value function of the user is called with the type and the text of the token and its result or error is used.""",
  "every mark type, single and array, with literals of every token form of up to the stated number of symbolic bytes, including escapes, octal and out of range numbers",
  "Tests use one decimal number, one string and one name.",
  ["tpl/extractor/extractor.go"], [("GetValue and the mark suffixes", "tpl/extractor/extractor.go")], ["Engine.SafeParse"],
  bound="literals of <= 3 (4) symbolic bytes plus 22 fixed ones.")

P("X03", "Nodes of alternatives that were given up leave nothing in the document",
  """When a node or an array of nodes fails to match after parts of it have matched, the document is the one the finally chosen alternatives make: nothing of the failed node, its leaves, arrays and inner nodes is left, and nodes that were complete before stay as they were.""",
  "every source of up to the stated number of tokens over six token kinds for a grammar with nodes that share prefixes, with arbitrary digits and letters, compared with a reference that builds the document after the match",
  "Tests have no failing node; what is left behind depends on where the alternative fails.",
  ["tpl/extractor/extractor.go", "tpl/extractor/document.go"], [("commit and rollback of nodes", "tpl/extractor")], ["Engine.SafeParse"], over=("inputs", "histories"),
  bound="<= 6 (7) tokens.")

P("X04", "An extractor can be reused, takes its options, and rejects bad grammars",
  """Every source is extracted as if it were the first, whatever was extracted or failed before, and documents that were handed out never change afterwards.
  Scan mode and scanner of the options are used, and grammars with a mark that names no type are rejected when the extractor is made, not later.""",
  "every sequence of the stated number of sources that match, fail to match, fail to scan or fail to convert, every listed mark with symbolic bytes, and both scan modes",
  "Tests use every extractor once.",
  ["tpl/extractor/extractor.go", "tpl/extractor/document.go"], [("New, Parse, SafeParse", "tpl/extractor/extractor.go")], ["New", "Engine.Parse", "Engine.SafeParse"], over=("histories", "inputs", "configurations"),
  bound="<= 3 sources in a row.")
