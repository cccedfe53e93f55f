prop("C01", "XML parsing always terminates and never accepts broken markup",
     "For every input string the SAX decoder reaches the end of input in a number of tokens linear in its length, and neither it nor new_document() panics or loops. A document with an end tag that does not match the innermost open element, an unterminated comment, CDATA section, processing instruction, tag or attribute value, a tag without a name, or stray characters inside a tag is rejected with an error.",
     ["inputs"], "every input string; checked for all ASCII strings of up to 3 (thorough 4) bytes in 16 lexical contexts and all malformed constructs with up to 3 (5) arbitrary bytes",
     "The tests parse a handful of well-formed documents; the state machine has many EOF and junk-character paths that no example reaches.",
     [SAX, DOM], [("character-level tokenizer", SAX + " SaxDecoder::raw_token"), ("tree building and tag matching", DOM + " new_document")], ["SaxDecoder::raw_token", "new_document"])
prop("C02", "Parsing and serialising a document are exact inverses",
     "A well-formed document, in whichever lexical form (quotes, white space in tags, self-closing tags, CDATA, character references, directives), parses to exactly its tree and its token sequence, and the serialised form of any parsed document parses back to the same tree. Nothing is lost, duplicated, reordered or invented: element and attribute names, attribute order, text, CDATA, comments and processing instructions; line ends (CR LF or CR alone) read as one LF.",
     ["inputs"], "all documents; checked for every tree of up to 4-5 nodes of 4 kinds with symbolic names, attributes and text, every lexical variant of them, and every accepted string of up to 2-3 free ASCII bytes in 16 contexts, plus every Unicode character",
     "Round trip must hold for every combination of constructs and content characters; the tests compare a few fixed strings.",
     [SAX, DOM], [("tokenizer", SAX), ("tree construction", DOM + " new_document"), ("serialisation", DOM + " to_string")], ["new_document", "to_string", "SaxDecoder::raw_token", "children/attributes/value"])
prop("C03", "Entity and character references decode exactly once; output is escaped",
     "In text and attribute values each predefined entity and each decimal or hexadecimal character reference decodes to exactly its character, once, and any other ampersand text is kept verbatim. On output every character that is markup in that position is escaped, so that for every attribute value and text content serialising and parsing gives the same characters back.",
     ["inputs"], "every string of content characters; checked for all reference-shaped strings of up to 3-6 symbolic bytes and all ASCII values of up to 3-5 bytes, and every Unicode character",
     "Double decoding and missing escapes show only for particular adjacent characters (such as an encoded ampersand followed by an entity name), which no test contains.",
     [SAX, DOM, HELP], [("reference decoding", SAX), ("output escaping", DOM)], ["new_document", "attribute_value", "set_attribute", "value", "to_string"])
prop("C04", "DOM navigation agrees with the document's tree",
     "For every document and node, parent(), children(), nth_child(), first_child(), root(), root_element(), attributes(), attribute_value(), name(), value(), to_string() and inner_xml() describe one and the same tree, document order strictly increases along the document (attributes after their element, before its children), and a node whose document was dropped still answers every query without panicking. local_name() and space_name() split the name at its first colon and namespace_uri() is the innermost declaration of that prefix in scope, or empty.",
     ["inputs"], "every document tree and node; checked for all trees of up to 5-6 nodes of 4 kinds with up to 2 attributes per element, and all placements of default and prefixed namespace declarations on 3 levels",
     "The tests look at single nodes of a few fixed documents; agreement must hold at every node of every shape.",
     [DOM], [("node arena with weak parent links", DOM), ("lazy document order", DOM + " document_order"), ("namespace lookup", DOM + " namespace_uri")], ["NodePtr methods"])
prop("C05", "Editing the tree behaves like editing a list model, in every order",
     "After any sequence of append_child, insert_as_previous_sibling, insert_as_next_sibling, delete_child, replace_with, set_attribute and delete_attribute the document equals the tree obtained by applying the same edits to an ordered-tree model: inserted subtrees arrive complete at the requested place, nothing else moves, and nodes that stay keep their identity. Navigation, document order, serialisation and XPath then see the edited tree, whether or not document order had been computed before; appending a node that is already in a tree moves it, and never creates a cycle.",
     ["histories"], "every sequence of edits; checked for all sequences of up to 2 operations over all targets of a 5-node document with symbolic attribute values, with document order computed before or not, and all moves of detached or attached nodes",
     "The tests apply single edits; cached document order and parent links go wrong only for particular sequences.",
     [DOM], [("child and attribute lists, parent links, order cache", DOM)], ["append_child", "insert_as_previous_sibling", "insert_as_next_sibling", "delete_child", "replace_with", "set_attribute", "delete_attribute"])
prop("C06", "Indented serialisation is exact and only adds white space",
     "For every document and every subtree, to_pretty_string() puts each tag pair, text, comment and processing instruction on its own line, indented four spaces per level from column 0, with self-closing tags for childless elements. Reading it back gives the same tree up to white space around text.",
     ["inputs"], "every document; checked for all trees of up to 5-6 nodes of 4 kinds with up to 2 attributes and markup characters in values",
     "The tests print a few fixed documents; nesting, mixed content and subtrees interact.",
     [DOM], [("recursive printer with indentation", DOM + " to_pretty_string")], ["to_pretty_string"])
prop("C07", "Exactly the name characters of the standards form names",
     "A single character is accepted at the start of, or inside, an element or attribute name of an XML document exactly when XML 1.0 (appendix B) makes it a name-start or name character there, and the name arrives unchanged.",
     ["inputs"], "every Unicode character (all UTF-8 lengths) at both positions of element and attribute names",
     "The classes are tables of hundreds of ranges; tests use a few ASCII and Japanese names.",
     [SAX], [("character class tables", SAX)], ["new_document", "name()"])
prop("C08", "XPath node results: each node once, in document order",
     "For every document and context node, a path expression of any two axes, in abbreviated, parenthesised or absolute form, and the operators |, union, intersect and except on any node sequences, return exactly the nodes the XPath standard defines, each once, in document order. Anything but a node on the left of / or in a set operation, or a path that yields both nodes and other items, is an error; a path that yields other items only keeps them all in order. Each step is evaluated once for each node of the path before it, whose number and order are what last() and position() tell it. is, << and >> agree with node identity and that order. An abbreviated path means its long form.",
     ["inputs"], "every document, context node and node sequence; checked for all documents of up to 4-5 nodes (4 kinds, attributes), every pair of 12 axes, node sequences of up to 2 items with duplicates",
     "Duplicates and wrong order appear only when steps overlap (reverse axes, nested matches, attributes); the tests use few trees and paths.",
     [EVAL, FUNC, OPER, DOM], [("path operator, sorting and duplicate removal", EVAL + " OperatorPath, sort_by_doc_order"), ("set operators", OPER), ("document order", DOM + " document_order")], ["eval_xpath", "get_nodeset", "each_node"])
prop("C09", "Axes, node tests and node functions select what the standard says",
     "From every node of every document each of the twelve axes combined with each node test (node(), *, name, text(), comment(), processing-instruction(), element()/attribute()) selects exactly the nodes the standard defines. string(), data(), name(), local-name(), root(), string-length(), the parent and the ancestors of every node are those of the standard.",
     ["inputs"], "every document, node, axis and node test; checked for all documents of up to 5 nodes of 4 kinds with up to 2 attributes, all 12 axes, 7 tests",
     "12 axes times 7 tests times every position in a tree: tests sample a few.",
     [EVAL, FUNC, DOM, ITEM], [("axis walkers", EVAL + " match_loc_step"), ("node tests", EVAL + " match_name_test, match_kind_test"), ("string value", ITEM + " string_value")], ["eval_xpath"])
prop("C10", "Predicates keep exactly the items for which they hold",
     "A numeric predicate, position() and last() count along the direction of the axis and per context node of the step (along the sequence for parenthesised expressions); any other predicate keeps the items whose effective boolean value is true; chained and nested predicates compose, and whatever an inner expression does to the focus ends with it. This holds for every integer or double used as a position, including fractions, zero, negatives and values beyond the sequence.",
     ["inputs"], "every document, context node, and 64-bit integer or double position; checked for documents of up to 5 nodes, 12 axes, 12 positional forms and 14 non-positional expressions",
     "Reverse axes, chained predicates and unusual positions interact; the tests use small constants.",
     [EVAL, PAR], [("predicate evaluation with position and last", EVAL + " filter_by_predicates"), ("reverse-axis marking", PAR + " parse_node_test")], ["eval_xpath"])
prop("C11", "Integer arithmetic is exact or an error, never wrong or a crash",
     "For all 64-bit integers the operators + - * idiv mod, unary - and +, abs, floor, ceiling and round return the mathematically exact integer (idiv truncating, mod with the sign of the dividend), and raise an error when the result is no 64-bit integer or the divisor is zero. They never wrap around and never panic.",
     ["inputs"], "all pairs of 64-bit integers, without restriction",
     "Overflow and the smallest integer are single points among 2^128 operand pairs.",
     [OPER, FUNC], [("checked integer operators", OPER)], ["eval_xpath"])
prop("C12", "Decimal and double arithmetic and rounding are exact to the last bit",
     "+ - * div, unary minus and abs on decimals and doubles (and integers promoted to them) give the IEEE 754 correctly rounded result in the wider type, with NaN, infinities and signed zeros as in the standard; dividing by an integer or decimal zero is an error. floor, ceiling and round (halves up) return the exact integral value for every operand; idiv is the truncated quotient or an error; mod is the exact remainder with the sign of the dividend.",
     ["inputs"], "all finite decimals and all double bit patterns for + - * div, abs, floor, ceiling, round and idiv by chosen divisors; chosen representatives for mod and for integers meeting other types",
     "Rounding bugs show only at particular bit patterns (such as 0.49999999999999994).",
     [OPER, FUNC, ITEM], [("numeric promotion and operators", OPER), ("rounding functions", FUNC)], ["eval_xpath"])
prop("C13", "Comparisons follow one consistent order on every type",
     "eq ne lt le gt ge on two values of comparable type give the mathematical, codepoint or boolean comparison (everything but ne false with NaN); values of different kinds are an error; an empty operand gives the empty sequence and several items an error. = != < <= > >= hold exactly when some pair of items, one from each side, compares so, and never for an empty side.",
     ["inputs"], "all integers, decimals, doubles and booleans and all strings of up to 2-3 characters over 'abz'; sequences of up to 3 by 2 items",
     "NaN, infinities, precision at large integers, mixed types and existential pairs need particular operand combinations.",
     [SEQ, ITEM], [("value comparison", SEQ + " value_compare"), ("general comparison", SEQ + " general_compare")], ["eval_xpath"])
prop("C14", "Conditions are decided by the effective boolean value everywhere",
     "boolean(), not(), and, or, if, predicates, some, every and filter() all decide by the effective boolean value of the standard (numbers false for 0 and NaN, strings when empty, node sequences when empty) for every value, and raise an error for sequences that have none. and binds tighter than or, and only the chosen branch of if is evaluated.",
     ["inputs"], "all integers, decimals, doubles, booleans, strings of up to 2 characters, sequences of up to 2 items; all truth values for the connectives",
     "Each place that tests a condition could differ from the others on NaN, zero, empty strings or sequences.",
     [SEQ, EVAL, FUNC], [("effective boolean value", SEQ + " effective_boolean_value"), ("logical operators and if", EVAL)], ["eval_xpath"])
prop("C15", "String functions count and cut by characters, for every string",
     "substring, string-length, contains, starts-with, ends-with, substring-before, substring-after, translate, concat, ||, string-join, upper-case, lower-case, compare, codepoint-equal, string-to-codepoints and codepoints-to-string give what the standard defines on sequences of characters, whatever their UTF-8 length and for every start and length (fractions, NaN and infinities included); empty arguments count as empty strings; they never panic.",
     ["inputs"], "all strings, positions and lengths; checked for strings of up to 2-4 characters of 1-4 bytes each with symbolic content, every double as start or length (the other one of 9 representatives), every integer as code point",
     "Multi-byte characters, half-way roundings, overlaps and repeated letters need particular combinations that the tests do not contain.",
     [FUNC], [("string functions", FUNC + " fn_substring .. fn_translate"), ("code points", FUNC + " fn_codepoints_to_string")], ["eval_xpath"])
prop("C16", "Sequence functions select and place exactly the right items",
     "head, tail, reverse, insert-before, remove, subsequence, index-of, count, empty, exists, zero-or-one, one-or-more, exactly-one, the comma and the range operator give exactly the items of the standard in order, for every position, start and length (out of range, negative, fractional, NaN and infinite included), whatever the items are; sequences never nest.",
     ["inputs"], "all sequences and positions; checked for sequences of up to 3 items of 5 types with symbolic content, every integer position, every double start and length (the other one of 9 representatives), ranges of up to 4 integers",
     "Boundary positions and mixed item types multiply; the tests use a few middle positions.",
     [FUNC, SEQ, OPER], [("sequence functions", FUNC), ("range operator", OPER + " op_to"), ("item equality", FUNC + " fn_index_of")], ["eval_xpath"])
prop("C17", "Aggregates give the exact sum, average, maximum and minimum",
     "sum, avg, max and min of integers are exact or an overflow error; of decimals and doubles they are the IEEE result of the additions in order and the true extreme, NaN whenever an item is NaN; of strings the extreme in codepoint order; nodes count with their numeric value; numbers of different types give a result of their common type; of nothing sum is 0 or the given value and the others are empty.",
     ["inputs"], "all sequences of numbers; checked for up to 3 integers (all values), up to 2-3 decimals or doubles (every bit pattern), up to 4 strings of one symbolic letter, up to 2 (3) items of mixed kinds out of 13 values",
     "NaN and overflow depend on where in the sequence a value stands.",
     [FUNC], [("aggregate functions", FUNC + " fn_sum, fn_avg, fn_max, fn_min")], ["eval_xpath"])
prop("C18", "Casts accept exactly the lexical space and keep the value",
     "cast as and castable as to string, integer, decimal, double and boolean, and number() and string(), agree with each other: a string or node casts exactly when, without surrounding white space, it is a lexical form of the type, with exactly the value it denotes; numbers cast to another type when the value exists there (truncated for integer), booleans are 1 and 0; a number turned into a string and back is the same; the empty sequence casts only with ?, several items never.",
     ["inputs"], "all strings and values; checked for all strings of up to 3 characters over four alphabets of digits, signs, points, exponents and white space, words such as INF, NaN, inf, true and 60 near misses, all integers, decimals and doubles",
     "Acceptance of every malformed spelling cannot be enumerated by examples, and castable can drift from cast.",
     [ITEM, SEQ, FUNC], [("casting", ITEM + " cast_as"), ("lexical forms", ITEM + " parse_double"), ("occurrence", SEQ + " cast_as")], ["eval_xpath"])
prop("C19", "Maps and arrays return exactly what was stored, for every key",
     "A map built from any keys of any atomic types contains one entry per key and map:get, the call, the lookup operator, map:contains, map:keys, map:size and the wildcard agree on its content; keys are equal as in the standard (numbers across types, NaN to itself, never across kinds); a repeated key is an error and an absent one gives nothing. An array keeps its members, each any sequence, in order; any index outside it is an error; lookups reach through nesting; arrays are atomized and compared by their members.",
     ["inputs"], "all keys and members; checked for maps of up to 3 entries with symbolic integer, string, boolean, double and decimal keys, probed with any key, arrays of up to 3 members",
     "Agreement of six access paths over all keys and types, not only the literal keys in the tests.",
     [ITEM, EVAL, FUNC, PAR, LEX], [("maps and arrays", ITEM + " XSeqMap, XSeqArray"), ("key equality", ITEM + " op_same_key"), ("constructors, lookup and call", EVAL), ("atomization", SEQ)], ["eval_xpath"])
prop("C20", "XPath expressions are read exactly as the grammar says",
     "Every string is either compiled or reported as a syntax error, in finite time and without a panic: accepted exactly when it is an expression of the implemented XPath grammar. Operators bind by their precedence and associativity, comparisons and ranges do not chain, if/for/let/some/every extend as far right as possible and are no operands. White space and comments (also nested) between tokens change nothing. Every word of the syntax is an ordinary name wherever a name is expected. String and integer literals denote exactly what they spell.",
     ["inputs"], "every string; checked for all ASCII strings of up to 2 (3) characters in 24 contexts, 36 expressions covering every construct with 1 (2) arbitrary characters inserted, replaced or removed anywhere, all pairs of 38 operators over symbolic operands, 58 words in 42 uses",
     "A tokenizer that rewrites words by their neighbours has countless neighbourhoods; the tests contain a few hundred well-formed expressions and hardly any malformed one.",
     [LEX, PAR, EVAL], [("tokenizer and disambiguation of names", LEX + " rewrite_operator_type, rewrite_name_and_symbol"), ("recursive-descent parser", PAR), ("evaluation of the syntax tree", EVAL)], ["eval_xpath"])
prop("C21", "Variables and functions follow lexical scope; arguments bind by position",
     "A name denotes the innermost binding (let, for, some, every, parameter) whose scope encloses it, and is an error outside; bindings end with their scope, whatever the result. An inline function, called anywhere and any number of times, sees the variables of its definition and its arguments, never those of the caller. Partial application keeps the given arguments and takes the rest in order; named references, partial applications, maps and arrays behave as functions of their arity; an arrow call passes its left side first. Wrong numbers of arguments and calls of something that is no function are errors.",
     ["inputs"], "all programs; checked for programs built from 45 productions (90 shapes with up to five nested productions, every choice of binder and variable names, every production in place of 'any') over symbolic integers, against a reference interpreter",
     "Scoping errors need an inner name that coincides with an outer one, or a function that outlives its scope; the tests name everything differently.",
     [EVAL, PAR, FUNC], [("variable environment", EVAL + " set_var, get_var, remove_var"), ("calls and closures", EVAL + " call_function, call_inline_func"), ("partial application", EVAL + " apply_argument, fill_placeholders"), ("arity checks", PAR + " new_function_call")], ["eval_xpath"])
prop("C22", "Namespaces and languages are those of the innermost declaration",
     "namespace_uri() and namespace-uri() of every element and attribute are the innermost declaration in scope for its prefix (none for an attribute without prefix, a text or a comment; xml is predeclared); the name tests Q{uri}name, Q{uri}*, prefix:* and *:name select exactly the elements or attributes whose namespace, prefix or local name is that one; lang() holds exactly when the innermost xml:lang is the language or a variant of it, ignoring case.",
     ["inputs"], "all documents; checked for elements nested up to 2-3 deep with every combination of declarations of the default and two prefixes with symbolic values, and xml:lang values of up to 3 symbolic letters on two levels",
     "Shadowing and undeclaring depends on combinations of levels that the tests never nest.",
     [DOM, EVAL, FUNC], [("namespace lookup", DOM + " namespace_uri"), ("name tests", EVAL + " match_name_test"), ("language", FUNC + " fn_lang")], ["namespace_uri", "eval_xpath"])
prop("C23", "Iteration visits every item once, in order, with the right focus and bindings",
     "for, !, for-each, filter, predicates, some, every, if and let evaluate their body exactly for the items the standard names: results are appended in order without nesting, several for clauses vary the last one fastest, some and every are the disjunction and conjunction over all tuples, if evaluates the chosen branch, ! and predicates set context item, position and size; equivalent formulations (nested for and for with two clauses, for-each and !, filter and predicate, every and not some not) give the same result, nested in any way.",
     ["inputs"], "all sequences and bodies; checked for sequences of up to 3 (4) items with symbolic content, all pairs of 2 sequences, and programs of 47 shapes with every production in the body over symbolic integers, against a reference interpreter",
     "Order, flattening and focus go wrong in combinations (a loop in a loop in a predicate) of which tests hold a handful.",
     [EVAL, FUNC, PAR], [("for, let, quantified and conditional expressions", EVAL), ("simple map and focus", EVAL + " filter_by_predicate"), ("for-each, filter", FUNC + " fn_for_each, fn_filter")], ["eval_xpath"])

prop("C24", "Values are instances of exactly the sequence types that describe them",
     "v instance of T is decided by the number of items and by each item's kind: atomic values by derivation (integer from decimal from numeric), nodes by kind and name, maps and arrays by their keys and members, functions by their signature; a function type accepts exactly the functions whose result type is a subtype and whose argument types are supertypes of its own, with the same number of arguments, for inline functions, named functions with their standard signatures, and partially applied ones. Arguments and results of inline functions are converted to the declared types (atomized, node values cast, numbers promoted to double); a value that does not fit is an error, never passed on.",
     ["inputs"], "all values and types; checked for sequences of up to 3 items of 16 kinds with symbolic content, maps and arrays nested to depth 2, types nested to depth 2 with every occurrence indicator, 75 named functions and all their partial applications, against a reference for matching and subtyping; document-node(), schema types and coercion of functions are left out, and so are maps and arrays against function types where amxml's own tests fix another rule than the standard",
     "Matching is a product of kinds of values and kinds of types, the subtype relation a product of two types; the tests hold about 60 pairs.",
     [EVAL, FUNC, PAR], [("instance of and subtypes", EVAL + " match_sequence_type, subtype"), ("signatures of functions", FUNC + " FUNC_SIGNATURE_TBL"), ("conversion of arguments and results", EVAL + " call_inline_func")], ["eval_xpath"])

prop("C25", "Every entry point reports the same result, in the documented notation",
     "For every expression eval_xpath, get_nodeset, get_first_node and each_node agree: an expression that is malformed or fails is an error at all of them (None at get_first_node; each_node calls nothing), otherwise len and get_item give the items in order, get_nodeset and each_node the nodes among them in that order, get_first_node the first. Items are usable after the sequence is dropped, evaluating again gives the same result, and evaluation never changes the document. to_string writes each item in the documented notation, which for integers, decimals, doubles and strings is a literal of the same type and value.",
     ["inputs"], "all expressions and documents; checked for sequences of two out of 26 expressions (all pairs in the thorough tier, a third of them in the quick one: paths, atomic values, maps, arrays, duplicates, errors) from every node of documents of 2 (4) nodes, 24 malformed or failing expressions, and literals of up to 3 digits or characters",
     "The tests look at nearly all results through one helper and one notation.",
     ["src/xpath.rs", SEQ, ITEM, DOM], [("entry points", "src/xpath.rs eval_xpath, get_nodeset, get_first_node, each_node"), ("sequences and items", SEQ + " Display; " + ITEM + " Display")], ["eval_xpath", "get_nodeset", "get_first_node", "each_node"])
prop("C26", "XPath on an edited document sees the tree as it is now",
     "After any edits, with queries before and between them, every axis from every node, //, |, <<, is and root() give what they would give on the tree as it is now: nothing is remembered from before an edit. A node that was cut out by delete_child or replace_with is the root of a tree of its own and every axis from within it stays inside that tree; nodes keep their identity.",
     ["histories"], "all documents and edit sequences; checked for documents of 2-3 (4) nodes of any kind and shape, one or two edits out of append, insert before, insert after, delete, replace, set attribute, delete attribute and move at any node, all 12 axes from every node and all pairs of nodes",
     "Document order is cached across calls; a stale cache shows only for particular pairs of edit and query.",
     [DOM, EVAL], [("document order", DOM + " document_order, clear_document_order"), ("edits", DOM + " append_child, insert_as_*_sibling, delete_child, replace_with, set_attribute, delete_attribute"), ("axes and order of results", EVAL + " sort_by_doc_order")], ["eval_xpath", "append_child"])
prop("C27", "Arguments and operands are converted as declared, or rejected",
     "Operands of arithmetic, comparison, range, concatenation, cast and lookup, and keys of maps, are atomized (arrays flattened); operands that are too many, of another type, maps or functions are an error. Every built-in function, called directly, through a reference or a partial application, gets its arguments as its signature says: an atomic parameter is given the atomized argument (arrays flattened), with node values cast to its type and integers and decimals promoted to double; too many or too few items, items of another type, maps and functions are an error, never taken for something else. Functions of a node accept one node, or none where the signature says so. A function of the context item gives exactly what it gives with the context item as its argument.",
     ["inputs"], "all arguments; checked for 52 parameters of 42 functions and 26 operands of operators and constructors, with arguments of up to 2 (3) items of 16 kinds, maps and arrays nested to depth 2 (integers, strings and booleans out of 2-3 values each), six functions of nodes and twelve of the context item",
     "Parameters times kinds of arguments are some thousand pairs; the tests pass nearly always an argument of the right type.",
     [FUNC, EVAL], [("conversion of arguments", FUNC + " evaluate_function; " + EVAL + " convert_arguments"), ("signatures", FUNC + " FUNC_SIGNATURE_TBL"), ("operands", OPER + " op_numeric_operand, op_to; " + EVAL + " OperatorConcat; " + SEQ + " cast_as")], ["eval_xpath"])
