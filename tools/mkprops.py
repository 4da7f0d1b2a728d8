import json
P=[]
def p(id,title,st,over,q,why,files,mech,observe,state=None):
    assert len(title)<=80,title
    d=dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=q),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)
V="src/validate.rs"; F="src/flatten.rs"; PA="src/parser/mod.rs"
OBS=["validate_json_str","validate_cbor_bytes","validate_json","validate_cbor"]
WA=[("working collection","elements of the array/map not yet matched, plus a stack of undo lists",V)]
p("C01","Array acceptance is exactly ordered greedy matching of the schema members",
 "A data array is accepted by an array type exactly when matching the type's members from left to right, each taking its elements from the front of what is left (occurrences take as many as they may, a choice keeps its first matching alternative), succeeds and leaves no element over; otherwise the result is a data mismatch. Member keys are ignored in arrays, named groups contribute their members in place, and data that is not an array is a mismatch.",
 ["inputs","programs"],"every array schema (nested groups, occurrences, choices, named groups, keyed members, ranges, maps inside arrays) and every data value",
 "The tests try some dozens of hand-picked schema/value pairs; acceptance is a relation over all schemas and values, and its errors sit in combinations (group in choice in occurrence, leftovers, empty arrays) nobody lists by hand.",
 [V],[("ordered consumption of a working copy of the array; leftovers are a mismatch",V)],OBS,WA)
p("C02","Map acceptance is exactly member-by-member matching with no entry left over",
 "A data map is accepted by a map type exactly when every schema member in turn finds the entries it requires (an entry matches when its key matches the member's key type and its value the member's value type; each entry is used at most once) and no entry remains. A member given by a literal key takes precisely the entry with that key, a member given by a key type may take any entry whose key and value both match, and data that is not a map is a mismatch.",
 ["inputs","programs"],"every map schema (literal, bareword and typed keys, all occurrence forms, groups, choices, named groups) and every data map, with keys of any type",
 "Tests use maps of one to four text keys; the relation quantifies over all key types, overlapping literal and wildcard members, and all subsets of present, absent and surplus entries.",
 [V,"src/value.rs"],[("key search over a working copy of the map; leftovers are a mismatch",V),("ordering of values used to look up literal keys","src/value.rs")],OBS,WA)
p("C03","A part of an array or map pattern that fails takes nothing",
 "Whenever a group, a parenthesised group, a group alternative, an unwrapped type, or an occurrence that does not reach its minimum fails after matching some elements, at any nesting depth, everything it matched is available again, in the original order and exactly once, to whatever is tried next. The final result is the same as if the failed part had never been attempted.",
 ["inputs","programs"],"every nesting of speculative parts (groups in alternatives in occurrences in groups ...), every point at which the inner part can fail, in arrays and in maps",
 "Failure at each possible depth and position after each possible number of consumed elements is a combinatorial space; the tests cover a couple of two-level cases.",
 [V],[("snapshot / rewind / commit on the working collection",V)],OBS,WA)
p("C04","Occurrence indicators bound the count, match greedily and always terminate",
 "`?`, `*`, `+`, `n*m`, `n*` and `*m` before an array or map member make it match as often as it can, at most the upper and at least the lower number of times (n = m = 0 means never), and the enclosing pattern fails with a mismatch if the lower number is not reached. An occurrence of something that can match without taking any element ends rather than repeating for ever, and counts as having reached any count.",
 ["inputs","programs"],"all lower and upper bounds (including 0, equal, inverted and very large ones), all member shapes including ones that match nothing, all numbers of available elements, in arrays and maps",
 "Boundaries n-1, n, m, m+1 for each form, member shape and container, and termination for every input, are universal statements; the tests check a few counts.",
 [V,PA,"src/ivt.rs"],[("occurrence loops and limits",V),("limits of each indicator","src/ivt.rs"),("occurrence syntax",PA)],OBS)
p("C05","Cut keys commit: a present key with a bad value cannot match anything else",
 "When a map member written with `:` or `^ =>` finds an entry with its key but the value does not match, then no later member of that map or group may take the entry instead: the match fails even if the member is optional or a later wildcard would accept it. With a plain `=>` the entry stays available to later members. The commitment ends at the map or group (inline, named or unwrapped) in which it arose: an enclosing choice may still try its other alternatives.",
 ["inputs","programs"],"all placements of cut and non-cut members under occurrences, groups, group choices, nested maps, named and unwrapped groups, and all values",
 "How far a cut reaches depends on the whole path of enclosing constructs; the tests sample a handful of these paths.",
 [V],[("separate cut error that is turned back into an ordinary mismatch at map and group boundaries",V),("cut flag set by the syntax",PA)],OBS)
p("C06","A choice accepts exactly what one of its alternatives accepts",
 "A type choice `/` or group choice `//` succeeds exactly when some alternative, tried in order, succeeds; when none does the result is a mismatch. `&group` and `&( ... )` accept exactly what the value type of one of the group's members accepts, ignoring the member keys and looking through named groups (a member without key that is a name must name a group), whether used as a value type or as a member of an array or map.",
 ["inputs","programs"],"all alternative counts, orders and nestings, in value, array and map position, and every value",
 "The equivalence is between arbitrary alternatives and arbitrary values; tests have short lists of scalars.",
 [V,F],[("in-order trial of alternatives",V),("construction of choices from `/`, `//`, `&`",F)],OBS)
p("C07","Schema faults that are reached are reported, never accepted or masked",
 "If matching reaches a reference to an undefined rule, an unsupported construct, an ill-formed range or control, an operator applied to something it cannot apply to, or undecodable embedded CBOR, the whole validation reports that kind of error: it never succeeds, never becomes a plain data mismatch, and no later alternative, optional member or other map key is tried instead. A fault in a part of the schema that matching does not reach does not affect the result.",
 ["inputs","programs"],"every kind of fault in every position (alternatives before and after, occurrences, groups, map keys and values, unwraps, controls, generic arguments) and all values",
 "Faults times positions times values that do or do not reach them is a product space; the tests have one such test per format.",
 [V,"src/util.rs"],[("distinction between fatal and ordinary errors","src/util.rs"),("every place that continues after an error",V)],OBS)
p("C08","Generic rules behave as substitution of the arguments for the parameters",
 "Validating against a use of a generic rule gives the same result as validating against the rule's definition with each parameter replaced by the corresponding argument, where the argument means what it meant at the place of use. Parameter names shadow rule names inside that definition only, and are not visible in other rules it refers to. A use with the wrong number of arguments, or a generic rule as entry point, reports a generic error.",
 ["inputs","programs"],"all sets of generic rules, nested and repeated instantiations, argument shapes, and clashes between parameter and rule names",
 "Hygiene problems need particular coincidences of names across several rules; the tests use one or two generic rules.",
 [V,F],[("environment of parameters with captured outer environment",V),("generic arguments attached to references",F)],OBS,
 [("generic environment","parameter bindings plus the environment they were captured in",V)])
p("C09","Validation always ends: at most 50 nested rule references, then an error",
 "Validation of any data against any rules ends without crashing. A chain of up to 50 rule references open at once within one validation is followed normally; where one more would be needed the result is a structural error, never acceptance or a mismatch, also when generics are involved. References that have been completed do not count.",
 ["inputs","programs"],"all rule graphs (self-recursive, mutually recursive, long acyclic chains, recursion through groups, choices, maps, arrays, unwraps, `&`, ranges, controls and generics) and all data",
 "Exact limit and termination must hold for every path through the matcher; the tests have one recursive schema.",
 [V],[("depth carried in the lookup context",V)],OBS,[("depth","number of rule references currently open",V)])
p("C10","Ranges accept exactly the numbers between their endpoints",
 "`a..b` accepts exactly the numbers n with a <= n <= b and `a...b` exactly those with a <= n < b, of the same kind (integer or floating point) as the endpoints, which may be literals or names of rules that are literals. Any other data is a mismatch, and endpoints of different kinds (when the data does not already decide otherwise) or that are not literals are a structural error.",
 ["inputs","programs"],"all endpoint pairs (negative, equal, inverted, 64-bit extremes, floats, signed zeros) and all numbers, and other values",
 "Off-by-one and type errors sit at the exact endpoints of arbitrary ranges, which samples do not pin down.",
 [V,F],[("range comparison and endpoint resolution",V),("endpoint restrictions",F)],OBS)
p("C11",".lt .le .gt .ge accept exactly the integers satisfying the comparison",
 "`T .lt n`, `.le`, `.gt` and `.ge`, with T being uint, nint or int or a rule naming one, accept exactly the integers that belong to T and satisfy the comparison with n; other data is a mismatch. The limit may be an integer literal or a rule naming one; any other limit or target is an error, not a mismatch.",
 ["inputs","programs"],"all four operators, all three targets, all limits (also outside the target's own range, 64-bit extremes) and all values",
 "Twelve operator/target combinations times boundary values times indirections; tests check few values each.",
 [V,F],[("comparison functions",V),("control operator construction",F)],OBS)
p("C12",".size constrains byte length of strings and width of unsigned integers",
 "`tstr .size` and `bstr .size` accept exactly strings whose length in bytes (UTF-8 for text) equals the number or lies within the range given. `uint .size N` accepts exactly 0 <= x < 256^N, and with a range of more than one size exactly the x whose minimal number of bytes (0 needs none) lies in it. Empty ranges accept nothing, other data is a mismatch, and negative or non-integer limits and other targets are structural errors.",
 ["inputs","programs"],"all sizes and ranges (inclusive, exclusive, inverted, via rule names), all strings including multi-byte text, all integers up to 64 bits",
 "256^N boundaries for each N, byte versus character length, and empty ranges are a value space the samples touch at a few points.",
 [V,"src/normalize.rs",F],[("size checks",V),("limit normalisation","src/normalize.rs")],OBS)
p("C13",".cbor accepts exactly byte strings encoding a matching item",
 "`bstr .cbor T` accepts a byte string exactly when it holds a CBOR encoding of a data item that T accepts, for every encoding of that item and nested to any depth, inside arrays and maps included. Data that is not a byte string is a mismatch, bytes that do not decode give a value error, and the embedded item is judged exactly as it would be at top level.",
 ["inputs","programs"],"all embedded items and encodings (non-minimal lengths, half/single/double floats, indefinite lengths), truncations, nested .cbor, and all types T",
 "The set of encodings of an item and of byte strings that are no encoding is unbounded; the tests use two byte strings.",
 [V,"src/cbor.rs"],[("decode and re-enter validation with the current rules",V),("conversion of decoded items","src/cbor.rs")],OBS)
p("C14",".regexp accepts exactly text in which the pattern occurs",
 "`tstr .regexp \"re\"` accepts exactly text strings in which the regular expression matches somewhere (anchors must be written explicitly), other data is a mismatch. A malformed pattern, a target other than text, or an argument that is not a text literal is a structural error for the schema.",
 ["inputs","programs"],"all patterns over a core syntax (classes, anchors, alternation, repetition, escapes, Unicode) and all texts",
 "Tests have three patterns; anchoring and search semantics are claims about all texts.",
 [V,F],[("match against compiled pattern",V),("compilation and argument checks",F)],OBS)
p("C15","Prelude types and literals accept exactly their own values",
 "Each prelude type accepts exactly the data of its kind (any; nil; bool; int, uint >= 0, nint < 0; float; text; bytes) and each literal exactly the equal value of the same kind: integers are never floats, text is never bytes, and comparison is exact over the whole 64-bit integer and double range. Everything else is a mismatch.",
 ["inputs"],"all prelude names and aliases, all literals, all data values of all kinds",
 "Every (type, value) pair incl. extremes, NaN, -0.0, empty strings, non-BMP text; tests sample the middle.",
 [V,"src/value.rs",F],[("type and literal checks",V),("name to type table",F),("value equality","src/value.rs")],OBS)
p("C16","JSON, CBOR and pre-parsed entry points agree on the same data and schema",
 "For the same schema, rule name and data, the one-call functions, the functions on already decoded data and already built rules, and the JSON and CBOR routes give the same outcome; integers, floats, text, arrays and maps mean the same in both formats (CBOR bignums within the range of CBOR's own integers, -2^64 to 2^64-1, are integers). A schema that does not parse or build, an unknown rule name, undecodable data, and a generic entry rule are each reported as such, in that order of precedence.",
 ["inputs","configurations"],"all schemas, rule names, data values and encodings of them, and all combinations of faults in schema, name and data",
 "Agreement across routes is a relation between runs which the tests, written per route, never compare.",
 ["src/json.rs","src/cbor.rs","src/context.rs",V],[("conversion to the common value form","src/json.rs"),("conversion to the common value form","src/cbor.rs")],OBS)
p("C17","The parser accepts exactly the supported CDDL grammar and yields its tree",
 "A text is accepted by the parser exactly when it is a sequence of rules in the supported grammar, and the resulting tree reflects the text: rule order and names, operators, occurrences, keys and cuts, nesting, choices, generic parameters and arguments. Any other text gives a parse error; no part of the input is ever silently dropped.",
 ["inputs"],"all texts: derivations of the grammar up to a size, and near misses of them",
 "The tests parse some hundred snippets with fixed expected trees; ambiguity between types and groups, operators sharing prefixes and optional commas interact in unboundedly many ways.",
 [PA,"src/ast.rs"],[("ordered-choice grammar",PA)],["parse_cddl","slice_parse_cddl"])
p("C18","White space, comments and optional commas never change a schema's meaning",
 "Adding or removing white space, line breaks or comments between tokens, and optional commas between group entries, does not change the parsed tree or any validation result, wherever the grammar permits them. A comment ends at the end of its line and can contain any characters.",
 ["inputs"],"all schemas and all layouts of each",
 "A relation between unboundedly many renderings of the same schema; the tests use one layout each.",
 [PA],[("whitespace and comma rules",PA)],["parse_cddl","validate_json_str"])
p("C19","Literals denote exactly the values they spell, or are rejected",
 "Integer literals in decimal, hexadecimal or binary, with sign, from -2^63 to 2^64-1, denote exactly that integer, and larger ones are a malformed-integer error, never another value. Floating-point literals denote the nearest double, text literals exactly their characters with JSON escapes replaced, and byte-string literals their UTF-8, hexadecimal (spaces ignored) or padded URL-safe base64 content; malformed escapes, hex or base64 are errors of that kind.",
 ["inputs"],"all literals of all forms, everywhere a literal may stand",
 "Exactness over the full value ranges and all escapes and digits cannot be sampled by a dozen literals.",
 [PA],[("number, string and byte-string rules",PA)],["parse_cddl","flatten_from_str"])
p("C20","No schema text makes parsing or building rules crash, hang or misreport",
 "For every input text of moderate size and nesting, parsing it and building rules from it return either a result or an error of a documented kind, without panicking or running away. Text rejected by the parser is reported as a parse error by every function taking schema text.",
 ["inputs"],"all texts: arbitrary bytes that are UTF-8, mutated and truncated schemas, stray operators, unterminated strings and brackets",
 "Absence of panics is universal over texts; the tests try few invalid ones.",
 [PA,F,"src/parser/parse_err.rs"],[("error conversion","src/parser/parse_err.rs"),("grammar functions that may abort",PA)],["parse_cddl","flatten_from_str"])
p("C21","Slice-preserving parsing returns the same rules plus their exact source text",
 "The slice-preserving parser and builder accept the same texts and produce the same rules as the plain ones, each paired with exactly the part of the source that spells the rule, from its name to its last token, without surrounding white space or comments. Concatenating the slices in order with the skipped white space and comments gives back the source.",
 ["inputs"],"all schema texts, layouts, comments, rule counts and duplicates, non-ASCII content",
 "Tests check one or two fixed texts; exact offsets must hold for every layout.",
 [PA,F],[("recording of consumed input per rule",PA),("paired building of rules",F)],["slice_parse_cddl","slice_flatten_from_str","slice_flatten"])
p("C22","Naming, parenthesising and reordering rules does not change results",
 "Moving a type into a rule of its own and referring to it by name, putting a type in parentheses, renaming a rule consistently, reordering rules with distinct names, or adding unused rules does not change the result of any validation (short of the nesting limit, and where the grammar or the operator does not ask for something written out, as `.regexp` and `.cbor` targets, `.regexp` patterns, the ends of a `.size` range, and members of `&( )` do). When a name is defined twice, the last definition is the one used.",
 ["inputs","programs"],"all schemas, all such rewritings of them, all data",
 "Equivalences between schemas are relations tests do not state; each construct has its own look-through path for names.",
 [V,F],[("dereferencing names in value, array, map, range and control positions",V),("rule table by name",F)],OBS)
p("C23","Validation is a pure function: history and threads do not matter",
 "The outcome of a validation depends only on schema, rule name and data: repeating it, interleaving it with other validations (failing ones included) over the same loaded rules, or running them concurrently from several threads sharing one context, gives the same outcome each time, and never changes the loaded rules.",
 ["histories","schedules"],"all sequences of load and validate operations over shared contexts, and all interleavings of them",
 "Tests run each call once on fresh state.",
 [V,"src/context.rs"],[("working copies; contexts borrowed immutably",V),("read-only rule table","src/context.rs")],OBS)
p("C24","Unwrapping `~name` is the same as writing the contents in place",
 "Inside an array, `~name` of an array type (written there, or led to by names and generic parameters) matches exactly as the named type's members written there as a group, and inside a map `~name` of a map type likewise, including backtracking, occurrences, cuts and generics. Unwrapping a name of the other container or of anything else never matches, and an unwrap that is not a member of an array or map is a structural error.",
 ["inputs","programs"],"all contents, positions (alone, in occurrences, alternatives, groups), name chains and generic arguments, and all data",
 "An equivalence over all contents and positions; the tests unwrap one header map and one array.",
 [V],[("unwrap handling in arrays and maps",V)],OBS)
p("C25","Names resolve to parameters, then prelude-supported types, then rules",
 "A name means the innermost generic parameter if there is one, and a prelude name always means the prelude type even when a rule of that name is defined; every other name is looked up in the rules. Prelude types that are not supported, unknown controls and generic arguments on prelude types make building the rules fail as a whole with the corresponding error, even in an unused rule; an undefined name is reported as a missing rule only when matching reaches it.",
 ["inputs","programs"],"all names of the standard prelude and names close to them, in every syntactic position, with and without rules of the same name",
 "Forty prelude names times positions times shadowing; tests check a subset in one position.",
 [F,V],[("prelude table",F),("lookup",V)],["flatten_from_str"]+OBS)
p("C26","Results do not depend on which optional features are enabled",
 "Built with only JSON or only CBOR support, every schema is parsed and built identically and every validation by the remaining entry points gives the same outcome as with both; the only exception is that without CBOR support a value reaching `.cbor` reports an unsupported feature. Without either the crate still parses and builds rules identically.",
 ["configurations","inputs"],"the four feature combinations, all schemas and data",
 "The test suite is only ever run with default features.",
 ["Cargo.toml",V,"src/lib.rs"],[("feature gates",V)],["validate_json_str","validate_cbor_bytes","flatten_from_str"])
p("C27","Entry order, encoding form and duplicates of map data do not change the result",
 "The result of validating a map does not depend on the order in which its entries are written in JSON or CBOR, nor on the encoding form chosen for them (definite or indefinite length, integer and length widths, white space). If a key is written more than once, the last value counts.",
 ["inputs"],"all schemas, all maps of data (nested too), all permutations and encodings of them",
 "A relation between different encodings of equal data, which the tests never compare.",
 ["src/json.rs","src/cbor.rs","src/value.rs",V],[("sorted map in the common value form","src/value.rs"),("conversion of decoded maps","src/cbor.rs")],OBS)
p("C28","All rule references are resolved through the lookup context supplied",
 "When validation is given a caller-defined lookup context, every reference to a named rule, at any depth and in every position, is answered by that context and by nothing else: contexts that stack, rename or override rules behave as the equivalent merged schema, and an error the context returns becomes the outcome. Names of generic parameters and prelude types are never asked for.",
 ["inputs","programs","configurations"],"all contexts (layered, overriding, failing for some names) and all schemas and data",
 "The tests use only the built-in context and one that always fails.",
 ["src/context.rs",V],[("lookup trait","src/context.rs"),("calls to it",V)],["validate_json","validate_cbor","context::LookupContext"])
p("C29","Parsing time grows moderately with the size and nesting of the schema",
 "Parsing a schema takes time that grows moderately with its length, also for deeply nested types, groups, arguments and member keys, and never doubles with each level of nesting, whether the text is accepted or rejected.",
 ["inputs"],"all schema texts, in particular nested arrays, maps, parentheses and member keys",
 "Tests time out one nesting pattern only.",
 [PA],[("single pass over the first type of a group entry",PA)],["parse_cddl"])
p("C30","Errors say what they are about: the name, the literal, the caller's error",
 "A missing-rule error carries exactly the name that could not be found, the entry rule's or that of the reference as it was asked of the lookup context. An error returned by a caller's lookup context comes out of validation unchanged, kind and message. The snippet of a parse error about a malformed integer, float, text, base16 or base64 literal is what that literal spells (the digits of the integer, what stands between the quotes, base16 without its white space), and that of any other parse error about the text is a rest of the schema text; all functions taking schema text report the same.",
 ["inputs","programs"],"all undefined names in every position, all contexts that fail with any error, and all malformed literals in all texts",
 "The name or snippet has to be right for whichever reference or literal is at fault, wherever it stands; the tests look at one or two such messages.",
 ["src/util.rs",V,"src/context.rs",PA,"src/parser/parse_err.rs"],[("error constructors and display","src/util.rs"),("propagation of fatal errors",V),("snippet carried by parse errors","src/parser/parse_err.rs")],
 ["ValidateError::MissingRule","ParseError.ctx"]+OBS)
p("C31","Building rules yields exactly the validation tree that the syntax denotes",
 "For every text that parses, flattening gives one entry per rule name (the last definition), with its generic parameters in order and the tree described in `ivt`: choices, groups, arrays, maps, occurrences with their limits, keyed members with their cut flags, ranges, control operators, unwraps, literals, rule references with arguments, and prelude names resolved to their types; or it reports the error of the first construct that has no such tree.",
 ["inputs","programs"],"all schema texts: every construct in every position where the grammar allows it, and their combinations",
 "Callers may walk the tree (it is public), so each construct in each position must map to its node; the tests compare some forty fixed trees.",
 [F,"src/ivt.rs"],[("recursive translation of the syntax tree",F),("node types","src/ivt.rs")],["flatten_from_str","flatten","ivt::Node"])
p("C32","Validation trees made by a caller mean what their nodes say",
 "Rules put together by the caller from `ivt` nodes, not from text, are validated by the meaning of each node wherever it stands: a literal, type, choice, array, map, group, member, occurrence, range, control operator, reference, unwrap or choicified group does there what the same node does in a tree built from text, a choice or group without parts is simply unsatisfied or empty, and a node that has no meaning where it is reached (a member or occurrence as a type, a plain type as a map member, an operator with an unsuitable target or argument) gives the schema error of its kind when it is reached and only then. No such tree makes validation panic.",
 ["inputs","programs"],"all finite trees of public node kinds (every kind in every position of every other), rule tables, and data",
 "The types are public and their combinations are not limited by the grammar; the tests build next to no such tree, and each kind of node times each position times each outcome is a product nobody writes down.",
 [V,"src/ivt.rs"],[("dispatch on the kind of node as type, array member and map member",V),("public node types","src/ivt.rs")],["validate_json","validate_cbor","ivt::Node","BasicContext"],WA)
p("C33","Building rules from a syntax tree made by a caller gives its tree or error",
 "`flatten` and `slice_flatten` turn every `ast` tree, also one that no text gives, into exactly the rules it denotes (one per name, the last counting; same parameters, and the node of each construct), keeping beside each rule the string that came with it; or they report the error of the first part, in order, that has no such node: an unsupported type or operator, a type without alternatives, arguments on something that takes none, a range end or operator argument of the wrong sort, a malformed pattern. They never panic.",
 ["inputs","programs"],"all finite syntax trees: every construct in every position, empty lists of alternatives or entries, any names, operators, numbers and occurrences",
 "The parser only ever gives some of these trees, so the tests that start from text cannot reach the rest, and the order of faults only shows with several in one tree.",
 [F,"src/ast.rs"],[("recursive translation of the syntax tree, first fault first",F)],["flatten","slice_flatten"])
p("C34","Decoded JSON and CBOR data are represented exactly",
 "Converting decoded JSON or CBOR into `value::Value`, by reference or by value, gives exactly that data: every integer from -2^64 to 2^64-1 with its sign and value (also one written as bignum), every double bit for bit, every text and byte string, arrays in order, and maps as a set of entries ordered by kind and then content, of equal keys the last; undefined is null. What has no representation (other tags) is reported as a value error, wherever in the data it is, never dropped or replaced.",
 ["inputs"],"all documents that decode: all nestings, integer widths, float widths, strings, key kinds and duplicate keys",
 "The tests convert a dozen values; losing a bit, a sign, an entry or an order at one width or depth is outside any sample of that size.",
 ["src/json.rs","src/cbor.rs","src/value.rs"],[("conversion of decoded values","src/json.rs, src/cbor.rs"),("representation and its order","src/value.rs")],["value::Value::try_from","value::Value"])
p("C35","Data values are totally ordered, and equal exactly when they are the same data",
 "For any two `value::Value`s, all comparisons agree with one total order: null, booleans, integers, floats, byte strings, texts, arrays, maps, in this order of kinds; integers by value over their whole range, floats by value with -0.0 before 0.0 and infinities and NaN at the ends, byte strings and texts byte by byte, arrays item by item and then by length, maps entry by entry (key, then value) in key order and then by size. Two values are equal exactly when they are the same data (an integer is never equal to a float, nor -0.0 to 0.0), however the data were encoded, so a value is a well-behaved map key.",
 ["inputs"],"all pairs and triples of values of every kind and nesting",
 "Symmetry, transitivity and agreement of equality with order are statements about all pairs and triples; no test compares values.",
 ["src/value.rs","src/json.rs","src/cbor.rs"],[("derived comparisons of Value","src/value.rs")],["value::Value: Ord, Eq"])
p("C36","What validation-tree nodes tell about themselves is true",
 "`Occur::limits` are the least and greatest number of times the occurrence allows and `symbol` spells these limits in CDDL; a node, literal, type, member, range or occurrence displays as what it is (integers in decimal, floats so that they read back as the same number, texts in quotes, members as key and value, ranges with two or three dots, other nodes by the name of their kind); `normalize_size_range` turns an integer from 0 to 2^64-1 into the range from it to itself, leaves a range between two such integers as it is, and reports anything else as a structural error; the constructor functions make the node they name; and two nodes are equal exactly when they are of one kind with equal parts in the same order (names, arguments, limits, cut flags, inclusiveness, patterns included; floats as numbers).",
 ["inputs"],"all nodes of all kinds, limits, integers and texts, and all pairs of nodes that differ in one thing",
 "Programs that walk the tree rely on them for every node; the tests show a handful of nodes and compare none that differ in one part only.",
 ["src/ivt.rs","src/normalize.rs"],[("limits, symbol, display and equality of nodes","src/ivt.rs"),("limit normalisation","src/normalize.rs")],["ivt::Occur::limits","ivt::Occur::symbol","Display","PartialEq","normalize::normalize_size_range","literal_int and the like"])
p("C37","Validation time grows moderately with the nesting and size of schema and data",
 "Validating data takes time that grows moderately with their size and nesting and with those of the schema, and never doubles with each level of nesting, whether the data are accepted or rejected, with alternatives, repetitions, groups, entries tried and passed over, named and generic types, recursion and embedded CBOR around each other in any order. (Excepted is only what a schema itself says more than once: a type standing in several alternatives or entries of one level, and a repeated group of several entries, which is searched for anew each time.)",
 ["inputs","programs"],"all schemas and data, in particular nests of each construct in each other, and long maps and arrays",
 "Services validate data from strangers; a doubling shows only in nests deeper than any test has, and only with the right outcome at the right place.",
 [V],[("search for map entries, working copies and their restoration",V)],["validate_json","validate_cbor"])
import os
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl'),'w') as f:
    for d in P: f.write(json.dumps(d,ensure_ascii=False)+"\n")
print(len(P))
