-------------------------------- MODULE Kinds --------------------------------
(* Every kind of type in every position a type can stand in, with documents *)
(* for all of them.                                                         *)
EXTENDS Str

KTypes == << "1", "-2", "0.5", "\"a\"", "'b'", "h'01'", "true", "nil", "any", "uint", "nint", "int", "tstr", "bstr", "float", "bool",
             "1..3", "0.5...2.5", "lo..hi", "int .lt 3", "uint .size 1", "tstr .size 1", "bstr .size (1..2)", "bstr .cbor int",
             "tstr .regexp \"^a\"", "[int]", "[* any]", "{a: int}", "{* any => any}", "(1 / \"a\")", "(int / [int])", "r", "g<int>", "g<\"a\">",
             "~u", "~m", "u", "m", "&(a: 1, b: \"a\")", "&n", "grp", "kv", "e", "[]", "{}" >>
KDefs == " lo = 1 hi = 3 r = int / tstr g<x> = x / [x] u = [int] m = {a: int} n = (a: 1, b: \"a\") grp = (int, tstr) kv = (a: int) e = ()"

\* positions, with X for the first type and Y for the second
KPos == <<
  \* arrays
  "[X]", "[? X, Y]", "[* X]", "[+ X, * Y]", "[X, Y]", "[2*3 X]", "[k: X]", "[? k: X, * any]", "[* k: X, Y]", "[(X)]", "[(X, Y)]", "[(X // Y)]",
  "[X // Y, X]", "[* (X, Y)]", "[* (X // Y)]", "[? (X, Y), * any]", "[&(k: X, l: Y)]", "[* &(k: X), * Y]", "[any, X]", "[(? X), Y]", "[* z] z = (X, Y)",
  "[z, * any] z = (? X // Y)", "[~z, ? Y] z = [X]", "[* ~z] z = [? X, Y]", "[1 => X]", "[X ^ => Y]", "[* (X / Y)]", "[q<X>, q<Y>] q<y> = (y, ? y)",
  \* maps
  "{X => Y}", "{? X => Y, * any => any}", "{? X ^ => Y, * any => any}", "{* X ^ => Y, * any => any}", "{(X ^ => Y // any => any)}",
  "{* X => Y}", "{+ X => Y, * any => any}", "{1*2 X => any, * Y => any}", "{a: X}", "{a: X, * any => Y}", "{? a: X, * any => any}",
  "{? \"a\" => X, * any => Y}", "{? \"a\" ^ => X, * any => Y}", "{X}", "{X, * any => Y}", "{? X, * any => any}", "{* any => X}", "{(a: X // a: Y)}", "{(X // any => Y)}", "{X => X}",
  "{? a: X, ? a: Y, * any => any}", "{X => any, Y => any}", "{? X ^ => any, Y => any}", "{? X => Y, ? X => any, * Y => any}",
  "{* (X => Y)}", "{(? X ^ => Y), * any => any}", "{? (a: X), * any => Y}", "{z, * any => any} z = (? a: X // 1 => Y)", "{* z} z = (X => Y)",
  "{~z, ? Y => any} z = {? X => any}", "{? ~z, * any => Y} z = {X => any}", "{&(k: X), * any => Y}", "{? &(k: X, l: Y), * any => any}", "{? 1: X, * int => Y, * tstr => any}",
  "{(X / Y) => any}", "{? (X / Y) ^ => int, * any => any}", "{? z ^ => int, * any => any} z = X / Y", "{q<X> => Y} q<y> = y", "{? q<X> ^ => Y, * any => any} q<y> = y",
  \* types
  "X", "(X)", "((X) / Y)", "X / Y", "bool / X", "X / X", "[X] / Y", "q<X> q<y> = y", "q<X, Y> q<y, x> = [y, x] / y / x", "q<X> q<y> = {? y => Y, * any => any}",
  "q<X> q<y> = {? y ^ => Y, * any => any}", "q<[X]> q<y> = y / Y", "q<X> q<y> = [* y]", "q<X> q<y> = z<y, Y> z<x, y> = [? x, y]", "z z = X", "z z = y y = X / Y", "bstr .cbor X", "[bstr .cbor X, * Y]", "X .size 1",
  "int .lt X", "int .ge X", "uint .size X", "tstr .regexp X", "X .cbor Y", "X .gt 1", "0..X", "X...9", "X..Y", "&(k: X)", "&(X, Y)", "&(k: X, l: Y)", "&z z = (X, k: Y)", "&z z = (y, k: Y) y = (k: X)", "~X", "&X", "[&X]",
  "{~X, * any => any}", "{&X, * any => any}", "[* ~X, * Y]" >>

KPositions == Len(KPos)
RECURSIVE Fill(_, _, _)
\* X and Y replaced
Fill(s, x, y) ==
  IF s = "" THEN ""
  ELSE LET c == SubSeq(s, 1, 1) IN (IF c = "X" THEN x ELSE IF c = "Y" THEN y ELSE c) \o Fill(SubSeq(s, 2, Len(s)), x, y)

KText(p, x, y) == Cps("t = " \o Fill(KPos[p], KTypes[x], KTypes[y]) \o KDefs)

KDocs == <<
  J("1"), J("-2"), J("3"), J("9"), J("300"), J("0.5"), J("2.5"), J("\"a\""), J("\"ab\""), C(<<65, 98>>), C(<<65, 1>>), C(<<67, 1, 2, 3>>), J("true"), J("null"), J("[]"), J("[1]"), J("[\"a\"]"),
  J("[1,\"a\"]"), J("[\"a\",1]"), J("[1,1]"), J("[[1]]"), J("[[1],1]"), J("[{\"a\":1}]"), J("[0.5,-2]"), J("[true,null]"), J("[2,1,2]"), J("[1,\"a\",1,\"a\"]"), C(<<129, 65, 1>>), C(<<130, 65, 98, 1>>),
  C(<<129, 65, 255>>), J("{}"), J("{\"a\":1}"), J("{\"a\":\"a\"}"), J("{\"a\":[1]}"), J("{\"a\":{\"a\":1}}"), J("{\"a\":null}"), J("{\"b\":1}"), J("{\"a\":1,\"b\":\"a\"}"),
  C(<<161, 1, 1>>), C(<<161, 1, 97, 97>>), C(<<162, 1, 1, 97, 97, 1>>), C(<<162, 1, 97, 97, 2, 1>>), C(<<161, 33, 2>>), C(<<161, 249, 56, 0, 1>>), C(<<162, 65, 98, 1, 65, 1, 1>>), C(<<161, 245, 246>>), C(<<161, 246, 245>>), C(<<161, 129, 1, 1>>),
  C(<<161, 161, 97, 97, 1, 1>>), C(<<162, 128, 1, 160, 2>>), C(<<162, 1, 129, 1, 2, 161, 97, 97, 1>>), C(<<163, 1, 1, 2, 2, 97, 97, 97, 97>>), C(<<161, 65, 1, 65, 1>>) >>
=============================================================================
