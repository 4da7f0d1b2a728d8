-------------------------------- MODULE Space --------------------------------
(* Bounded spaces of schemas and data, enumerated completely (or, with a    *)
(* stride, one residue class of them).                                      *)
(*                                                                          *)
(* A family is a product of up to four finite dimensions and a way to make  *)
(* a schema text from a point of it, with a fixed list of documents; the    *)
(* rule validated is always `t`.  "doc" families turn this round: fixed     *)
(* texts and one document for each point.                                   *)
EXTENDS Session, Grow, Near, Hand, Depth, Json

(* ---- arrays: C01, C03, C04 ---------------------------------------------- *)

ArrDocs ==
  LET el == <<"0", "\"a\"">>
      w(n) == LET ws == WordOf(el, n) IN
              "[" \o (IF ws = <<>> THEN "" ELSE ws[1] \o
                        (IF Len(ws) > 1 THEN "," \o ws[2] ELSE "") \o
                        (IF Len(ws) > 2 THEN "," \o ws[3] ELSE "")) \o "]"
  IN  [n \in 1..15 |-> J(w(n))]

AOcc  == <<"", "? ", "* ", "+ ", "2*2 ", "1*2 ", "2*1 ", "0*0 ">>
AOcc3 == <<"", "? ", "* ">>
ALeaf == <<"int", "tstr">>
A0 == Cross(AOcc, ALeaf, LAMBDA o, x : o \o x)
A1 == Cross(AOcc3, ALeaf, LAMBDA o, x : o \o x)
AG == Cross(A1, A1, LAMBDA x, y : "(" \o x \o ", " \o y \o ")")
AC == Cross(A1, A1, LAMBDA x, y : "(" \o x \o " // " \o y \o ")")
A2 == A0 \o Cross(AOcc3, AG \o AC, LAMBDA o, x : o \o x)
\* deeper: groups of groups
A3 == Cross(AOcc3, Cross(<<"(int, tstr)", "(? int // tstr)", "(* int)", "(int // tstr, int)">>, A1,
                         LAMBDA x, y : "(" \o x \o ", " \o y \o ")"), LAMBDA o, x : o \o x)
      \o Cross(AOcc3, Cross(<<"(int, tstr)", "(int, int)", "int, tstr", "* int, tstr">>,
                            <<"(int, int)", "tstr, int", "int", "tstr, tstr">>,
                         LAMBDA x, y : "(" \o x \o " // " \o y \o ")"), LAMBDA o, x : o \o x)

(* ---- maps: C02, C03, C05 ------------------------------------------------- *)

MapDocs ==
  LET ent(key, i) == IF i = 1 THEN "" ELSE IF i = 2 THEN "\"" \o key \o "\":1" ELSE "\"" \o key \o "\":\"x\""
      join(x, y) == IF x = "" THEN y ELSE IF y = "" THEN x ELSE x \o "," \o y
  IN  [n \in 1..27 |-> J("{" \o join(join(ent("a", ((n - 1) % 3) + 1), ent("b", (((n - 1) \div 3) % 3) + 1)),
                                     ent("c", ((n - 1) \div 9) + 1)) \o "}")]
M0 == <<"a: int", "a: tstr", "b: int", "? a: int", "? a: tstr", "\"a\" => int", "? \"a\" => int",
        "tstr => int", "* tstr => int", "* tstr => tstr", "? tstr ^ => int", "* tstr ^ => int", "+ tstr => any",
        "2*2 tstr => any">>
MG == Cross(M0, M0, LAMBDA x, y : "(" \o x \o ", " \o y \o ")")
MC == Cross(M0, M0, LAMBDA x, y : "(" \o x \o " // " \o y \o ")")
M1 == M0 \o Cross(AOcc3, MG \o MC, LAMBDA o, x : o \o x)
MEnd == <<"", ", * tstr => any", ", ? a: any", ", ? b: tstr", ", * tstr => int">>

(* ---- errors: C06, C07 ---------------------------------------------------- *)

EX == <<"int", "tstr", "nowhere", "(1..\"a\")", "gen", "(uint .lt nolit)", "pair", "[nowhere]", "(bstr .cbor tstr)">>
EDefs == " gen<x> = x nolit = tstr pair = (int, int)"
ECtx(n, x, y) ==
  CASE n = 1  -> x \o " / " \o y
    [] n = 2  -> "[? " \o x \o ", * " \o y \o "]"
    [] n = 3  -> "[" \o x \o ", " \o y \o "]"
    [] n = 4  -> "[(" \o x \o " // " \o y \o ")]"
    [] n = 5  -> "[* (" \o x \o ", " \o y \o ")]"
    [] n = 6  -> "{a: " \o x \o ", ? b: " \o y \o "}"
    [] n = 7  -> "{? a: " \o x \o ", * tstr => " \o y \o "}"
    [] n = 8  -> "{? \"a\" => " \o x \o ", * tstr => " \o y \o "}"
    [] n = 9  -> "{(a: " \o x \o " // a: " \o y \o ")}"
    [] n = 10 -> "{* " \o x \o " => " \o y \o "}"
    [] n = 11 -> "{? " \o x \o " => any, * " \o y \o " => any}"
    [] n = 12 -> "{? " \o x \o " ^ => " \o y \o ", * any => any}"
    [] n = 13 -> "&(a: " \o x \o ", b: " \o y \o ")"
    [] n = 14 -> "[&(a: " \o x \o ", b: " \o y \o ")]"
    [] n = 15 -> "two<" \o x \o ", " \o y \o "> two<p, q> = q / p"
    [] n = 16 -> "[two<" \o x \o ", " \o y \o ">] two<p, q> = (p // q)"
    [] n = 17 -> "[* ~u] u = [" \o x \o " // " \o y \o "]"
    [] n = 18 -> "{~u, * any => any} u = {? a: " \o x \o ", ? b: " \o y \o "}"
    [] n = 19 -> "(bstr .cbor " \o x \o ") / " \o y
    [] n = 20 -> "[+ u] u = (" \o x \o " / " \o y \o ")"
    [] n = 21 -> "{&(a: " \o x \o ", b: " \o y \o "), * any => any}"
    [] n = 22 -> "{2*2 (? a: " \o x \o ", ? b: " \o y \o "), * any => any}"
    [] n = 23 -> "(" \o x \o ") / [" \o y \o "]"
    [] n = 24 -> "{? a: [" \o x \o "] / [* " \o y \o "], * any => any}"
ECtxs == 24
EDocs == << J("1"), J("\"a\""), J("[]"), J("[1]"), J("[1,\"a\"]"), J("[\"a\",1]"), J("[[1]]"), J("{}"),
            J("{\"a\":1}"), J("{\"a\":\"x\"}"), J("{\"a\":1,\"b\":\"x\"}"), J("{\"b\":1}"), J("{\"a\":[1,2]}"),
            C(<<161, 1, 2>>), C(<<65, 1>>), C(<<65, 255>>), C(<<66, 97, 120>>), C(<<129, 65, 255>>),
            C(<<161, 97, 97, 65, 255>>), C(<<162, 65, 255, 1, 97, 97, 2>>) >>

(* ---- numbers: C10, C11, C12, C15 ----------------------------------------- *)

NLits == <<"0", "1", "-1", "2", "-2", "8", "9", "16", "255", "256", "65535", "-128", "4294967295", "4294967296",
           "9223372036854775807", "9223372036854775808", "18446744073709551615", "-9223372036854775808",
           "0.0", "-0.0", "1.0", "-1.5", "1e300", "\"a\"">>
NOps == <<"..", "...">>
N1 == Cross(<<"uint .lt ", "uint .le ", "uint .gt ", "uint .ge ", "nint .lt ", "nint .le ", "nint .gt ", "nint .ge ",
              "int .lt ", "int .le ", "int .gt ", "int .ge ", "float .lt ", "uint .size ", "tstr .size ", "bstr .size ",
              "int .size ", "", "num .gt ", "num .size ">>, NLits, LAMBDA o, x : o \o x)
NDocs ==
  << J("0"), J("1"), J("-1"), J("2"), J("-2"), J("7"), J("8"), J("9"), J("16"), J("255"), J("256"), J("65535"), J("65536"),
     J("16777216"), J("-128"), J("-129"), J("4294967295"), J("4294967296"),
     J("9223372036854775807"), J("9223372036854775808"), J("9223372036854775809"), J("18446744073709551614"),
     J("18446744073709551615"), J("-9223372036854775808"), J("-9223372036854775807"),
     C(<<59, 128, 0, 0, 0, 0, 0, 0, 0>>), C(<<59, 255, 255, 255, 255, 255, 255, 255, 255>>),
     J("0.0"), J("-0.0"), J("1.0"), J("-1.5"), J("0.5"), J("2.0"), J("1e300"),
     C(<<249, 124, 0>>), C(<<249, 126, 0>>), C(<<249, 252, 0>>), C(<<249, 0, 1>>),
     J("\"\""), J("\"a\""), J("\"ab\""), J("\"12345678\""), J("\"123456789\""), C(<<64>>), C(<<65, 0>>), C(<<66, 0, 1>>),
     C(<<98, 195, 169>>), J("null"), J("[1]"), J("true") >>

(* ---- regular expressions: C14 --------------------------------------------- *)

RxAlpha == Cps("ab.*?+|()[]^$-\\dDB{2,}")
RxDocs == LET w == <<<<97>>, <<98>>, <<10>>, <<50>>>> IN
          [n \in 1..Upto(4, 3) |->
             [k |-> "json", s |-> <<34>> \o Flat(SeqMap(WordOf(w, n), LAMBDA x : IF x = <<10>> THEN <<92, 110>> ELSE x)) \o <<34>>]]
          \o <<C(<<65, 97>>), J("1")>>
\* the pattern, escaped for a text literal
RxText(n) == Cps("t = tstr .regexp \"") \o
             Flat(SeqMap(WordOf(RxAlpha, n), LAMBDA x : IF x = 92 THEN <<92, 92>> ELSE <<x>>)) \o <<34>>

(* ---- literals: C19 --------------------------------------------------------- *)

LitNum == Cps("0129-.e+xbaF")
LitBig == << Cps("18446744073709551615"), Cps("18446744073709551616"), Cps("9223372036854775808"),
             Cps("9223372036854775809"), Cps("ffffffffffffffff"), Cps("0x"), Cps("-"), Cps("0"), Cps("1"),
             Cps("0b"), Cps("."), Cps("e"), Cps("308"), Cps("17976931348623157") >>
LitTxt == << <<97>>, <<92>>, <<34>>, Cps("u"), Cps("00"), Cps("d83d"), Cps("de00"), Cps("0"), Cps("n"), <<233>>, <<39>>,
             <<47>>, <<10>>, <<128512>> >>
LitHex == Cps("09afAg' \"\\_-")
LitB64 == Cps("AQg_=+/- '")

(* ---- tokens: C17, C18, C20 -------------------------------------------------- *)

Tok == << Cps("a"), Cps("1"), Cps("("), Cps(")"), Cps("["), Cps("]"), Cps("{"), Cps("}"), Cps(","), Cps("/"), Cps("//"),
          Cps(":"), Cps("=>"), Cps("^"), Cps("?"), Cps("*"), Cps(".."), Cps("&"), Cps("~"), Cps("<"), Cps(">"), Cps(" "),
          Cps(";"), <<10>>, Cps("="), Cps(".size"), Cps("\""), Cps("b = "), Cps("-") >>
Frames == << <<Cps("t = "), <<>>>>, <<Cps("t = ["), Cps("]")>>, <<Cps("t = {"), Cps("}")>>, <<Cps("t = ("), Cps(")")>>,
             <<<<>>, Cps(" = a")>>, <<Cps("t = a<"), Cps(">")>>, <<Cps("t = {a "), Cps(" 1}")>>, <<Cps("t = [a"), Cps("a]")>> >>

(* ---- sources of rules: C21 ------------------------------------------------------ *)

SrcTok == << Cps("a = 1"), Cps("b = ["), Cps("]"), <<10>>, Cps(" "), Cps("; x") \o <<10>>, Cps(";"), Cps("c=d"), Cps(","), Cps("("),
             Cps(")"), Cps("<x>"), Cps(" = "), <<13, 10>>, Cps("e = ") \o <<34>>, <<34>>, Cps("/ 2"), <<9>>, Cps("; ") \o <<233>>,
             Cps("f = ") \o <<34, 128512, 34>>, Cps("a = b") >>

(* ---- nests: C29 -------------------------------------------------------------- *)

NestF == << <<"(", ")">>, <<"[", "]">>, <<"{", "}">>, <<"(", ", b: int)">>, <<"(", " // int)">>, <<"(int, ", ")">>,
            <<"(int // ", ")">>, <<"[(", ")]">>, <<"{a: (", ")}">>, <<"&(", ")">>, <<"a<", ">">>, <<"a<int, ", ">">>,
            <<"{(", ") => int}">>, <<"{? [", "] ^ => int}">>, <<"[? (", ") / int]">>, <<"(", " / int)">>, <<"[(", ") .. 1]">>,
            <<"[int, [", "]]">>, <<"(int / [", "])">>, <<"{[", "] => [int], * a: {}}">>, <<"([", "], b: int)">>,
            <<"(? (", "))">>, <<"(~a<", "> .size 1)">>, <<"( [", "] ,)">> >>
NestCore == <<"int", "a: int", "1 => int", "", "?", "* (int // a: 1)", "0x">>
NestDepth == 24
Nest(a, b, c, start) == Cps(start) \o Rep(Cps(NestF[a][1] \o NestF[b][1]), NestDepth) \o Cps(NestCore[c])
                        \o Rep(Cps(NestF[b][2] \o NestF[a][2]), NestDepth)
\* long ones: many of the same in a row
LongP == << <<"", "a = int ">>, <<"t = [", "int, ", "]">>, <<"t = int", " / int">>, <<"t = [int", " // int", "]">>,
            <<"t = int", " ">>, <<"t = int ;", "; ">>, <<"t = int", " ; c">>, <<"t = \"", "a", "\"">>, <<"t = h'", "00 ", "'">>,
            <<"t = 1", "0">>, <<"t = 0.", "0", "1">>, <<"t", "-t", " = int">>, <<"t = a<int", ", int", ">">>, <<"t = {", "a: int ", "}">>,
            <<"t = {", "(a: int, ? b: [int]) ", "}">>, <<"t = (", "(int) ", ")">>, <<"t = ", "(">>, <<"t = [int", ",">>, <<"t<a", ", a", "> = int">>,
            <<"t = 'a", "\\u0041", "'">>, <<"t = [", "a => ", "]">>, <<"t = [(int", ", (int, int)", ")]">> >>
LongN == <<40, 400>>
Long(a, b) == Cps(LongP[a][1]) \o Rep(Cps(LongP[a][2]), LongN[b]) \o (IF Len(LongP[a]) > 2 THEN Cps(LongP[a][3]) ELSE <<>>)

(* ---- rule systems: C08, C09, C25 -------------------------------------------- *)

Bodies == <<"int", "a", "b", "[a]", "[? b]", "[* a]", "a / b", "(a, b)", "{? x: a}", "b / [b]">>
RecDocs == << J("1"), J("[]"), J("[1]"), J("[[1]]"), J("[[[]]]"), J("[1,1]"), J("{}"), J("{\"x\":1}"),
              J("{\"x\":{\"x\":1}}"), J("\"a\"") >>
GArgs == <<"int", "x", "y", "tstr", "g<x>", "[x]", "h<int>", "(int / tstr)", "1..2", "g<int, int>">>
GBodies == <<"x", "[x]", "[x, y]", "x / [x]", "{? k: x}", "[? h<x>]", "h<h<x>>", "y", "[* x]", "[&(a: x)]", "(1 / x)",
             "bstr .cbor x", "[~x]", "{x => any}", "x .size 1", "0..x", "x<int>", "[* x<y>]", "{? x => int, * y => any}", "&x", "[x // y]", "int .lt x",
             "{x: int, ? k: x}", "{~x}">>
\* what the names of the parameters mean elsewhere
XDefs == <<"bool", "\"k\"", "(k: int)", "[1]", "1..2", "{k: 1}">>
YDefs == <<"true", "2", "[* int]", "(1, 2)", "\"a\"", "tstr">>
HBodies == <<"z", "[z]", "[x]", "z / y", "[* z]", "g<z>">>
GDocs == << J("1"), J("\"a\""), J("[]"), J("[1]"), J("[\"a\"]"), J("[[1]]"), J("[[\"a\"]]"), J("[1,true]"), J("true"), J("{}"),
            J("{\"k\":1}"), J("{\"k\":\"a\"}"), J("{\"k\":[1]}"), J("[[[1]]]"), C(<<65, 1>>), C(<<66, 129, 1>>), J("[true]"),
            J("2"), J("0"), J("[1,1]"), J("{\"a\":1}"), J("{\"k\":1,\"a\":true}"), J("\"k\""), J("[2]") >>

(* ---- unwrapping: C24 --------------------------------------------------------- *)

UDefs == <<"[int, tstr]", "[* int]", "[? int, tstr // int]", "[int / tstr]", "{a: int}", "{? a: int, b: tstr}",
           "{* tstr => int}", "(int, tstr)", "int", "~v", "v", "{a: int // b: int}", "[]", "nowhere", "{? \"a\" => tstr}">>
VDefs == <<"[int]", "{b: int}", "tstr", "[~w, int]">>
UCtx(n) == CASE n = 1 -> "[~u]" [] n = 2 -> "[? ~u, * any]" [] n = 3 -> "[* ~u]" [] n = 4 -> "[~u, ~u]"
             [] n = 5 -> "[(~u // int, int)]" [] n = 6 -> "{~u}" [] n = 7 -> "{~u, * tstr => any}"
             [] n = 8 -> "{? ~u, ? a: tstr}" [] n = 9 -> "{(~u // a: any)}" [] n = 10 -> "~u" [] n = 11 -> "[[~u]]"
             [] n = 12 -> "{2*2 ~u}" [] n = 13 -> "[k: ~u]" [] n = 14 -> "[ug<u>] ug<p> = (~p)"
             [] n = 15 -> "{ug<u>, * any => any} ug<p> = (~p)" [] n = 16 -> "[u, ~u]"
UCtxs == 16
UDocs == ArrDocs \o SubSeq(MapDocs, 1, 9) \o <<J("1"), J("[[0]]"), J("[[0,\"a\"],0,\"a\"]"), J("[[0],0]")>>

(* ---- prelude and names: C15, C25 ---------------------------------------------- *)

PNames == <<"any", "nil", "null", "bool", "false", "true", "int", "uint", "nint", "float", "float16", "float32", "float64",
            "float16-32", "float32-64", "tstr", "text", "bstr", "bytes", "tdate", "uri", "b64url", "b64legacy", "regexp",
            "mime-message", "encoded-cbor", "cbor-any", "biguint", "bignint", "eb64url", "eb64legacy", "eb16",
            "time", "bigint", "integer", "unsigned", "number", "decfrac", "bigfloat", "undefined", "other", "undef", "t">>
PCtx(n, x) == CASE n = 1 -> x [] n = 2 -> "[" \o x \o "]" [] n = 3 -> "{" \o x \o " => any}" [] n = 4 -> "{k: " \o x \o "}"
                [] n = 5 -> "any " \o x \o " = tstr" [] n = 6 -> x \o "<int>" [] n = 7 -> "id<" \o x \o "> id<p> = p"
                [] n = 8 -> "sh<int> sh<" \o x \o "> = " \o x [] n = 9 -> "int / [* " \o x \o "]"
                [] n = 10 -> x \o " .size 1" [] n = 11 -> "[~" \o x \o "]" [] n = 12 -> "&" \o x [] n = 13 -> "0.." \o x
                [] n = 14 -> "int unused = [" \o x \o "]" [] n = 15 -> "(" \o x \o ")" [] n = 16 -> "&(" \o x \o ")"
                [] n = 17 -> "tstr .regexp " \o x [] n = 18 -> "bstr .cbor " \o x
PCtxs == 18
PDocs == << J("null"), J("true"), J("false"), J("0"), J("-1"), J("0.5"), J("\"a\""), C(<<65, 1>>), J("[]"), J("{}"), J("[1]"),
            J("[null]"), J("[\"a\"]"), C(<<129, 65, 1>>), J("{\"k\":1}"), J("{\"k\":\"a\"}"), C(<<161, 1, 2>>), C(<<161, 65, 1, 2>>),
            J("5"), C(<<247>>), C(<<192, 97, 97>>) >>

(* ---- documents: C16, C27 -------------------------------------------------------- *)

DocTexts == << Cps("t = any"), Cps("t = int / [* int] / {* int => int}"), Cps("t = tstr / bstr / [tstr]"),
               Cps("t = float / [* float]"), Cps("t = nil / bool / {* tstr => any}") >>
\* texts for embedded CBOR
CbwTexts == << Cps("t = bstr .cbor any"), Cps("t = bstr .cbor u u = int / tstr / [* int] / {* int => int}"),
               Cps("t = bstr .cbor u u = bstr .cbor any"), Cps("t = [bstr .cbor any, int] / bstr .cbor tstr / bstr"),
               Cps("t = {bstr .cbor any => int} / [* bstr .cbor int]"), Cps("t = [? bstr .cbor bstr, any, int] / tstr / bstr .cbor t") >>
Bstr(b) == <<64 + Len(b)>> \o b
\* beginnings of CBOR items and bytes to go on with
CbHeads == [b \in 1..256 |-> b - 1]
CbTail == <<0, 1, 24, 32, 64, 65, 96, 97, 128, 129, 130, 159, 160, 161, 191, 192, 224, 244, 246, 249, 255, 195>>
JsAlpha == Cps("0123-.eE+\"\\un[]{},: atrufls")
JsTok == << Cps("0"), Cps("-"), Cps("1"), Cps("."), Cps("e"), Cps("\"a\""), Cps("\"a\":"), Cps("["), Cps("]"), Cps("{"), Cps("}"), Cps(","),
            Cps(" "), Cps("true"), Cps("null"), Cps("\"b\":"), Cps("\"\\u00e9\""), Cps("+") >>

(* ---- what strings hold: C12, C14, C15 ---------------------------------------------- *)

Chars == << 0, 97, 32, 10, 13, 127, 233, 769, 65279, 65533, 128512, 65, 304, 223, 128, 2047, 2048, 65535, 1114111, 8232 >>
CharTexts == << Cps("t = tstr .size 1"), Cps("t = tstr .size 2"), Cps("t = tstr .size (3..5)"), Cps("t = [tstr .size 3, * tstr .size (0...4)]"),
                Cps("t = tstr .regexp \"^.$\""), Cps("t = tstr .regexp \"^[^a]+$\""), Cps("t = tstr .regexp \"a$\""),
                Cps("t = ") \o Join(<< <<34, 97, 34>>, <<34, 65, 34>>, <<34, 233, 34>>, Cps("\"\\u0000\""), <<34, 34>>, <<34, 65279, 97, 34>>,
                                      <<34, 97, 769, 34>>, <<34, 128512, 34>>, <<34, 32, 34>>, Cps("\"\\n\"") >>, <<47>>),
                Cps("t = {\"a\" => int, * tstr .size 2 => int} / {* tstr .size 1 => int}"),
                Cps("t = [* ") \o <<34, 233, 34>> \o Cps("] / [") \o <<34, 65279, 34>> \o Cps(", * any]"), Cps("t = 'a' / bstr / {bstr => int}") >>
JEsc(c) == IF c < 32 THEN Cps("\\u00") \o <<48 + c \div 16>> \o <<IF c % 16 < 10 THEN 48 + (c % 16) ELSE 87 + (c % 16)>> ELSE <<c>>
JLit(w) == <<34>> \o Flat(SeqMap(w, JEsc)) \o <<34>>
CharDoc(w, form) ==
  LET b == Utf8(w) IN
  CASE form = 1 -> [k |-> "json", s |-> JLit(w)]
    [] form = 2 -> C(CText(b))
    [] form = 3 -> C(<<127>> \o Flat(SeqMap(w, LAMBDA c : CText(Utf8Of1(c)))) \o <<255>>)
    [] form = 4 -> [k |-> "json", s |-> <<123>> \o JLit(w) \o Cps(":1}")]
    [] form = 5 -> C(<<130>> \o CText(b) \o CText(b))
    [] form = 6 -> [k |-> "json", s |-> Cps("[\"abc\",") \o JLit(w) \o Cps("]")]

Bytes8 == << <<0>>, <<1>>, <<32>>, <<97>>, <<128>>, <<195>>, <<169>>, <<255>> >>
ByteTexts == << Cps("t = bstr .size 1"), Cps("t = bstr .size (2..3)"), Cps("t = bstr .size (1...3) / 'a'"), Cps("t = 'a' / ") \o <<39, 233, 39>> \o Cps(" / h'00ff'"),
                Cps("t = tstr"), Cps("t = {'a' => int, * bstr .size 2 => int} / {h'00' ^ => int}"), Cps("t = [h'', * bstr .size 0] / [* h'0000'] / [h'61', * 'a']") >>
ByteDoc(w, form) ==
  CASE form = 1 -> C(CBytes(Flat(w)))
    [] form = 2 -> C(<<95>> \o Flat(SeqMap(w, CBytes)) \o <<255>>)
    [] form = 3 -> C(<<161>> \o CBytes(Flat(w)) \o <<1>>)
    [] form = 4 -> C(<<159>> \o CBytes(Flat(w)) \o CBytes(<<>>) \o <<255>>)
    [] form = 5 -> C(<<88, Len(Flat(w))>> \o Flat(w))

(* ---- entries of maps: C02, C27 ----------------------------------------------------- *)

DKeys == << Cps("\"a\""), Cps("\"b\""), Cps("\"\\u0061\"") >>
DVals == << Cps("1"), Cps("\"x\""), Cps("null") >>
DEnts == Cross(DKeys, DVals, LAMBDA x, y : x \o <<58>> \o y)
DKeysC == << <<97, 97>>, <<97, 98>>, <<127, 97, 97, 255>>, <<1>>, <<24, 1>>, <<65, 97>> >>
DEntsC == Cross(DKeysC, << <<1>>, <<97, 120>> >>, LAMBDA x, y : x \o y)
DupTexts == << Cps("t = {a: 1, ? b: 1}"), Cps("t = {a: tstr, * any => any}"), Cps("t = {? a: int, ? b: tstr}"), Cps("t = {* tstr => int}"),
               Cps("t = {1*1 tstr => any, ? b: int}"), Cps("t = {? \"a\" => int, * tstr => tstr, * int => int, * bstr => any}"), Cps("t = {? b: nil, * tstr => int / tstr}"),
               Cps("t = {2*2 any => any}") >>

(* ---- names defined again: C22, C25 --------------------------------------------------- *)

DDefs == << "a = int", "a<x> = [x]", "a = (k: int, l: tstr)", "a = 1..3", "a<x, y> = x / [y]", "a = nowhere", "a = [int]", "b = a", "b = a<tstr>",
            "t = [a, * b]", "t = {a}", "t = &a", "t = a<int>", "a = {k: b}" >>
DupDocs == << J("1"), J("5"), J("[1]"), J("[5]"), J("[1,\"a\"]"), J("[\"a\"]"), J("{\"k\":1,\"l\":\"a\"}"), J("{\"k\":1}"), J("[[1]]"), J("[1,1]"), J("\"a\""),
              J("[[1],[1]]"), J("[[1],[\"a\"]]") >>

---------------------------------------------------------------------------

T(body) == Cps("t = " \o body)

\* data to be put in order, plain and inside other data
CmpInts   == << <<0>>, <<1>>, <<23>>, <<24, 24>>, <<24, 255>>, <<25, 1, 0>>, <<25, 255, 255>>, <<26, 0, 1, 0, 0>>, <<27, 0, 0, 0, 1, 0, 0, 0, 0>>,
                <<27, 0, 32, 0, 0, 0, 0, 0, 1>>, <<27, 127, 255, 255, 255, 255, 255, 255, 255>>, <<27, 128, 0, 0, 0, 0, 0, 0, 0>>, <<27, 255, 255, 255, 255, 255, 255, 255, 255>>,
                <<32>>, <<33>>, <<55>>, <<56, 24>>, <<56, 255>>, <<57, 1, 0>>, <<59, 127, 255, 255, 255, 255, 255, 255, 255>>, <<59, 128, 0, 0, 0, 0, 0, 0, 0>>, <<59, 255, 255, 255, 255, 255, 255, 255, 255>> >>
CmpFloats == << <<249, 0, 0>>, <<249, 128, 0>>, <<249, 60, 0>>, <<249, 188, 0>>, <<249, 62, 0>>, <<249, 190, 0>>, <<249, 124, 0>>, <<249, 252, 0>>, <<251, 127, 248, 0, 0, 0, 0, 0, 0>>,
                <<251, 0, 0, 0, 0, 0, 0, 0, 1>>, <<251, 128, 0, 0, 0, 0, 0, 0, 1>>, <<251, 63, 185, 153, 153, 153, 153, 153, 154>>, <<251, 63, 185, 153, 153, 153, 153, 153, 155>>,
                <<251, 67, 64, 0, 0, 0, 0, 0, 0>>, <<251, 67, 64, 0, 0, 0, 0, 0, 1>>, <<251, 127, 239, 255, 255, 255, 255, 255, 255>>, <<251, 255, 239, 255, 255, 255, 255, 255, 255>> >>
CmpTexts  == << <<96>>, <<97, 0>>, <<97, 65>>, <<97, 97>>, <<98, 97, 97>>, <<98, 97, 98>>, <<97, 98>>, <<98, 195, 169>>, <<99, 239, 191, 191>>, <<100, 240, 159, 152, 128>>, <<99, 101, 204, 129>> >>
CmpBytes  == << <<64>>, <<65, 0>>, <<65, 97>>, <<65, 255>>, <<66, 0, 0>>, <<66, 97, 97>>, <<66, 255, 0>> >>
CmpRest   == << <<244>>, <<245>>, <<246>> >>
CmpPlain  == CmpInts \o CmpFloats \o CmpTexts \o CmpBytes \o CmpRest
CmpFew    == << <<0>>, <<32>>, <<249, 0, 0>>, <<249, 128, 0>>, <<96>>, <<97, 97>>, <<64>>, <<245>>, <<246>>, <<128>>, <<160>>, <<129, 0>>, <<161, 0, 0>> >>
CmpDocs   ==
  LET n == Len(CmpPlain)  k == Len(CmpFew)
      in(h, x) == [i \in 1..Len(x) |-> C(h \o x[i])]
      two(h)   == [i \in 1..k * k |-> C(h \o CmpFew[((i - 1) \div k) + 1] \o CmpFew[((i - 1) % k) + 1])]
  IN  in(<<>>, CmpPlain) \o in(<<>>, << <<128>>, <<160>>, <<129, 128>>, <<161, 128, 160>>, <<161, 160, 128>>, <<131, 0, 0, 0>> >>)
      \o in(<<129>>, CmpPlain) \o in(<<161, 0>>, CmpPlain) \o [i \in 1..n |-> C(<<161>> \o CmpPlain[i] \o <<0>>)]
      \o two(<<130>>) \o two(<<161>>) \o [i \in 1..k |-> C(<<162, 0>> \o CmpFew[i] \o <<1, 0>>)] \o [i \in 1..k |-> C(<<162, 0, 0, 1>> \o CmpFew[i])]
      \o <<J("1"), J("1.0"), J("-0.0"), J("0"), J("[1]"), J("{}"), J("{\"a\":1}"), J("{\"b\":0,\"a\":1}"), J("\"a\""), J("null")>>

\* dimensions of a family
Dims(f) ==
  CASE f = "arr1"  -> <<Len(A2), 1, 1>>
    [] f = "arr2"  -> <<Len(A2), Len(A1), 1>>
    [] f = "arr2r" -> <<Len(A1), Len(A2), 1>>
    [] f = "arr3"  -> <<Len(A3), Len(A1) + 1, 1>>
    [] f = "arr22" -> <<Len(A2), Len(A2), 1>>
    [] f = "map2"  -> <<Len(M1), Len(MEnd), 1>>
    [] f = "map3"  -> <<Len(M0), Len(M0), Len(M0)>>
    [] f = "map22" -> <<Len(M1), Len(M1), 1>>
    [] f = "err"   -> <<ECtxs, Len(EX), Len(EX)>>
    [] f = "num"   -> <<Len(N1), 1, 1>>
    [] f = "range" -> <<Len(NLits), Len(NLits), 2>>
    [] f = "sizer" -> <<Len(NLits), Len(NLits), 6>>
    [] f = "rx"    -> <<Upto(Len(RxAlpha), 3), 1, 1>>
    [] f = "rx4"   -> <<Upto(Len(RxAlpha), 4), 1, 1>>
    [] f = "lnum"  -> <<Upto(Len(LitNum), 4), 1, 1>>
    [] f = "lbig"  -> <<Upto(Len(LitBig), 3), 1, 1>>
    [] f = "ltxt"  -> <<Upto(Len(LitTxt), 3), 2, 1>>
    [] f = "lhex"  -> <<Upto(Len(LitHex), 4), 1, 1>>
    [] f = "lb64"  -> <<Upto(Len(LitB64), 5), 1, 1>>
    [] f = "tok"   -> <<Upto(Len(Tok), 3), Len(Frames), 1>>
    [] f = "tok4"  -> <<Pow(Len(Tok), 4), Len(Frames), 1>>
    [] f = "nest"  -> <<Len(NestF), Len(NestF), Len(NestCore)>>
    [] f = "nestg" -> <<Len(NestF), Len(NestF), Len(NestCore)>>
    [] f = "long"  -> <<Len(LongP), Len(LongN), 1>>
    [] f = "rec"   -> <<Len(Bodies), Len(Bodies), Len(Bodies)>>
    [] f = "gen"   -> <<Len(GArgs), Len(GBodies), Len(HBodies)>>
    [] f = "unw"   -> <<Len(UDefs), UCtxs, Len(VDefs)>>
    [] f = "prel"  -> <<Len(PNames), PCtxs, 1>>
    [] f = "cbor3" -> <<256, Len(CbTail) + 1, Len(CbTail) + 1>>
    [] f = "cbor2" -> <<256, 256, 1>>
    [] f = "cbw"   -> <<256, Len(CbTail) + 1, 4>>
    [] f = "src"   -> <<Upto(Len(SrcTok), 4), 1, 1>>
    [] f = "json"  -> <<Upto(Len(JsTok), 3), 1, 1>>
    [] f = "nearv" -> <<Len(NearV), 34, VWays>>
    [] f = "near"  -> <<Len(NearT), NearPlace, NearWays>>
    [] f = "kinds" -> <<KPositions, Len(KTypes), Len(KTypes)>>
    [] f = "hand" -> <<HPositions, Len(HNodes), Len(HNodes)>>
    [] f = "handw" -> <<HRoles, HWraps, Len(HNodes)>>
    [] f = "wide" -> <<WKinds, NWSizes, 1>>
    [] f = "deep" -> <<DPairs, 4, Len(DDepths)>>
    [] f = "node" -> <<Len(NNodes), Len(NNodes), 1>>
    [] f = "cmp"  -> <<Len(CmpDocs), 1, 1>>
    [] f = "ast" -> <<APositions, Len(ATypes), Len(ATypes)>>
    [] f = "chars" -> <<Upto(Len(Chars), 3), 6, 1>>
    [] f = "bys"   -> <<Upto(Len(Bytes8), 4), 5, 1>>
    [] f = "dupj"  -> <<Upto(Len(DEnts), 4), 1, 1>>
    [] f = "dupc"  -> <<Upto(Len(DEntsC), 4), 2, 1>>
    [] f = "defs"  -> <<Len(DDefs), Len(DDefs), Len(DDefs)>>
    [] f = "growA" -> <<ArrKinds, NSizes, 1>>
    [] f = "growM" -> <<MapKinds, NSizes, 1>>
    [] f = "growR" -> <<RuleKinds, NSizes, 1>>
    [] f = "growV" -> <<ValKinds, NSizes, 1>>
    [] f = "growP" -> <<ParKinds, NSizes, 1>>
    [] f = "jsonc" -> <<Upto(Len(JsAlpha), 3), 1, 1>>

\* what a point of the family is: a text to validate documents against
\* ("val"; documents of its own: "both"), a text to parse ("parse"), or a
\* document ("doc")
Kind(f) == CASE f \in {"lnum", "lbig", "ltxt", "lhex", "lb64", "tok", "tok4", "nest", "nestg", "long", "src", "growP", "near"} -> "parse"
             [] f \in {"growA", "growM", "growR", "growV", "nearv"} -> "both"
             [] f \in {"cbor2", "cbor3", "cbw", "json", "jsonc", "chars", "bys", "dupj", "dupc"} -> "doc"
             [] f \in {"hand", "handw"} -> "hand"
             [] f \in {"ast", "node", "cmp", "wide"} -> f
             [] f = "deep" -> "wide"
             [] OTHER -> "val"

Point(f, a, b, c) ==
  CASE f = "arr1"  -> T("[" \o A2[a] \o "]")
    [] f = "arr2"  -> T("[" \o A2[a] \o ", " \o A1[b] \o "]")
    [] f = "arr2r" -> T("[" \o A1[a] \o ", " \o A2[b] \o "]")
    [] f = "arr3"  -> T("[" \o A3[a] \o (IF b = 1 THEN "" ELSE ", " \o A1[b - 1]) \o "]")
    [] f = "arr22" -> T("[" \o A2[a] \o ", " \o A2[b] \o "]")
    [] f = "map2"  -> T("{" \o M1[a] \o MEnd[b] \o "}")
    [] f = "map3"  -> T("{" \o M0[a] \o ", " \o M0[b] \o ", " \o M0[c] \o "}")
    [] f = "map22" -> T("{" \o M1[a] \o ", " \o M1[b] \o "}")
    [] f = "err"   -> T(ECtx(a, EX[b], EX[c]) \o EDefs)
    [] f = "num"   -> T(N1[a] \o " num = uint")
    [] f = "range" -> T(NLits[a] \o NOps[c] \o NLits[b])
    [] f = "sizer" -> T(<<"uint", "tstr", "bstr">>[((c - 1) % 3) + 1] \o " .size (" \o NLits[a] \o NOps[((c - 1) \div 3) + 1]
                        \o NLits[b] \o ")")
    [] f \in {"rx", "rx4"} -> RxText(a)
    [] f = "lnum"  -> Cps("t = ") \o WordOf(LitNum, a)
    [] f = "lbig"  -> Cps("t = ") \o Flat(WordOf(LitBig, a))
    [] f = "ltxt"  -> LET q == IF b = 1 THEN <<34>> ELSE <<39>> IN Cps("t = ") \o q \o Flat(WordOf(LitTxt, a)) \o q
    [] f = "lhex"  -> Cps("t = h'") \o WordOf(LitHex, a) \o <<39>>
    [] f = "lb64"  -> Cps("t = b64'") \o WordOf(LitB64, a) \o <<39>>
    [] f = "tok"   -> Frames[b][1] \o Flat(WordOf(Tok, a)) \o Frames[b][2]
    [] f = "tok4"  -> Frames[b][1] \o Flat(LWord(Tok, a - 1, 4)) \o Frames[b][2]
    [] f = "nest"  -> Nest(a, b, c, "t = ")
    [] f = "nestg" -> Nest(a, b, c, "t = [? ") \o Cps("]")
    [] f = "long"  -> Long(a, b)
    [] f = "rec"   -> T(Bodies[a] \o " a = " \o Bodies[b] \o " b = " \o Bodies[c])
    [] f = "gen"   -> T("g<" \o GArgs[a] \o "> g<x> = " \o GBodies[b] \o " h<z> = " \o HBodies[c] \o " x = " \o XDefs[c] \o " y = " \o YDefs[c])
    [] f = "unw"   -> T(UCtx(b) \o " u = " \o UDefs[a] \o " v = " \o VDefs[c] \o " w = [int]")
    [] f = "prel"  -> T(PCtx(b, PNames[a]) \o " other = int")
    [] f = "cbor2" -> C(<<a - 1, b - 1>>)
    [] f = "cbor3" -> C(<<a - 1>> \o (IF b = 1 THEN <<>> ELSE <<CbTail[b - 1]>>)
                                  \o (IF c = 1 THEN <<>> ELSE <<CbTail[c - 1]>>))
    [] f = "cbw"   -> LET x == <<a - 1>> \o (IF b = 1 THEN <<>> ELSE <<CbTail[b - 1]>>) IN
                      C(CASE c = 1 -> Bstr(x) [] c = 2 -> Bstr(Bstr(x)) [] c = 3 -> <<130>> \o Bstr(x) \o <<1>>
                          [] c = 4 -> <<161>> \o Bstr(x) \o <<2>>)
    [] f = "src"   -> Flat(WordOf(SrcTok, a))
    [] f = "nearv" -> NearVal(a, b, c)
    [] f = "near"  -> Near(a, b, c)
    [] f = "kinds" -> KText(a, b, c)
    [] f = "hand"  -> HandPoint(a, b, c)
    [] f = "handw" -> HandWrapPoint(a, b, c)
    [] f = "node"  -> <<NNodes[a], NNodes[b]>>
    [] f = "cmp"   -> a
    [] f = "ast"   -> APos(a, ATypes[b], ATypes[c])
    [] f = "chars" -> CharDoc(WordOf(Chars, a), b)
    [] f = "bys"   -> ByteDoc(WordOf(Bytes8, a), b)
    [] f = "dupj"  -> [k |-> "json", s |-> <<123>> \o Join(WordOf(DEnts, a), <<44>>) \o <<125>>]
    [] f = "dupc"  -> LET w == WordOf(DEntsC, a) IN C((IF b = 1 THEN CHead(5, Len(w)) ELSE <<191>>) \o Flat(w) \o (IF b = 1 THEN <<>> ELSE <<255>>))
    [] f = "defs"  -> Cps(DDefs[a] \o " " \o DDefs[b] \o " t = a / b b = tstr " \o DDefs[c])
    [] f = "wide"  -> Wide(a, WSizes[b])
    [] f = "deep"  -> Deeply(a, b, c)
    [] f = "growA" -> GrowArr(a, Sizes[b])
    [] f = "growM" -> GrowMap(a, Sizes[b])
    [] f = "growR" -> GrowRule(a, Sizes[b])
    [] f = "growV" -> GrowVal(a, Sizes[b])
    [] f = "growP" -> GrowPar(a, Sizes[b])
    [] f = "json"  -> [k |-> "json", s |-> Flat(WordOf(JsTok, a))]
    [] f = "jsonc" -> [k |-> "json", s |-> WordOf(JsAlpha, a)]

Docs(f) ==
  CASE f \in {"arr1", "arr2", "arr2r", "arr3", "arr22"} -> ArrDocs
    [] f \in {"map2", "map3", "map22"} -> MapDocs
    [] f = "err"  -> EDocs
    [] f \in {"num", "range", "sizer"} -> NDocs
    [] f \in {"rx", "rx4"} -> RxDocs
    [] f = "rec"  -> RecDocs
    [] f = "gen"  -> GDocs
    [] f = "unw"  -> UDocs
    [] f = "prel" -> PDocs
    [] f \in {"kinds", "hand", "handw"} -> KDocs
    [] f = "defs" -> DupDocs
    [] f = "cmp"  -> CmpDocs
    [] OTHER -> <<>>

---------------------------------------------------------------------------
(* the family, and which residue class of it, come from the environment *)
Fam    == IOEnv.FAMILY
Stride == atoi(IOEnv.STRIDE)
Offset == atoi(IOEnv.OFFSET)
\* a part of the first dimension
Lo == IF "LO" \in DOMAIN IOEnv THEN atoi(IOEnv.LO) ELSE 1
Hi == IF "HI" \in DOMAIN IOEnv THEN atoi(IOEnv.HI) ELSE Dims(Fam)[1]

\* some of the first dimension: "0101" has the second and fourth
Picked(a) == "PICK" \in DOMAIN IOEnv => a <= Len(IOEnv.PICK) /\ SubSeq(IOEnv.PICK, a, a) = "1"
InClass(a, b, c) == LET d == Dims(Fam) IN
                    Picked(a) /\ (((a - 1) * d[2] + (b - 1)) * d[3] + (c - 1)) % Stride = Offset % Stride
TheDocs == Docs(Fam)
TheTexts == CASE Fam = "cbw" -> CbwTexts [] Fam = "chars" -> CharTexts [] Fam = "bys" -> ByteTexts
              [] Fam \in {"dupj", "dupc"} -> DupTexts [] OTHER -> DocTexts
TheData == [d \in 1..Len(TheDocs) |-> Decode(TheDocs[d])]
=============================================================================
