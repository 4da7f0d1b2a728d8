--------------------------------- MODULE Wide ---------------------------------
(* Shapes of any size, too large to be evaluated one step after another.    *)
(* The schema and the documents are patterns: pieces repeated for i = lo,   *)
(* ..., hi, with i written where the piece says so.  What the results are   *)
(* is said in closed form, as a function of the size.  For the sizes up to  *)
(* WChecked, where patterns are filled and the semantics evaluated, Enum    *)
(* asserts that the two agree; beyond, the real code is asked alone.        *)
EXTENDS Str

WChecked == 24
WSizes == [i \in 1..WChecked |-> i] \o
  <<255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 9999, 10000, 10001, 16383, 16384, 16385,
    32767, 32768, 32769, 65534, 65535, 65536, 65537, 99999, 100000, 100001, 131071, 131072, 131073>>
NWSizes == Len(WSizes)

\* i in decimal; i as a CBOR integer
WDec == -1
WCbor == -2

WHead(major, n) == IF n < 24 THEN <<major * 32 + n>>
                   ELSE IF n < 256 THEN <<major * 32 + 24, n>>
                   ELSE IF n < 65536 THEN <<major * 32 + 25, n \div 256, n % 256>>
                   ELSE <<major * 32 + 26, n \div 16777216, (n \div 65536) % 256, (n \div 256) % 256, n % 256>>
Wr(c, i) == Flat([j \in 1..Len(c) |-> IF c[j] = WDec THEN Num(i) ELSE IF c[j] = WCbor THEN WHead(0, i) ELSE <<c[j]>>])
Filled(T_) == Flat([j \in 1..Len(T_) |-> LET p == T_[j] IN
                 Flat([i \in 1..(IF p.hi < p.lo THEN 0 ELSE p.hi - p.lo + 1) |-> Wr(p.c, p.lo + i - 1)])])
Doc(d) == [k |-> d.k, s |-> Filled(d.s)]

P(c)         == <<[c |-> c, lo |-> 1, hi |-> 1]>>
S(s)         == P(Cps(s))
Rg(c, lo, hi) == <<[c |-> c, lo |-> lo, hi |-> hi]>>
RgS(s, lo, hi) == Rg([i \in 1..Len(s) |-> IF SubSeq(s, i, i) = "@" THEN WDec ELSE Cps(s)[i]], lo, hi)
\* with commas between
Row(s, lo, hi) == RgS(s, lo, IF lo > hi THEN hi ELSE lo) \o RgS("," \o s, lo + 1, hi)
Dj(s, r) == [k |-> "json", s |-> s, r |-> r]
Dc(s, r) == [k |-> "cbor", s |-> s, r |-> r]
JRow(s, n) == S("[") \o Row(s, 1, n) \o S("]")
JObj_(s, n) == S("{") \o Row(s, 1, n) \o S("}")
Str_(s, n) == S("\"") \o RgS(s, 1, n) \o S("\"")
Nn(n) == P(Num(n))
Y == "ok"
N == "mismatch"
If(b, x, y) == IF b THEN x ELSE y
Both(x, d) == [x |-> x, d |-> d]
Tx(s) == S("t = ") \o s
OneJ(n, r) == Dj(Nn(n), r)

WKinds == 77
\* sizes that are as much as is worth asking for: n * n steps, and what a compiled pattern may take
WMin(a, b) == IF a < b THEN a ELSE b
Wide(k, size) ==
  LET n == IF k = 46 THEN WMin(size, 1025) ELSE IF k = 50 THEN WMin(size, 4097) ELSE size IN
  CASE k = 1 -> Both(Tx(S("[* int]")), <<Dj(JRow("1", n), Y), Dj(S("[") \o Row("1", 1, n) \o S(",\"a\"]"), N), Dj(S("[\"a\"") \o RgS(",1", 1, n) \o S("]"), N)>>)
    [] k = 2 -> Both(Tx(S("[* int, tstr]")), <<Dj(JRow("1", n), N), Dj(S("[") \o Row("@", 1, n) \o S(",\"a\"]"), Y), Dj(S("[") \o Row("1", 1, n) \o S(",\"a\",\"a\"]"), N)>>)
    [] k = 3 -> Both(Tx(S("[") \o Nn(n) \o S("*") \o Nn(n) \o S(" int]")), <<Dj(JRow("@", n - 1), N), Dj(JRow("@", n), Y), Dj(JRow("@", n + 1), N)>>)
    [] k = 4 -> Both(Tx(S("[*") \o Nn(n) \o S(" int, * tstr]")), <<Dj(JRow("1", n), Y), Dj(JRow("1", n + 1), N), Dj(S("[") \o Row("1", 1, n) \o RgS(",\"a\"", 1, n) \o S("]"), Y), Dj(JRow("\"a\"", n), Y)>>)
    [] k = 5 -> Both(Tx(S("[") \o Nn(n) \o S("* int]")), <<Dj(JRow("1", n - 1), N), Dj(JRow("1", n), Y), Dj(JRow("1", n + 1), Y), Dj(JRow("1", 2 * n), Y)>>)
    [] k = 6 -> Both(Tx(S("[* (int, tstr), ? int]")), <<Dj(JRow("1,\"a\"", n), Y), Dj(S("[") \o Row("1,\"a\"", 1, n) \o S(",1]"), Y), Dj(S("[") \o Row("1,\"a\"", 1, n) \o S(",\"a\"]"), N),
                                                        Dj(S("[") \o Row("1,\"a\"", 1, n) \o S(",1,1]"), N)>>)
    [] k = 7 -> Both(Tx(S("[") \o Row("int", 1, n) \o S("]")), <<Dj(JRow("1", n - 1), N), Dj(JRow("1", n), Y), Dj(JRow("1", n + 1), N), Dj(S("[") \o RgS("1,", 1, n - 1) \o S("\"a\"]"), N)>>)
    [] k = 8 -> Both(Tx(S("[") \o Row("? @", 1, n) \o S("]")), <<Dj(S("[") \o Nn(n) \o S("]"), Y), Dj(S("[") \o Nn(n + 1) \o S("]"), N), Dj(S("[") \o Nn(n) \o S(",1]"), N), Dj(JRow("@", n), Y)>>)
    [] k = 9 -> Both(Tx(S("[0") \o RgS(" // @", 1, n) \o S("]")), <<Dj(S("[") \o Nn(n) \o S("]"), Y), Dj(S("[") \o Nn(n + 1) \o S("]"), N), Dj(S("[0]"), Y), Dj(S("[0,") \o Nn(n) \o S("]"), N)>>)
    [] k = 10 -> Both(Tx(S("[g, tstr] g = (") \o Row("int", 1, n) \o S(")")), <<Dj(S("[") \o Row("1", 1, n) \o S(",\"a\"]"), Y), Dj(JRow("1", n + 1), N), Dj(S("[") \o Row("1", 1, n + 1) \o S(",\"a\"]"), N)>>)
    [] k = 11 -> Both(Tx(S("[* u] u = (0 // 1 // 2, tstr)")), <<Dj(JRow("2,\"a\",1,0", n), Y), Dj(S("[") \o Row("2,\"a\",1,0", 1, n) \o S(",2]"), N), Dj(S("[") \o Row("2,\"a\",1,0", 1, n) \o S(",3]"), N)>>)
    [] k = 12 -> Both(Tx(S("[") \o Nn(n) \o S("*") \o Nn(n) \o S(" (int, tstr), * int]")), <<Dj(JRow("1,\"a\"", n), Y), Dj(S("[") \o Row("1,\"a\"", 1, n) \o S(",1]"), Y), Dj(JRow("1,\"a\"", n + 1), N),
                                                        Dj(S("[") \o RgS("1,\"a\",", 1, n - 1) \o S("1]"), N)>>)
    [] k = 13 -> Both(Tx(S("{* tstr => int}")), <<Dj(JObj_("\"k@\":@", n), Y), Dj(S("{") \o RgS("\"k@\":@,", 1, n) \o S("\"z\":\"a\"}"), N), Dj(S("{\"a\":\"a\"") \o RgS(",\"k@\":@", 1, n) \o S("}"), N)>>)
    [] k = 14 -> Both(Tx(S("{") \o Nn(n) \o S("*") \o Nn(n) \o S(" tstr => int}")), <<Dj(JObj_("\"k@\":@", n - 1), N), Dj(JObj_("\"k@\":@", n), Y), Dj(JObj_("\"k@\":@", n + 1), N)>>)
    [] k = 15 -> Both(Tx(S("{") \o Row("k@: int", 1, n) \o S("}")), <<Dj(JObj_("\"k@\":@", n), Y), Dj(JObj_("\"k@\":1", n - 1), N), Dj(JObj_("\"k@\":1", n + 1), N), Dj(S("{") \o RgS("\"k@\":1,", 1, n - 1) \o S("\"k") \o Nn(n) \o S("\":\"a\"}"), N)>>)
    [] k = 16 -> Both(Tx(S("{") \o RgS("? k@: int, ", 1, n) \o S("* tstr => any}")), <<Dj(S("{\"k") \o Nn(n) \o S("\":\"a\"}"), N), Dj(S("{\"k") \o Nn(n + 1) \o S("\":\"a\"}"), Y), Dj(JObj_("\"k@\":1", n + 1), Y)>>)
    [] k = 17 -> Both(Tx(S("{* uint => int}")), <<Dc(P(WHead(5, n)) \o Rg(<<WCbor, 0>>, 1, n), Y), Dc(P(WHead(5, n)) \o Rg(<<WCbor, 0>>, 1, n - 1) \o P(<<0, 96>>), N),
                                                   Dc(P(WHead(5, n)) \o Rg(<<WCbor, 0>>, 1, n - 1), "value"), Dc(P(<<191>>) \o Rg(<<WCbor, WCbor>>, 1, n) \o P(<<255>>), Y)>>)
    [] k = 18 -> Both(Tx(S("{k1: int") \o RgS(" // k@: int", 2, n) \o S("}")), <<Dj(S("{\"k") \o Nn(n) \o S("\":1}"), Y), Dj(S("{\"k") \o Nn(n + 1) \o S("\":1}"), N), Dj(S("{\"k1\":1}"), Y)>>)
    [] k = 19 -> Both(Tx(S("{k: ") \o Nn(n) \o S("}")), <<Dj(JObj_("\"k\":@", n), Y), Dj(JObj_("\"k\":@", n + 1), N), Dj(S("{") \o RgS("\"k\":0,", 1, n) \o S("\"k\":") \o Nn(n) \o S("}"), Y)>>)
    [] k = 20 -> Both(Tx(S("0") \o RgS(" / @", 1, n)), <<OneJ(n, Y), OneJ(n + 1, N), OneJ(0, Y)>>)
    [] k = 21 -> Both(Tx(S("&(") \o Row("k@: @", 1, n) \o S(")")), <<OneJ(n, Y), OneJ(n + 1, N), OneJ(1, Y), OneJ(0, N)>>)
    [] k = 22 -> Both(Tx(S("r") \o Nn(n) \o RgS(" r@ = @", 1, n)), <<OneJ(n, Y), OneJ(n + 1, N), OneJ(1, If(n = 1, Y, N))>>)
    [] k = 23 -> Both(Tx(S("r") \o RgS(" r = @", 1, n)), <<OneJ(n, Y), OneJ(n + 1, N), OneJ(1, If(n = 1, Y, N))>>)
    [] k = 24 -> Both(Tx(RgS("a", 1, n) \o S("b ") \o RgS("a", 1, n) \o S("c = 0 ") \o RgS("a", 1, n) \o S("b = 1 ") \o RgS("a", 1, n + 1) \o S("b = 2")), <<OneJ(0, N), OneJ(1, Y), OneJ(2, N)>>)
    [] k = 25 -> Both(Tx(S("g<") \o Row("@", 1, n) \o S("> g<") \o Row("p@", 1, n) \o S("> = p") \o Nn(n) \o S(" / p1")), <<OneJ(n, Y), OneJ(n + 1, N), OneJ(1, Y), OneJ(0, N)>>)
    [] k = 26 -> Both(Tx(Str_("a", n)), <<Dj(Str_("a", n), Y), Dj(Str_("a", n - 1), N), Dj(Str_("a", n + 1), N), Dj(S("\"") \o RgS("a", 1, n - 1) \o S("b\""), N), Dj(S("\"") \o RgS("\\u0061", 1, n) \o S("\""), Y)>>)
    [] k = 27 -> Both(Tx(S("'") \o RgS("a", 1, n) \o S("'")), <<Dc(P(WHead(2, n)) \o RgS("a", 1, n), Y), Dc(P(WHead(2, n + 1)) \o RgS("a", 0, n), N), Dc(P(WHead(2, n)) \o RgS("a", 2, n) \o S("b"), N), Dc(P(WHead(3, n)) \o RgS("a", 1, n), N)>>)
    [] k = 28 -> Both(Tx(S("tstr .size ") \o Nn(2 * n)), <<Dj(Str_("a", 2 * n), Y), Dj(Str_("a", 2 * n - 1), N), Dj(Str_("a", 2 * n + 1), N), Dj(S("\"") \o Rg(<<233>>, 1, n) \o S("\""), Y), Dj(S("\"") \o Rg(<<233>>, 1, n) \o S("a\""), N)>>)
    [] k = 29 -> Both(Tx(S("bstr .size ") \o Nn(n)), <<Dc(P(WHead(2, n)) \o Rg(<<7>>, 1, n), Y), Dc(P(WHead(2, n + 1)) \o Rg(<<7>>, 0, n), N), Dc(P(WHead(2, n - 1)) \o Rg(<<7>>, 2, n), N),
                                                     Dc(P(WHead(2, n)) \o Rg(<<7>>, 2, n), "value"), Dc(P(<<95>>) \o Rg(<<65, 7>>, 1, n) \o P(<<255>>), Y)>>)
    [] k = 30 -> Both(Tx(S("tstr .size (1...") \o Nn(n) \o S(") / bstr .size (") \o Nn(n) \o S("..") \o Nn(n + 1) \o S(")")), <<Dj(Str_("a", n), N), Dj(Str_("a", n - 1), If(n = 1, N, Y)), Dc(P(WHead(2, n)) \o Rg(<<7>>, 1, n), Y),
                                                     Dc(P(WHead(2, n + 1)) \o Rg(<<7>>, 0, n), Y), Dc(P(WHead(2, n + 2)) \o Rg(<<7>>, 0, n + 1), N), Dc(P(WHead(2, n - 1)) \o Rg(<<7>>, 2, n), N)>>)
    [] k = 31 -> Both(Tx(S("tstr .regexp \"^a*$\"")), <<Dj(Str_("a", n), Y), Dj(S("\"") \o RgS("a", 1, n) \o S("b\""), N), Dj(S("\"b") \o RgS("a", 1, n) \o S("\""), N)>>)
    [] k = 32 -> Both(Tx(S("h'") \o RgS("07", 1, n) \o S("'")), <<Dc(P(WHead(2, n)) \o Rg(<<7>>, 1, n), Y), Dc(P(WHead(2, n + 1)) \o Rg(<<7>>, 0, n), N), Dc(P(WHead(2, n)) \o Rg(<<7>>, 2, n) \o P(<<8>>), N)>>)
    [] k = 33 -> Both(Tx(S("b64'") \o RgS("AAAA", 1, n) \o S("'")), <<Dc(P(WHead(2, 3 * n)) \o Rg(<<0>>, 1, 3 * n), Y), Dc(P(WHead(2, 3 * n)) \o Rg(<<0>>, 2, 3 * n) \o P(<<1>>), N)>>)
    [] k = 34 -> LET body(m) == WHead(4, m)  bytes(m, e) == P(WHead(2, Len(body(m)) + e)) \o P(body(m)) IN
                 Both(Tx(S("bstr .cbor [* int]")), <<Dc(bytes(n, n) \o Rg(<<7>>, 1, n), Y), Dc(bytes(n, n) \o Rg(<<7>>, 2, n) \o P(<<96>>), N), Dc(bytes(n, n - 1) \o Rg(<<7>>, 2, n), "value")>>)
    [] k = 35 -> Both(Tx(S("tstr .size ") \o Nn(n)), <<Dc(P(<<127>>) \o Rg(<<97, 97>>, 1, n) \o P(<<255>>), Y), Dc(P(<<127>>) \o Rg(<<97, 97>>, 0, n) \o P(<<255>>), N), Dc(P(WHead(3, n)) \o RgS("a", 1, n), Y)>>)
    [] k = 36 -> Both(S(";") \o RgS("x", 1, n) \o P(<<10>>) \o Tx(Rg(<<32>>, 1, n) \o S("[int") \o Rg(<<10>>, 1, n) \o S("/ nil") \o RgS("; ]", 1, n) \o P(<<10>>) \o Rg(<<9>>, 1, n) \o S("]") \o Rg(<<13, 10>>, 1, n)),
                      <<Dj(S("[null]"), Y), Dj(S("[]"), N)>>)
    [] k = 37 -> Both(Tx(S("int ") \o Rg(<<59, 99, 10>>, 1, n) \o S("/ tstr") \o Rg(<<32, 59, 10>>, 1, n)), <<Dj(S("\"\""), Y), OneJ(n, Y), Dj(S("[]"), N)>>)
    [] k = 38 -> Both(Tx(S("1.") \o RgS("0", 1, n)), <<Dj(S("1.") \o RgS("0", 1, n), Y), Dj(S("1.5"), N), OneJ(1, N)>>)
    [] k = 39 -> Both(Tx(RgS("9", 1, n)), <<OneJ(9, If(n = 1, Y, If(n < 20, N, "parse"))), Dj(RgS("9", 1, If(n < 19, n, 19)), If(n < 20, Y, "parse"))>>)
    [] k = 40 -> Both(Tx(S("int / nil") \o RgS(" u@ = [t, int]", 1, n) \o RgS(" v@<x> = (x, t)", 1, n)), <<OneJ(n, Y), Dj(S("null"), Y), Dj(S("\"\""), N)>>)
    [] k = 41 -> Both(Tx(S("10.0")), <<Dj(S("1e") \o RgS("0", 1, n) \o S("1"), Y), Dj(S("10.") \o RgS("0", 1, n), Y), Dj(S("10.") \o RgS("0", 1, n) \o S("e0"), Y), Dj(RgS(" ", 1, n) \o S("1e1") \o Rg(<<10>>, 1, n), Y)>>)
    [] k = 42 -> Both(Tx(S("[* any]")), <<Dj(S("[") \o Row("[@]", 1, n) \o S("]"), Y), Dj(S("[") \o Row("{\"@\":@}", 1, n) \o S("]"), Y), Dj(S("[") \o Row("1", 1, n) \o S(",]"), "value"), Dj(S("[") \o Row("1", 1, n), "value")>>)
    [] k = 43 -> Both(Tx(S("[* any]")), <<Dc(P(WHead(4, n)) \o Rg(<<246>>, 1, n), Y), Dc(P(<<159>>) \o Rg(<<128>>, 1, n) \o P(<<255>>), Y), Dc(P(WHead(4, n)) \o Rg(<<246>>, 2, n), "value"), Dc(P(<<159>>) \o Rg(<<160>>, 1, n), "value")>>)
    [] k = 44 -> Both(Tx(S("{* tstr => int, ? \"k") \o Nn(n) \o S("\" => tstr}")), <<Dj(JObj_("\"k@\":@", n), Y), Dj(S("{") \o RgS("\"j@\":1,", 1, n) \o S("\"k") \o Nn(n) \o S("\":\"a\"}"), Y), Dj(S("{\"k") \o Nn(n) \o S("\":\"a\"}"), Y)>>)
    [] k = 45 -> Both(Tx(S("{") \o RgS("? \"k@\" => int, ", 1, n) \o S("* tstr => tstr}")), <<Dj(S("{\"k") \o Nn(n) \o S("\":\"a\"}"), Y), Dj(S("{\"k") \o Nn(n) \o S("\":1}"), Y), Dj(S("{\"k") \o Nn(n + 1) \o S("\":1}"), N)>>)
    [] k = 46 -> Both(Tx(S("{* (0") \o RgS(" / @", 1, n) \o S(") => bool}")), <<Dc(P(WHead(5, n)) \o Rg(<<WCbor, 244>>, 1, n), Y), Dc(P(WHead(5, n + 1)) \o Rg(<<WCbor, 244>>, 1, n + 1), N), Dc(P(WHead(5, n)) \o Rg(<<WCbor, 244>>, 1, n - 1) \o P(<<0, 0>>), N)>>)
    [] k = 47 -> Both(Tx(S("[~u, tstr] u = [") \o Row("int", 1, n) \o S("]")), <<Dj(S("[") \o Row("1", 1, n) \o S(",\"a\"]"), Y), Dj(JRow("1", n + 1), N), Dj(S("[") \o Row("1", 1, n + 1) \o S(",\"a\"]"), N)>>)
    [] k = 48 -> Both(Tx(S("int .lt ") \o Nn(n)), <<OneJ(n, N), OneJ(n - 1, Y), OneJ(n + 1, N)>>)
    [] k = 49 -> Both(Tx(Nn(n) \o S("..") \o Nn(2 * n)), <<OneJ(n, Y), OneJ(n - 1, N), OneJ(2 * n, Y), OneJ(2 * n + 1, N), Dj(S("-") \o Nn(n), N)>>)
    [] k = 50 -> Both(Tx(S("tstr .regexp \"") \o RgS("a", 1, n) \o S("$\"")), <<Dj(Str_("a", n), Y), Dj(Str_("a", n - 1), N), Dj(Str_("a", n + 1), Y), Dj(S("\"") \o RgS("a", 1, n) \o S("b\""), N)>>)
    [] k = 51 -> Both(Tx(S("{g, * tstr => tstr} g = (") \o Row("? k@: int", 1, n) \o S(")")), <<Dj(S("{\"k") \o Nn(n) \o S("\":\"a\"}"), N), Dj(S("{\"k") \o Nn(n + 1) \o S("\":\"a\"}"), Y), Dj(JObj_("\"k@\":1", n), Y)>>)
    [] k = 52 -> Both(Tx(S("t1 t1 = [* t2] t2 = [t3, ? t3] t3 = int / tstr")), <<Dj(JRow("[@]", n), Y), Dj(JRow("[1,\"@\"]", n), Y), Dj(S("[") \o Row("[1]", 1, n) \o S(",[1,1,1]]"), N), Dj(S("[[]") \o RgS(",[@]", 1, n) \o S("]"), N)>>)
    [] k = 53 -> Both(Tx(S("[") \o Row("@", 1, n) \o S("]")), <<Dj(JRow("@", n), Y), Dc(P(WHead(4, n)) \o Rg(<<WCbor>>, 1, n), Y), Dc(P(<<159>>) \o Rg(<<WCbor>>, 1, n) \o P(<<255>>), Y),
                                                        Dc(P(WHead(4, n)) \o Rg(<<WCbor>>, 1, n - 1) \o P(<<0>>), N), Dc(P(WHead(4, n + 1)) \o Rg(<<WCbor>>, 1, n + 1), N), Dc(P(WHead(4, n - 1)) \o Rg(<<WCbor>>, 1, n - 1), N)>>)
    [] k = 54 -> Both(Tx(S("{") \o Row("@ => @", 1, n) \o S("}")), <<Dc(P(WHead(5, n)) \o Rg(<<WCbor, WCbor>>, 1, n), Y), Dc(P(<<191>>) \o Rg(<<WCbor, WCbor>>, 1, n) \o P(<<255>>), Y), Dc(P(WHead(5, n - 1)) \o Rg(<<WCbor, WCbor>>, 1, n - 1), N),
                                                        Dc(P(WHead(5, n)) \o Rg(<<WCbor, WCbor>>, 1, n - 1) \o P(WHead(0, n) \o <<0>>), N), Dj(JObj_("\"@\":@", n), N)>>)
    [] k = 55 -> Both(Tx(S("[* nil, bool]")), <<Dc(P(WHead(4, n + 1)) \o Rg(<<246>>, 1, n) \o P(<<244>>), Y), Dc(P(WHead(4, n)) \o Rg(<<246>>, 1, n), N), Dc(P(<<159>>) \o Rg(<<246>>, 1, n) \o P(<<245, 255>>), Y),
                                                        Dj(S("[") \o RgS("null,", 1, n) \o S("true]"), Y), Dj(JRow("null", n), N)>>)
    [] k = 56 -> Both(Tx(S("[* [* uint], tstr]")), <<Dc(P(WHead(4, n + 1)) \o Rg(<<129, WCbor>>, 1, n) \o P(<<97, 97>>), Y), Dc(P(WHead(4, n)) \o Rg(<<129, WCbor>>, 1, n), N), Dc(P(<<159>>) \o Rg(<<159, 1, 255>>, 1, n) \o P(<<96, 255>>), Y),
                                                        Dj(S("[") \o RgS("[@],", 1, n) \o S("\"\"]"), Y), Dc(P(WHead(4, n + 1)) \o Rg(<<129, WCbor>>, 1, n - 1) \o P(<<129, 32, 96>>), N)>>)
    [] k = 57 -> Both(Tx(Str_("a", n)), <<Dc(P(WHead(3, n)) \o RgS("a", 1, n), Y), Dc(P(WHead(3, n)) \o RgS("a", 2, n) \o S("b"), N), Dc(P(WHead(3, n + 1)) \o RgS("a", 0, n), N), Dc(P(<<127>>) \o Rg(<<97, 97>>, 1, n) \o P(<<255>>), Y),
                                                        Dc(P(<<127>>) \o Rg(<<97, 97>>, 2, n) \o P(<<97, 98, 255>>), N), Dc(P(<<127>> \o WHead(3, n)) \o RgS("a", 1, n) \o P(<<96, 255>>), Y)>>)
    [] k = 58 -> Both(Tx(S("-") \o Nn(n)), <<Dj(S("-") \o Nn(n), Y), OneJ(n, N), Dj(S("-") \o Nn(n + 1), N), Dc(P(WHead(1, n - 1)), Y), Dc(P(WHead(1, n)), N), Dc(P(WHead(0, n)), N)>>)
    [] k = 59 -> Both(Tx(S("'") \o RgS("a", 1, n) \o S("'")), <<Dc(P(<<95>>) \o Rg(<<65, 97>>, 1, n) \o P(<<255>>), Y), Dc(P(<<95>>) \o Rg(<<65, 97>>, 2, n) \o P(<<65, 98, 255>>), N), Dc(P(<<95>> \o WHead(2, n)) \o RgS("a", 1, n) \o P(<<64, 255>>), Y)>>)
    [] k = 60 -> Both(Tx(S("1.0")), <<Dj(S("1") \o RgS("0", 1, n) \o S("e-") \o Nn(n), Y), Dj(S("0.") \o RgS("0", 2, n) \o S("1e") \o Nn(n), Y), Dj(S("1.") \o RgS("0", 1, n) \o S("e-0"), Y), Dj(S("1e-") \o RgS("0", 1, n), Y)>>)
    [] k = 61 -> Both(Tx(S("tstr .size ") \o Nn(4 * n)), <<Dj(Str_("\\ud83d\\ude00", n), Y), Dj(S("\"") \o RgS("\\ud83d\\ude00", 2, n) \o S("abcd\""), Y), Dj(S("\"") \o RgS("\\ud83d\\ude00", 1, n) \o S("a\""), N), Dj(S("\"") \o Rg(<<128512>>, 1, n) \o S("\""), Y),
                                                        Dj(Str_("\\u00e9\\n\\\"", n), Y), Dj(Str_("\\u20ac\\/", n), Y), Dj(S("\"") \o RgS("\\u20ac\\/", 2, n) \o S("aaa\""), N), Dj(S("\"") \o RgS("\\ud83d\\ude00", 1, n) \o S("\\ud83d\""), "value")>>)
    [] k = 62 -> Both(Tx(Str_("\\u00e9\\n", n)), <<Dj(Str_("\\u00e9\\n", n), Y), Dj(Str_("\\u00e9\\n", n + 1), N), Dj(S("\"") \o Rg(<<233, 92, 117, 48, 48, 48, 97>>, 1, n) \o S("\""), Y), Dj(S("\"") \o RgS("\\u00e9\\n", 2, n) \o S("\\u00e9n\""), N)>>)
    [] k = 63 -> Both(Tx(S("0.") \o RgS("0", 2, n) \o S("1e") \o Nn(n)), <<Dj(S("1.0"), Y), Dj(S("1.5"), N), Dj(S("0.1"), N), OneJ(1, N)>>)
    [] k = 64 -> Both(Tx(S("a") \o RgS("-@", 1, n) \o S(" a") \o RgS("-@", 1, n) \o S(" = 1 a") \o RgS("-@", 1, n - 1) \o S(" = 2")), <<OneJ(1, Y), OneJ(2, N)>>)
    [] k = 65 -> Both(Tx(S("[") \o Row("r@", 1, n) \o S("]") \o RgS(" r@ = @", 1, n)), <<Dj(JRow("@", n), Y), Dj(JRow("@", n + 1), N), Dj(S("[") \o RgS("@,", 1, n - 1) \o S("0]"), N)>>)
    [] k = 66 -> Both(Tx(S("[g<1>") \o RgS(", g<@>", 2, n) \o S("] g<x> = x / nil")), <<Dj(JRow("@", n), Y), Dj(JRow("null", n), Y), Dj(S("[") \o RgS("@,", 1, n - 1) \o S("0]"), N)>>)
    [] k = 67 -> Both(Tx(S("{0: ") \o Nn(n) \o S("}")), <<Dc(P(WHead(5, n)) \o Rg(<<0, WCbor>>, 1, n), Y), Dc(P(<<191>>) \o Rg(<<0, WCbor>>, 1, n + 1) \o P(<<255>>), N), Dc(P(<<191>>) \o Rg(<<0, 0>>, 1, n) \o P(<<0>> \o WHead(0, n) \o <<255>>), Y)>>)
    [] k = 68 -> Both(Tx(S("[* int, missing]")), <<Dj(JRow("@", n), "missing"), Dj(S("[") \o Row("@", 1, n) \o S(",\"a\"]"), "missing"), Dj(S("{}"), N)>>)
    [] k = 69 -> Both(Tx(S("0") \o RgS(" / @", 1, n) \o S(" / missing")), <<OneJ(n, Y), OneJ(n + 1, "missing"), Dj(S("\"\""), "missing")>>)
    [] k = 70 -> Both(Tx(S("{* tstr => int, ? \"z\" => missing}")), <<Dj(JObj_("\"k@\":@", n), Y), Dj(S("{") \o RgS("\"k@\":@,", 1, n) \o S("\"z\":\"a\"}"), "missing"), Dj(S("{") \o RgS("\"k@\":@,", 1, n) \o S("\"z\":1}"), Y)>>)
    [] k = 71 -> Both(Tx(S("{? \"k") \o Nn(n) \o S("\" ^ => int, * tstr => any}")), <<Dj(JObj_("\"k@\":@", n), Y), Dj(S("{") \o RgS("\"k@\":@,", 1, n - 1) \o S("\"k") \o Nn(n) \o S("\":null}"), N), Dj(S("{") \o RgS("\"k@\":null,", 1, n - 1) \o S("\"k0\":null}"), Y)>>)
    [] k = 72 -> Both(Tx(S("[* ([* int] / {* tstr => int})]")), <<Dj(S("[") \o JRow("@", n) \o S(",") \o JObj_("\"@\":@", n) \o S("]"), Y), Dj(S("[") \o JRow("@", n) \o S(",[") \o RgS("@,", 1, n) \o S("null]]"), N),
                                                        Dj(S("[") \o JRow("[@]", n) \o S("]"), N), Dj(S("[") \o Row("[@],{\"k\":@}", 1, n) \o S("]"), Y)>>)
    [] k = 73 -> Both(Tx(S("{* tstr => int, * tstr => nil}")), <<Dj(S("{") \o Row("\"a@\":null", 1, n) \o RgS(",\"b@\":@", 1, n) \o S("}"), Y), Dj(S("{") \o Row("\"b@\":null", 1, n) \o RgS(",\"a@\":@", 1, n) \o S("}"), Y),
                                                        Dj(S("{") \o RgS("\"a@\":null,", 1, n) \o RgS("\"b@\":@,", 1, n) \o S("\"z\":true}"), N)>>)
    [] k = 74 -> Both(Tx(S("{* tstr => int, * uint => bool}")), <<Dc(P(<<191>>) \o Rg(<<WCbor, 244>>, 1, n) \o P(<<97, 97, 1, 255>>), Y), Dc(P(<<191>>) \o Rg(<<WCbor, 244>>, 1, n) \o P(<<97, 97, 244, 255>>), N),
                                                        Dc(P(<<191>>) \o Rg(<<WCbor, 244>>, 1, n) \o P(<<32, 244, 255>>), N)>>)
    [] k = 75 -> Both(Tx(S("{* g, * tstr => nil} g = (tstr => int)")), <<Dj(S("{") \o Row("\"a@\":null", 1, n) \o RgS(",\"b@\":@", 1, n) \o S("}"), Y), Dj(S("{") \o RgS("\"a@\":null,", 1, n) \o RgS("\"b@\":@,", 1, n) \o S("\"a\":true}"), N)>>)
    [] k = 76 -> Both(Tx(S("{* bool => int, * (0..") \o Nn(n) \o S(") => int, * tstr => int}")), <<Dc(P(WHead(5, n)) \o Rg(<<WCbor, WCbor>>, 1, n), Y), Dc(P(WHead(5, n + 1)) \o Rg(<<WCbor, WCbor>>, 1, n + 1), N), Dj(JObj_("\"@\":@", n), Y)>>)
    [] k = 77 -> Both(Tx(S("[* (int // tstr, nil // [* bool])]")), <<Dj(JRow("@,\"a\",null,[true,false]", n), Y), Dj(S("[") \o Row("@,\"a\",null,[true,false]", 1, n) \o S(",\"a\"]"), N), Dj(S("[") \o Row("@,\"a\",null,[true,false]", 1, n) \o S(",[1]]"), N)>>)
=============================================================================
