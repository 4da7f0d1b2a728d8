--------------------------------- MODULE Grow ---------------------------------
(* Shapes of any size n: a schema and the documents just inside and just    *)
(* outside what it accepts.  [x |-> text, d |-> documents].                 *)
EXTENDS Str

Min2(a, b) == IF a < b THEN a ELSE b

\* sizes worth looking at: all small ones, and about the usual limits
Sizes == [i \in 1..36 |-> i] \o <<47, 48, 49, 50, 51, 52, 63, 64, 65, 66, 99, 100, 101, 127, 128, 129, 199, 200, 254, 255, 256,
                                 257, 258, 300>>
NSizes == Len(Sizes)
Low(n)  == 1 + ((n - 1) % 48)          \* for shapes that must not become too deep
Deep(n) == 1 + ((n - 1) % 100)

\* [f(1), ..., f(n)] with sep between
Many(n, sep, f(_)) == Join([i \in 1..n |-> f(i)], sep)
Comma == <<44>>
CommaS == <<44, 32>>
JA(elts) == [k |-> "json", s |-> <<91>> \o Join(elts, Comma) \o <<93>>]
JM(ents) == [k |-> "json", s |-> <<123>> \o Join(ents, Comma) \o <<125>>]
JS(s)    == [k |-> "json", s |-> <<34>> \o s \o <<34>>]
JN(i)    == [k |-> "json", s |-> Num(i)]
Nums(n)  == [i \in 1..n |-> Num(i)]
Ones(n)  == [i \in 1..n |-> Num(1)]
A == <<34, 97, 34>>
X(s, docs) == [x |-> Cps("t = ") \o s, d |-> docs]
Sub(s, i, v) == [s EXCEPT ![i] = v]
Key(i) == Cps("k") \o Num(i)
QKey(i) == <<34>> \o Key(i) \o <<34>>
\* "ki": v
Ent(i, v) == QKey(i) \o <<58>> \o v
Ents(n) == [i \in 1..n |-> Ent(i, Num(i))]
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]

(* ---- CBOR ---------------------------------------------------------------- *)
CHead(major, n) == IF n < 24 THEN <<major * 32 + n>>
                   ELSE IF n < 256 THEN <<major * 32 + 24, n>>
                   ELSE <<major * 32 + 25, n \div 256, n % 256>>
CInt(n) == CHead(0, n)
CBytes(b) == CHead(2, Len(b)) \o b
CText(b) == CHead(3, Len(b)) \o b
RECURSIVE CNest(_, _)
\* bytes in bytes, k deep
CNest(b, k) == IF k = 0 THEN b ELSE CNest(CBytes(b), k - 1)

---------------------------------------------------------------------------
ArrKinds == 16
GrowArr(k, n) ==
  LET ints == Many(n, CommaS, LAMBDA i : Cps("int"))
      pairs == Flat([i \in 1..n |-> Comma \o Num(1) \o Comma \o A])      \* with a comma in front
      PD(s) == [k |-> "json", s |-> <<91>> \o Tail(s) \o <<93>>]
      m == Low(n)
      dn == Deep(n)
  IN
  CASE k = 1 -> X(<<91>> \o ints \o <<93>>,
                  <<JA(Nums(n)), JA(Nums(n - 1)), JA(Nums(n + 1)), JA(Sub(Nums(n), n, A)), JA(Sub(Nums(n), 1, A))>>)
    [] k = 2 -> X(Cps("[* (int, tstr), ? int]"),
                  <<PD(pairs), PD(pairs \o Comma \o Num(1)), PD(pairs \o Comma \o A),
                    PD(SubSeq(pairs, 1, Len(pairs) - 4) \o Comma \o Num(2)),
                    PD(SubSeq(pairs, 1, Len(pairs) - 6) \o Comma \o A \o Comma \o A)>>)
    [] k = 3 -> X(<<91>> \o Num(n) \o <<42>> \o Num(n) \o Cps(" int, * tstr]"),
                  <<JA(Nums(n) \o <<A, A>>), JA(Nums(n - 1)), JA(Nums(n - 1) \o <<A>>), JA(Nums(n + 1)), JA(Nums(n)),
                    JA(Nums(n) \o <<A, Num(1)>>)>>)
    [] k = 4 -> X(<<91, 42>> \o Num(n) \o Cps(" int, * tstr]"),
                  <<JA(Nums(n)), JA(Nums(n + 1)), JA(Nums(n - 1)), JA(<<A>>), JA(<<>>), JA(Nums(n) \o <<A>>), JA(Nums(n + 1) \o <<A>>)>>)
    [] k = 5 -> X(<<91>> \o Num(n) \o Cps("* int, tstr]"),
                  <<JA(Nums(n) \o <<A>>), JA(Nums(n - 1) \o <<A>>), JA(Nums(n + 1) \o <<A>>), JA(Nums(n)), JA(Nums(2 * n) \o <<A>>)>>)
    [] k = 6 -> X(<<91>> \o Many(n, Cps(" // "), LAMBDA i : Cps("0, ") \o Num(i)) \o <<93>>,
                  <<JA(<<Num(0), Num(n)>>), JA(<<Num(0), Num(n + 1)>>), JA(<<Num(0), Num(1)>>), JA(<<Num(0)>>), JA(<<Num(1), Num(n)>>)>>)
    [] k = 7 -> X(Cps("[* int, tstr]"), <<JA(Nums(n) \o <<A>>), JA(Nums(n)), JA(Nums(n) \o <<A, A>>), JA(Nums(n) \o <<A, Num(1)>>)>>)
    [] k = 8 -> X(<<91>> \o Many(n, CommaS, LAMBDA i : Cps("? ") \o Num(i)) \o <<93>>,
                  <<JA(<<Num(n)>>), JA(Nums(n)), JA(<<Num(n), Num(1)>>), JA(<<Num(n + 1)>>), JA(<<>>), JA(<<Num(1), Num(n + 1)>>)>>)
    [] k = 9 -> X(<<91>> \o Flat([i \in 1..m |-> Cps("? (") \o Num(i) \o Cps(", ")]) \o Cps("* tstr") \o Rep(<<41>>, m) \o <<93>>,
                  <<JA(Nums(m)), JA(Nums(m - 1)), JA(Nums(m + 1)), JA(Nums(m) \o <<A>>), JA(Nums(m - 1) \o <<A>>), JA(<<Num(2)>>)>>)
    [] k = 10 -> X(Rep(<<91>>, dn) \o Cps("* int") \o Rep(<<93>>, dn),
                   SeqMap(<<dn - 1, dn, dn + 1>>, LAMBDA e : [k |-> "json", s |-> Rep(<<91>>, e) \o Rep(<<93>>, e)])
                   \o <<[k |-> "json", s |-> Rep(<<91>>, dn) \o Num(1) \o Rep(<<93>>, dn)],
                        [k |-> "json", s |-> Rep(<<91>>, dn) \o A \o Rep(<<93>>, dn)]>>)
    [] k = 11 -> X(Cps("[g, tstr] g = (") \o ints \o <<41>>,
                   <<JA(Nums(n) \o <<A>>), JA(Nums(n - 1) \o <<A>>), JA(Nums(n + 1) \o <<A>>), JA(Nums(n))>>)
    [] k = 12 -> X(Cps("[g1, * tstr] ") \o Many(m, <<32>>, LAMBDA i : Cps("g") \o Num(i) \o Cps(" = (") \o Num(i)
                         \o (IF i = m THEN <<>> ELSE Cps(", ? g") \o Num(i + 1)) \o <<41>>),
                   <<JA(Nums(m)), JA(Nums(m) \o <<A>>), JA(Nums(m - 1)), JA(Nums(m + 1)), JA(Nums(m - 1) \o <<A>>), JA(<<A>>)>>)
    [] k = 13 -> X(<<91>> \o Num(n) \o <<42>> \o Num(n) \o Cps(" (int, tstr), * int]"),
                   <<PD(pairs), PD(pairs \o Comma \o Num(1)), PD(pairs \o Comma \o A),
                     PD(SubSeq(pairs, 1, Len(pairs) - 4) \o Comma \o Num(2)), PD(pairs \o Comma \o Num(1) \o Comma \o A)>>)
    [] k = 14 -> X(Cps("[* ") \o Rep(<<40>>, m) \o Cps("int") \o Rep(<<41>>, m) \o Cps(", * tstr]"),
                   <<JA(Nums(3)), JA(<<Num(1), A>>), JA(<<A, Num(1)>>), JA(<<>>)>>)
    [] k = 15 -> X(Cps("[* u] u = (") \o Many(n, Cps(" // "), LAMBDA i : Num(i)) \o <<41>>,
                   <<JA(Nums(n)), JA(Nums(n + 1)), JA(Rev(Nums(n))), JA(<<Num(0)>>)>>)
    [] k = 16 -> X(Cps("[~u1, * tstr] ") \o Many(m, <<32>>, LAMBDA i : Cps("u") \o Num(i) \o Cps(" = [") \o Num(i)
                         \o (IF i = m THEN <<>> ELSE Cps(", ? ~u") \o Num(i + 1)) \o <<93>>),
                   <<JA(Nums(m)), JA(Nums(m) \o <<A>>), JA(Nums(m - 1)), JA(Nums(m + 1)), JA(Nums(m - 1) \o <<A>>), JA(<<A>>)>>)

MapKinds == 15
GrowMap(k, n) ==
  LET mem(o, sep) == Many(n, CommaS, LAMBDA i : o \o Key(i) \o sep \o Cps("int"))
      m == Low(n)
      dn == Deep(n)
  IN
  CASE k = 1 -> X(<<123>> \o mem(<<>>, Cps(": ")) \o <<125>>,
                  <<JM(Ents(n)), JM(Rev(Ents(n))), JM(Ents(n - 1)), JM(Tail(Ents(n))), JM(Ents(n + 1)), JM(Sub(Ents(n), n, Ent(n, A)))>>)
    [] k = 2 -> X(Cps("{* tstr => int}"),
                  <<JM(Ents(n)), JM(Sub(Ents(n), n, Ent(n, A))), JM(Sub(Ents(n), 1, Ent(1, A))), JM(Ents(n) \o <<Ent(1, A)>>)>>)
    [] k = 3 -> X(<<123>> \o mem(Cps("? "), Cps(": ")) \o <<125>>,
                  <<JM(<<Ent(n, Num(1))>>), JM(<<>>), JM(<<Ent(n, A)>>), JM(Ents(n)), JM(Rev(Ents(n))), JM(Ents(n + 1))>>)
    [] k = 4 -> X(<<123>> \o mem(Cps("? "), Cps(": ")) \o Cps(", * tstr => any}"),
                  <<JM(<<Ent(n, A)>>), JM(<<Ent(n + 1, A)>>), JM(Ents(n)), JM(Sub(Ents(n), n, Ent(n, A))), JM(Ents(n + 2))>>)
    [] k = 5 -> X(<<123>> \o Many(n, CommaS, LAMBDA i : Cps("? ") \o QKey(i) \o Cps(" => int")) \o Cps(", * tstr => tstr}"),
                  <<JM(<<Ent(n, A)>>), JM(<<Ent(n + 1, A)>>), JM(Ents(n)), JM(Sub(Ents(n), n, Ent(n, A))), JM(Ents(n + 1))>>)
    [] k = 6 -> X(<<123>> \o Num(n) \o <<42>> \o Num(n) \o Cps(" tstr => int}"), <<JM(Ents(n)), JM(Ents(n - 1)), JM(Ents(n + 1))>>)
    [] k = 7 -> LET alt == [i \in 1..n |-> Ent(i, IF i % 2 = 0 THEN A ELSE Num(i))] IN
                X(Cps("{* tstr => int, * tstr => tstr}"),
                  <<JM(alt), JM(Rev(alt)), JM(Append(alt, Ent(n + 1, Cps("null")))), JM(Append(alt, Ent(1, Cps("true"))))>>)
    [] k = 8 -> X(Rep(Cps("{a: "), dn) \o Cps("int") \o Rep(<<125>>, dn),
                  SeqMap(<<dn - 1, dn, dn + 1>>, LAMBDA e : [k |-> "json", s |-> Rep(Cps("{\"a\":"), e) \o Num(1) \o Rep(<<125>>, e)])
                  \o <<[k |-> "json", s |-> Rep(Cps("{\"a\":"), dn) \o A \o Rep(<<125>>, dn)],
                       [k |-> "json", s |-> Rep(Cps("{\"a\":"), dn - 1) \o Cps("{\"b\":1}") \o Rep(<<125>>, dn - 1)]>>)
    [] k = 9 -> X(<<123>> \o Many(n, Cps(" // "), LAMBDA i : Cps("k1: ") \o Num(i)) \o <<125>>,
                  <<JM(<<Ent(1, Num(n))>>), JM(<<Ent(1, Num(n + 1))>>), JM(<<Ent(1, Num(1))>>), JM(<<>>)>>)
    [] k = 10 -> X(<<123>> \o Many(n, Cps(" // "), LAMBDA i : Cps("k1: int, k2: ") \o Num(i)) \o <<125>>,
                   <<JM(<<Ent(1, Num(7)), Ent(2, Num(n))>>), JM(<<Ent(2, Num(n)), Ent(1, Num(7))>>), JM(<<Ent(1, Num(7)), Ent(2, Num(n + 1))>>),
                     JM(<<Ent(2, Num(n))>>)>>)
    [] k = 11 -> LET cd(c, last) == C(CHead(5, c) \o Flat([i \in 1..c |-> CInt(i) \o (IF i = c THEN last ELSE CInt(i))])) IN
                 X(<<123>> \o Many(n, CommaS, LAMBDA i : Num(i) \o Cps(": int")) \o <<125>>,
                   <<cd(n, <<0>>), cd(n - 1, <<0>>), cd(n + 1, <<0>>), cd(n, <<96>>),
                     C(CHead(5, n) \o Flat([i \in 1..n |-> CInt(n + 1 - i) \o <<0>>])),
                     C(<<191>> \o Flat([i \in 1..n |-> <<25>> \o <<(n + 1 - i) \div 256, (n + 1 - i) % 256>> \o <<0>>]) \o <<255>>)>>)
    [] k = 12 -> X(Cps("{k1: ") \o Num(n) \o Cps(", ? k2: any}"),
                   <<JM([i \in 1..n |-> Ent(1, Num(i))]), JM([i \in 1..n |-> Ent(1, Num(n + 1 - i))]),
                     JM([i \in 1..n + 1 |-> IF i = 1 THEN Ent(2, A) ELSE Ent(1, Num(i - 1))])>>)
    [] k = 13 -> X(Cps("{g1, * tstr => tstr} ") \o Many(m, <<32>>, LAMBDA i : Cps("g") \o Num(i) \o Cps(" = (? ") \o Key(i) \o Cps(": int")
                         \o (IF i = m THEN <<>> ELSE Cps(", g") \o Num(i + 1)) \o <<41>>),
                   <<JM(Ents(m)), JM(<<Ent(m, A)>>), JM(<<Ent(m + 1, A)>>), JM(<<Ent(m, Num(1))>>), JM(Rev(Ents(m))), JM(Ents(m + 1))>>)
    [] k = 14 -> X(Cps("{* tstr => int, ? ") \o QKey(n) \o Cps(" => tstr}"),
                   <<JM(Sub(Ents(n), n, Ent(n, A))), JM(Ents(n)), JM(<<Ent(n, A)>>), JM(<<Ent(n + 1, A)>>)>>)
    [] k = 15 -> X(<<123>> \o Flat([i \in 1..m |-> Cps("(") \o Key(i) \o Cps(": tstr // ")]) \o Cps("k0: int") \o Rep(<<41>>, m) \o <<125>>,
                   <<JM(<<Ent(0, Num(1))>>), JM(<<Ent(m, A)>>), JM(<<Ent(m, Num(1))>>), JM(<<Ent(1, A)>>), JM(<<Ent(1, A), Ent(m + 1, A)>>)>>)

RuleKinds == 15
GrowRule(k, n) ==
  LET m == Low(n)
      d4 == <<JN(n), JN(n + 1), JN(1), JN(0)>>
      chain(last) == Many(n, <<32>>, LAMBDA i : Cps("r") \o Num(i) \o Cps(" = ") \o (IF i = n THEN last ELSE Cps("r") \o Num(i + 1)))
  IN
  CASE k = 1 -> X(Many(n, Cps(" / "), LAMBDA i : Num(i)), d4)
    [] k = 2 -> X(Cps("&(") \o Many(n, CommaS, LAMBDA i : Key(i) \o Cps(": ") \o Num(i)) \o <<41>>, d4)
    [] k = 3 -> X(Cps("&g g = (") \o Many(n, CommaS, LAMBDA i : Key(i) \o Cps(": ") \o Num(i)) \o <<41>>, d4)
    [] k = 4 -> X(Cps("g<") \o Many(n, CommaS, LAMBDA i : Num(i)) \o Cps("> g<") \o Many(n, CommaS, LAMBDA i : Cps("p") \o Num(i)) \o Cps("> = p")
                  \o Num(n) \o Cps(" / p1"), d4)
    [] k = 5 -> X(Cps("r1 ") \o chain(Cps("1 / ") \o Num(n + 1)), d4)
    [] k = 6 -> X(Cps("[r1] ") \o chain(Cps("1")), <<JA(<<Num(1)>>), JA(<<Num(2)>>), JA(<<>>)>>)
    [] k = 7 -> X(Cps("r") \o Num(n) \o <<32>> \o Many(n, <<32>>, LAMBDA i : Cps("r") \o Num(i) \o Cps(" = ") \o Num(i)), d4)
    [] k = 8 -> X(Cps("r ") \o Many(n, <<32>>, LAMBDA i : Cps("r = ") \o Num(i)), d4)
    [] k = 9 -> X(Rep(<<97>>, n) \o <<98, 32>> \o Rep(<<97>>, n) \o Cps("c = 0 ") \o Rep(<<97>>, n) \o Cps("b = 1 ") \o Rep(<<97>>, n)
                  \o Cps(" = 2 ") \o Rep(<<97>>, n + 1) \o Cps("b = 3"), <<JN(0), JN(1), JN(2), JN(3)>>)
    [] k = 10 -> X(Flat([i \in 1..m |-> Cps("(") \o Num(i) \o Cps(" / ")]) \o Num(0) \o Rep(<<41>>, m), <<JN(m), JN(m + 1), JN(1), JN(0)>>)
    [] k = 11 -> X(Many(n, Cps(" / "), LAMBDA i : Cps("[0, ") \o Num(i) \o Cps("]")),
                   <<JA(<<Num(0), Num(n)>>), JA(<<Num(0), Num(n + 1)>>), JA(<<Num(0), Num(1)>>), JA(<<Num(1), Num(1)>>)>>)
    [] k = 12 -> LET q == Min2(n, 70) IN
                   X(Cps("{* (") \o Many(q, Cps(" / "), LAMBDA i : QKey(i)) \o Cps(") => int}"),
                   <<JM(Ents(q)), JM(Ents(q + 1)), JM(<<Ent(q, Num(1))>>), JM(<<Ent(q, A)>>), JM(Rev(Ents(q)))>>)
    [] k = 13 -> X(Rep(Cps("g<"), m) \o Cps("int") \o Rep(<<62>>, m) \o Cps(" g<x> = [x]"),
                   SeqMap(<<m - 1, m, m + 1>>, LAMBDA e : [k |-> "json", s |-> Rep(<<91>>, e) \o Num(1) \o Rep(<<93>>, e)]))
    [] k = 14 -> X(Cps("g1<int> ") \o Many(m, <<32>>, LAMBDA i : Cps("g") \o Num(i) \o Cps("<x> = ")
                       \o (IF i = m THEN Cps("x") ELSE Cps("g") \o Num(i + 1) \o (IF i % 7 = 0 THEN Cps("<[x]>") ELSE Cps("<x>")))),
                   SeqMap(<<(m - 1) \div 7, (m - 1) \div 7 + 1, m>>, LAMBDA e : [k |-> "json", s |-> Rep(<<91>>, e) \o Num(1) \o Rep(<<93>>, e)]))
    [] k = 15 -> X(Cps("h / [* h] h = int ") \o Many(n, <<32>>, LAMBDA i : Cps("unused") \o Num(i) \o (IF i % 3 = 0 THEN Cps("<h>") ELSE <<>>)
                       \o (IF i % 2 = 0 THEN Cps(" = nowhere") ELSE Cps(" = (h, h)"))), <<JN(1), JA(<<Num(1)>>), JA(<<A>>), JS(<<97>>)>>)

ValKinds == 14
Pal(n) == [i \in 1..n |-> 97 + ((i * i) % 23)]
GrowVal(k, n) ==
  LET s == Pal(n)
      up(i) == Sub(s, i, 90)
      txts == <<JS(s), JS(Append(s, 97)), JS(SubSeq(s, 1, n - 1)), JS(up(n)), JS(up(1)), JS(up((n + 1) \div 2)), JS(s \o <<92, 117, 48, 48, 48, 48>>)>>
      m == Low(n)
      bs == [i \in 1..n |-> (i * 37) % 256]
      bdocs == <<C(CBytes(bs)), C(CBytes(Append(bs, 0))), C(CBytes(SubSeq(bs, 1, n - 1))), C(CBytes(Sub(bs, n, (bs[n] + 1) % 256))),
                 C(CBytes(Sub(bs, 1, 128)))>>
      hexd == Cps("0123456789abcdef")
      digits == [i \in 1..(1 + ((n - 1) % 24)) |-> 49 + ((i * 5) % 9)]
  IN
  CASE k = 1 -> X(<<34>> \o s \o <<34>>, txts)
    [] k = 2 -> X(<<39>> \o s \o <<39>>, <<C(CBytes(s)), C(CBytes(Append(s, 97))), C(CBytes(SubSeq(s, 1, n - 1))), C(CBytes(up(n))), JS(s)>>)
    [] k = 3 -> X(Cps("h'") \o Flat([i \in 1..n |-> <<hexd[bs[i] \div 16 + 1], hexd[(bs[i] % 16) + 1]>>]) \o <<39>>, bdocs)
    [] k = 4 -> X(Cps("tstr .size ") \o Num(n), txts \o <<JS(SubSeq(s, 1, n - 1) \o <<233>>), JS(Sub(s, n, 233)),
                    JS(IF n > 1 THEN SubSeq(s, 1, n - 2) \o <<233>> ELSE <<8364>>), JS(SubSeq(s, 1, n - 1) \o <<92, 117, 48, 48, 48, 48>>), JS(SubSeq(s, 1, n - 1) \o <<32>>)>>)
    [] k = 5 -> X(Cps("bstr .size ") \o Num(n), bdocs)
    [] k = 6 -> X(Cps("tstr .regexp \"^[a-z]{") \o Num(m) \o Cps("}$\""),
                  LET z == Pal(m) IN <<JS(z), JS(Append(z, 97)), JS(SubSeq(z, 1, m - 1)), JS(Sub(z, m, 90)), JS(<<32>> \o z)>>)
    [] k = 7 -> X(Cps("tstr .regexp \"") \o s \o Cps("$\""), txts \o <<JS(<<97>> \o s)>>)
    [] k = 8 -> X(Cps("0..") \o Num(n * 4099), <<JN(n * 4099), JN(n * 4099 + 1), JN(0), J("-1"), JN(n)>>)
    [] k = 9 -> X(Cps("int .lt ") \o Num(n * 65537), <<JN(n * 65537), JN(n * 65537 - 1), JN(n * 65537 + 1), J("-9")>>)
    [] k = 10 -> X(digits \o Cps(" / -") \o digits \o Cps(" / ") \o digits \o Cps("..18446744073709551615"),
                   <<[k |-> "json", s |-> digits], [k |-> "json", s |-> <<45>> \o digits], [k |-> "json", s |-> Append(digits, 48)], J("18446744073709551615")>>)
    [] k = 11 -> X(Cps("bstr .size (") \o Num(n) \o Cps("...") \o Num(n + 3) \o Cps(") / tstr .size (0..") \o Num(n) \o <<41>>,
                   bdocs \o txts \o <<C(CBytes(bs \o <<1, 2>>)), C(CBytes(bs \o <<1, 2, 3>>)), JS(<<>>)>>)
    [] k = 12 -> LET r1 == Deep(n) IN
                 X(Cps("bstr .cbor any"),
                   <<C(CBytes(Rep(<<129>>, r1) \o <<1>>)), C(CBytes(Rep(<<161, 1>>, r1) \o <<1>>)), C(CBytes(Rep(<<159>>, r1) \o Rep(<<255>>, r1))),
                     C(CBytes(Rep(<<129>>, r1))), C(CBytes(Rep(<<191, 96>>, r1) \o <<246>> \o Rep(<<255>>, r1))), C(CBytes(Rep(<<129>>, r1) \o <<28>>))>>)
    [] k = 13 -> X(Cps("r0 ") \o Many(m, <<32>>, LAMBDA i : Cps("r") \o Num(i - 1) \o Cps(" = bstr .cbor r") \o Num(i)) \o Cps(" r") \o Num(m) \o Cps(" = [* int]"),
                   <<C(CNest(<<130, 1, 2>>, m)), C(CNest(<<129, 96>>, m)), C(CNest(<<129, 1>>, m - 1)), C(CNest(<<129, 1>>, m + 1)),
                     C(CNest(<<28>>, m)), C(CNest(<<159, 1, 255>>, m))>>)
    [] k = 14 -> X(Cps("(bstr .cbor [* int]) / bstr .cbor {* int => int}"),
                   <<C(CBytes(CHead(4, n) \o Flat([i \in 1..n |-> CInt(i)]))), C(CBytes(CHead(4, n) \o Flat([i \in 1..n - 1 |-> CInt(i)]) \o <<96>>)),
                     C(CBytes(CHead(5, n) \o Flat([i \in 1..n |-> CInt(i) \o CInt(n - i)]))), C(CBytes(CHead(4, n) \o Flat([i \in 1..n - 1 |-> CInt(i)]))),
                     C(CBytes(CHead(5, n) \o Flat([i \in 1..n |-> CInt(i) \o (IF i = n THEN <<246>> ELSE CInt(n - i))])))>>)

---------------------------------------------------------------------------
(* texts to parse *)

ParKinds == 36
Ee == <<233>>
Smile == <<128512>>
GrowPar(k, n) ==
  LET z(c) == Rep(Cps(c), n)
      T_(s) == Cps("t = ") \o s
  IN
  CASE k = 1  -> T_(Cps("h'") \o z("0") \o Ee \o <<39>>)
    [] k = 2  -> T_(Cps("b64'") \o z("A") \o Ee \o <<39>>)
    [] k = 3  -> T_(<<34>> \o z("a") \o Ee \o Cps("\\q\""))
    [] k = 4  -> T_(<<39>> \o z("a") \o Ee \o Cps("\\q'"))
    [] k = 5  -> T_(z("9"))
    [] k = 6  -> T_(Cps("int ?") \o z("x") \o Ee)
    [] k = 7  -> T_(<<91>> \o z("a") \o Smile)
    [] k = 8  -> <<59>> \o z("a") \o Ee \o <<10>> \o T_(Cps("int"))
    [] k = 9  -> T_(<<34>> \o z("a") \o Ee)
    [] k = 10 -> T_(<<45>> \o z("9"))
    [] k = 11 -> T_(Cps("0x") \o z("f"))
    [] k = 12 -> T_(Cps("0b") \o z("1"))
    [] k = 13 -> T_(Cps("1.") \o z("3"))
    [] k = 14 -> T_(z("1") \o Cps(".5"))
    [] k = 15 -> T_(z(" ") \o Cps("int") \o z(" ") \o Cps("/") \o z(" ") \o Cps("tstr") \o z(" "))
    [] k = 16 -> Cps("t =") \o Rep(<<10>>, n) \o Cps("[int,") \o Rep(<<13, 10>>, n) \o Cps("]") \o Rep(<<9>>, n)
    [] k = 17 -> z("a") \o Cps(" = int ") \o z("a") \o Cps("-b = ") \o z("a")
    [] k = 18 -> T_(<<123>> \o z("a") \o Cps(": int, \"") \o z("b") \o Cps("\" => int}"))
    [] k = 19 -> T_(<<91>> \o z("9") \o Cps("*9 int]"))
    [] k = 20 -> T_(<<34>> \o Rep(Ee, n) \o <<34>>)
    [] k = 21 -> T_(<<34>> \o Rep(Cps("\\u00e9"), n) \o <<34>>)
    [] k = 22 -> T_(<<39>> \o Rep(Smile, n) \o <<39>>)
    [] k = 23 -> T_(Cps("h'") \o z("0") \o <<39>>)
    [] k = 24 -> T_(Cps("b64'") \o z("A") \o <<39>>)
    [] k = 25 -> T_(Cps("int") \o Rep(Cps(" ; c") \o <<10>>, n))
    [] k = 26 -> T_(<<91>> \o Many(n, Comma, LAMBDA i : Num(i)) \o <<44, 93>>)
    [] k = 27 -> T_(Cps("int / ") \o Rep(Ee, n))
    [] k = 28 -> Rep(Ee, n) \o Cps(" = int")
    [] k = 29 -> T_(Cps("\"\\u") \o z("0") \o Ee \o <<34>>)
    [] k = 30 -> T_(Cps("0.") \o z("0") \o Cps("1"))
    [] k = 31 -> T_(Cps("1e") \o z("0") \o Cps("1"))
    [] k = 32 -> T_(Cps("tstr .") \o z("a"))
    [] k = 33 -> T_(Cps("tstr .regexp \"") \o z("(") \o Ee \o <<34>>)
    [] k = 34 -> T_(z("a") \o Ee)
    [] k = 35 -> T_(Cps("a<") \o Many(n, Comma, LAMBDA i : Num(i)) \o Cps("> a<") \o Many(n, Comma, LAMBDA i : Key(i)) \o Cps("> = k1"))
    [] k = 36 -> T_(Cps("h'") \o Rep(Cps("00 "), n) \o Cps("x") \o Ee \o <<39>>)
=============================================================================
