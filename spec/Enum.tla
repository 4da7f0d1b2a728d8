--------------------------------- MODULE Enum ---------------------------------
(* Walks through a family of Space and says, for each point, what the       *)
(* specification takes the result to be; the real code is then asked.       *)
EXTENDS Space

VARIABLES at, said
evars == <<svars, at, said>>

DocUnd == [t \in 1..Len(TheTexts) |-> Understand(TheTexts[t])]

EnumInit ==
  /\ \E a \in Lo..Hi, b \in 1..Dims(Fam)[2], c \in 1..Dims(Fam)[3] :
       InClass(a, b, c) /\ at = <<a, b, c>>
  /\ said = FALSE
  /\ und = <<>> /\ dat = <<>> /\ ctx = <<>> /\ out = ""

Trees == "TREES" \in DOMAIN IOEnv
Values == "VALUES" \in DOMAIN IOEnv

\* the trees of texts are asked for instead
ExpectedTree ==
  LET p == Point(Fam, at[1], at[2], at[3])
      x == IF Kind(Fam) = "both" THEN p.x ELSE p
  IN  [x |-> x, n |-> TreeResult(Understand(x))]

\* what documents are represented as is asked for instead
ExpectedData ==
  LET p == Point(Fam, at[1], at[2], at[3])
      x == IF Kind(Fam) = "both" THEN p.d ELSE <<p>>
  IN  [d |-> x, r |-> [i \in 1..Len(x) |-> OneNaN(Decode(x[i]))]]

\* the order of data is total
Lawful(x, y) ==
  LET a == TheData[x]  b == TheData[y] IN
  /\ CmpVal(a, b) = -CmpVal(b, a)
  /\ (CmpVal(a, b) = 0) = (a = b)
  /\ \A i \in 1..Len(TheDocs) : (i + x + y) % 11 = 0 =>
       (CmpVal(a, b) <= 0 /\ CmpVal(b, TheData[i]) <= 0 => CmpVal(a, TheData[i]) <= 0)

Expected ==
  IF Trees THEN ExpectedTree ELSE IF Values THEN ExpectedData ELSE
  LET x == Point(Fam, at[1], at[2], at[3]) IN
  CASE Kind(Fam) = "val" ->
         LET u == Understand(x) IN
         [x |-> x, r |-> [d \in 1..Len(TheDocs) |-> OneResult(u, "t", TheData[d])],
          f |-> {"t"} \cup FreeNames(u.built.rules)]
    [] Kind(Fam) = "both" ->
         LET u == Understand(x.x) IN
         [x |-> x.x, d |-> x.d, r |-> [d \in 1..Len(x.d) |-> OneResult(u, "t", Decode(x.d[d]))],
          f |-> {"t"} \cup FreeNames(u.built.rules)]
    [] Kind(Fam) = "hand" ->
         [x |-> x, r |-> LET R == HandTable(x) IN [d \in 1..Len(TheDocs) |-> CallResult(R, "t", TheData[d])]]
    [] Kind(Fam) = "node" -> [x |-> x, n |-> Told(x[1], x[2])]
    [] Kind(Fam) = "cmp" ->
         [x |-> x, r |-> [d \in 1..Len(TheDocs) |-> LET v == Order(TheData[x], TheData[d]) IN IF Lawful(x, d) THEN v ELSE Assert(FALSE, <<"SPEC: order", x, d>>)]]
    [] Kind(Fam) = "wide" ->
         LET u == Understand(Filled(x.x))
             rs == [d \in 1..Len(x.d) |-> OneResult(u, "t", Decode(Doc(x.d[d])))]
                      small == IF Fam = "wide" THEN WSizes[at[2]] <= WChecked ELSE DChecked(at[3])
         IN  IF small => \A d \in 1..Len(x.d) : rs[d] = x.d[d].r THEN x ELSE Assert(FALSE, <<"SPEC: closed form", Fam, at, rs>>)
    [] Kind(Fam) = "ast" -> [x |-> x, n |-> RulesSeen(Build(x))]
    [] Kind(Fam) = "parse" ->
         LET u == Understand(x) IN [x |-> x, r |-> SliceResult(u, x), b |-> u.built.err, w |-> PointResult(u)]
    [] Kind(Fam) = "doc" ->
         LET d == Decode(x) IN
         [x |-> x.s, k |-> x.k, r |-> [t \in 1..Len(TheTexts) |-> OneResult(DocUnd[t], "t", d)]]

Say ==
  /\ ~said
  /\ said' = TRUE
  /\ PrintT(<<"CASE", ToJson(Expected)>>)
  /\ UNCHANGED <<svars, at>>

EnumSpec == EnumInit /\ [][Say]_evars

ASSUME PrintT(<<"DOCS", ToJson([docs |-> TheDocs, texts |-> TheTexts, kind |-> Kind(Fam),
                               size |-> Dims(Fam)[1] * Dims(Fam)[2] * Dims(Fam)[3]])>>)
=============================================================================
