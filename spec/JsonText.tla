------------------------------ MODULE JsonText ------------------------------
(* JSON texts (RFC 8259, code points) to data values, [t |-> "bad"] when    *)
(* malformed.  Integers that fit 64 bits are integers; any other number is  *)
(* a double.  Nesting deeper than 127 is refused.                           *)
EXTENDS Literals

JBad == <<[t |-> "bad"], 0>>

RECURSIVE JWs(_, _)
JWs(s, i) == IF At(s, i) \in {32, 9, 10, 13} THEN JWs(s, i + 1) ELSE i

RECURSIVE JStrEnd(_, _)
JStrEnd(s, i) == IF At(s, i) = 92 THEN JStrEnd(s, i + 2)
                 ELSE IF i > Len(s) \/ s[i] < 32 THEN 0
                 ELSE IF s[i] = 34 THEN i ELSE JStrEnd(s, i + 1)

JStr(s, i) ==
  LET j == JStrEnd(s, i + 1) IN
  IF j = 0 THEN JBad
  ELSE LET d == Unesc(SubSeq(s, i + 1, j - 1), 1, <<>>, -1) IN
       IF d = <<-1>> THEN JBad ELSE <<TextV(d), j + 1>>

JNum(s, i) ==
  LET neg == At(s, i) = 45
      a   == IF neg THEN i + 1 ELSE i
      b   == IF At(s, a) = 48 THEN a + 1 ELSE SkipDigits(s, a)
      dot == At(s, b) = 46
      c   == IF dot THEN SkipDigits(s, b + 1) ELSE b
      ex  == At(s, c) \in {101, 69}
      x   == IF At(s, c + 1) \in {43, 45} THEN c + 2 ELSE c + 1
      y   == IF ex THEN SkipDigits(s, x) ELSE x
      end == IF ex THEN y ELSE c
  IN
  IF b = a \/ (dot /\ c = b + 1) \/ (ex /\ y = x) \/ IsDigit(At(s, end)) THEN JBad
  ELSE
  LET mag == DigitsMag(s, a, b, 10, <<>>)
      v   == BigOf(neg, mag)
      d   == DecDouble(s, neg, a, b, c, x, y, At(s, c + 1) = 45)
  IN  IF ~dot /\ ~ex /\ (FitsU64(v) \/ FitsI64(v)) /\ ~(neg /\ mag = <<>>) THEN <<v, end>>
      ELSE IF d.t = "inf" THEN JBad ELSE <<d, end>>

RECURSIVE JVal(_, _, _), JArr(_, _, _, _), JObj(_, _, _, _)

Word(s, i, w) == SubSeq(s, i, IF i + Len(w) - 1 <= Len(s) THEN i + Len(w) - 1 ELSE Len(s)) = w

JVal(s, i, d) ==
  LET c == At(s, i) IN
  CASE c = 34  -> JStr(s, i)
    [] c = 91  -> IF d = 0 THEN JBad
                  ELSE LET j == JWs(s, i + 1) IN
                       IF At(s, j) = 93 THEN <<ArrV(<<>>), j + 1>> ELSE JArr(s, j, d - 1, <<>>)
    [] c = 123 -> IF d = 0 THEN JBad
                  ELSE LET j == JWs(s, i + 1) IN
                       IF At(s, j) = 125 THEN <<MapV(<<>>), j + 1>> ELSE JObj(s, j, d - 1, <<>>)
    [] c = 116 -> IF Word(s, i, <<116, 114, 117, 101>>) THEN <<BoolV(TRUE), i + 4>> ELSE JBad
    [] c = 102 -> IF Word(s, i, <<102, 97, 108, 115, 101>>) THEN <<BoolV(FALSE), i + 5>> ELSE JBad
    [] c = 110 -> IF Word(s, i, <<110, 117, 108, 108>>) THEN <<NullV, i + 4>> ELSE JBad
    [] c = 45 \/ IsDigit(c) -> JNum(s, i)
    [] OTHER -> JBad

\* an element is expected at i
JArr(s, i, d, acc) ==
  LET r == JVal(s, i, d) IN
  IF r[2] = 0 THEN JBad
  ELSE LET j == JWs(s, r[2])
           a == Append(acc, r[1])
       IN  IF At(s, j) = 44 THEN JArr(s, JWs(s, j + 1), d, a)
           ELSE IF At(s, j) = 93 THEN <<ArrV(a), j + 1>> ELSE JBad

JObj(s, i, d, acc) ==
  IF At(s, i) # 34 THEN JBad
  ELSE
  LET k == JStr(s, i) IN
  IF k[2] = 0 THEN JBad
  ELSE
  LET j == JWs(s, k[2]) IN
  IF At(s, j) # 58 THEN JBad
  ELSE
  LET r == JVal(s, JWs(s, j + 1), d) IN
  IF r[2] = 0 THEN JBad
  ELSE LET e == JWs(s, r[2])
           a == Append(acc, <<k[1], r[1]>>)
       IN  IF At(s, e) = 44 THEN JObj(s, JWs(s, e + 1), d, a)
           ELSE IF At(s, e) = 125 THEN <<MapV(a), e + 1>> ELSE JBad

JsonDecode(s) ==
  LET r == JVal(s, JWs(s, 1), 127) IN
  IF r[2] = 0 \/ JWs(s, r[2]) # Len(s) + 1 THEN [t |-> "bad"] ELSE Norm(r[1])
=============================================================================
