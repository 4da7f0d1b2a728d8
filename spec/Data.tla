-------------------------------- MODULE Data --------------------------------
(* Data values, as the validator sees them after decoding.                  *)
(*                                                                          *)
(*   [t |-> "null"]                                                         *)
(*   [t |-> "bool",  v |-> BOOLEAN]                                         *)
(*   [t |-> "int",   neg |-> BOOLEAN, mag |-> bytes]   exact integer:       *)
(*        sign and magnitude, base 256, most significant byte first, no     *)
(*        leading zero; zero is neg = FALSE, mag = <<>>                     *)
(*   [t |-> "float", b |-> 8 bytes]                    IEEE-754 binary64    *)
(*   [t |-> "bytes", b |-> bytes]                                           *)
(*   [t |-> "text",  c |-> code points]                                     *)
(*   [t |-> "array", a |-> sequence of values]                              *)
(*   [t |-> "map",   m |-> sequence of <<key, value>>]                      *)
(*                                                                          *)
(* A map is normal when its keys are strictly increasing in the order       *)
(* CmpVal; Norm makes it so (the last of several equal keys wins).          *)
EXTENDS Integers, Sequences, FiniteSets

NullV     == [t |-> "null"]
BoolV(x)  == [t |-> "bool", v |-> x]
TextV(c)  == [t |-> "text", c |-> c]
BytesV(b) == [t |-> "bytes", b |-> b]
ArrV(a)   == [t |-> "array", a |-> a]
MapV(m)   == [t |-> "map", m |-> m]
FloatV(b) == [t |-> "float", b |-> b]

---------------------------------------------------------------------------
(* sequences of numbers *)

RECURSIVE CmpFrom(_, _, _)
CmpFrom(x, y, i) ==
  IF i > Len(x) THEN (IF i > Len(y) THEN 0 ELSE -1)
  ELSE IF i > Len(y) THEN 1
  ELSE IF x[i] < y[i] THEN -1
  ELSE IF x[i] > y[i] THEN 1
  ELSE CmpFrom(x, y, i + 1)

\* lexicographic comparison: -1, 0 or 1
CmpSeq(x, y) == CmpFrom(x, y, 1)

Drop(s, n) == SubSeq(s, n + 1, Len(s))

RECURSIVE StripZ(_)
StripZ(m) == IF m # <<>> /\ m[1] = 0 THEN StripZ(Tail(m)) ELSE m

---------------------------------------------------------------------------
(* exact integers *)

RECURSIVE NatMag(_)
NatMag(n) == IF n = 0 THEN <<>> ELSE Append(NatMag(n \div 256), n % 256)

Big(n) == IF n < 0 THEN [t |-> "int", neg |-> TRUE,  mag |-> NatMag(-n)]
                   ELSE [t |-> "int", neg |-> FALSE, mag |-> NatMag(n)]

BigOf(neg, mag) == LET m == StripZ(mag) IN
                   [t |-> "int", neg |-> neg /\ m # <<>>, mag |-> m]

CmpMag(x, y) == IF Len(x) < Len(y) THEN -1
                ELSE IF Len(x) > Len(y) THEN 1
                ELSE CmpSeq(x, y)

CmpInt(x, y) ==
  IF x.neg /\ ~y.neg THEN -1
  ELSE IF ~x.neg /\ y.neg THEN 1
  ELSE IF x.neg THEN CmpMag(y.mag, x.mag)
  ELSE CmpMag(x.mag, y.mag)

\* m * k + d for a magnitude m and naturals k <= 256*256, d < 256
RECURSIVE MulAdd(_, _, _)
MulAdd(m, k, d) ==
  IF m = <<>> THEN NatMag(d)
  ELSE LET lo == m[Len(m)] * k + d
       IN  StripZ(Append(MulAdd(SubSeq(m, 1, Len(m) - 1), k, lo \div 256), lo % 256))

\* add one / subtract one from a magnitude
MagInc(m) == MulAdd(m, 1, 1)
RECURSIVE MagDec(_)
MagDec(m) == IF m[Len(m)] > 0
             THEN StripZ(Append(SubSeq(m, 1, Len(m) - 1), m[Len(m)] - 1))
             ELSE StripZ(Append(MagDec(SubSeq(m, 1, Len(m) - 1)), 255))

\* the natural denoted by a magnitude, or `cap` if it is at least that
RECURSIVE MagNatAcc(_, _, _)
MagNatAcc(m, acc, cap) ==
  IF m = <<>> THEN acc
  ELSE IF acc > cap \div 256 THEN cap
  ELSE LET a == acc * 256 + m[1] IN MagNatAcc(Tail(m), IF a >= cap THEN cap ELSE a, cap)
MagNat(m, cap) == MagNatAcc(m, 0, cap)

U64Max  == <<255, 255, 255, 255, 255, 255, 255, 255>>
I63     == <<128, 0, 0, 0, 0, 0, 0, 0>>           \* 2^63
FitsU64(x) == ~x.neg /\ Len(x.mag) <= 8
FitsI64(x) == IF x.neg THEN CmpMag(x.mag, I63) <= 0 ELSE CmpMag(x.mag, I63) < 0

---------------------------------------------------------------------------
(* doubles: b[1] holds the sign bit and the top of the exponent *)

FNeg(f)  == f.b[1] >= 128
FMag(f)  == [f.b EXCEPT ![1] = @ % 128]
FZero(f) == \A i \in 1..8 : FMag(f)[i] = 0
InfMag   == <<127, 240, 0, 0, 0, 0, 0, 0>>
FNaN(f)  == CmpSeq(FMag(f), InfMag) > 0

\* total order on representations (used for equality and map keys): -0 < +0
CmpFloatTotal(f, g) ==
  IF FNeg(f) /\ ~FNeg(g) THEN -1
  ELSE IF ~FNeg(f) /\ FNeg(g) THEN 1
  ELSE IF FNeg(f) THEN CmpSeq(FMag(g), FMag(f))
  ELSE CmpSeq(FMag(f), FMag(g))

\* numeric order; a NaN is not comparable with anything
FLe(f, g) == ~FNaN(f) /\ ~FNaN(g) /\ ((FZero(f) /\ FZero(g)) \/ CmpFloatTotal(f, g) <= 0)
FLt(f, g) == ~FNaN(f) /\ ~FNaN(g) /\ ~(FZero(f) /\ FZero(g)) /\ CmpFloatTotal(f, g) < 0

---------------------------------------------------------------------------
(* UTF-8 *)

Utf8Len1(c) == IF c < 128 THEN 1 ELSE IF c < 2048 THEN 2 ELSE IF c < 65536 THEN 3 ELSE 4

RECURSIVE Utf8Len(_)
Utf8Len(s) == IF s = <<>> THEN 0 ELSE Utf8Len1(s[1]) + Utf8Len(Tail(s))

Utf8Of1(c) ==
  IF c < 128 THEN <<c>>
  ELSE IF c < 2048 THEN <<192 + c \div 64, 128 + (c % 64)>>
  ELSE IF c < 65536 THEN <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
  ELSE <<240 + c \div 262144, 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>

RECURSIVE Utf8(_)
Utf8(s) == IF s = <<>> THEN <<>> ELSE Utf8Of1(s[1]) \o Utf8(Tail(s))

---------------------------------------------------------------------------
(* total order of values: kind first, then content *)

Rank == [null |-> 1, bool |-> 2, int |-> 3, float |-> 4, bytes |-> 5,
         text |-> 6, array |-> 7, map |-> 8]

RECURSIVE CmpVal(_, _), CmpVals(_, _, _), CmpPairs(_, _, _)
CmpVal(x, y) ==
  IF x.t # y.t THEN (IF Rank[x.t] < Rank[y.t] THEN -1 ELSE 1)
  ELSE CASE x.t = "null"  -> 0
         [] x.t = "bool"  -> IF x.v = y.v THEN 0 ELSE IF y.v THEN -1 ELSE 1
         [] x.t = "int"   -> CmpInt(x, y)
         [] x.t = "float" -> CmpFloatTotal(x, y)
         [] x.t = "bytes" -> CmpSeq(x.b, y.b)
         [] x.t = "text"  -> CmpSeq(x.c, y.c)     \* code point order = UTF-8 order
         [] x.t = "array" -> CmpVals(x.a, y.a, 1)
         [] x.t = "map"   -> CmpPairs(x.m, y.m, 1)
CmpVals(x, y, i) ==
  IF i > Len(x) THEN (IF i > Len(y) THEN 0 ELSE -1)
  ELSE IF i > Len(y) THEN 1
  ELSE LET c == CmpVal(x[i], y[i]) IN IF c # 0 THEN c ELSE CmpVals(x, y, i + 1)
CmpPairs(x, y, i) ==
  IF i > Len(x) THEN (IF i > Len(y) THEN 0 ELSE -1)
  ELSE IF i > Len(y) THEN 1
  ELSE LET c == CmpVal(x[i][1], y[i][1]) IN
       IF c # 0 THEN c
       ELSE LET d == CmpVal(x[i][2], y[i][2]) IN IF d # 0 THEN d ELSE CmpPairs(x, y, i + 1)

EqVal(x, y) == CmpVal(x, y) = 0

---------------------------------------------------------------------------
(* normal form of maps: sorted by key, last duplicate wins *)

\* of two sorted sequences of pairs; where a key is in both, the later wins
RECURSIVE Merge2(_, _, _, _, _), SortPairs(_)
Merge2(x, i, y, j, acc) ==
  IF i > Len(x) THEN acc \o SubSeq(y, j, Len(y))
  ELSE IF j > Len(y) THEN acc \o SubSeq(x, i, Len(x))
  ELSE LET c == CmpVal(x[i][1], y[j][1]) IN
       IF c < 0 THEN Merge2(x, i + 1, y, j, Append(acc, x[i]))
       ELSE IF c > 0 THEN Merge2(x, i, y, j + 1, Append(acc, y[j]))
       ELSE Merge2(x, i + 1, y, j + 1, Append(acc, y[j]))
MergePairs(x, y) == Merge2(x, 1, y, 1, <<>>)
SortPairs(ps) == IF Len(ps) < 2 THEN ps
                 ELSE LET h == Len(ps) \div 2 IN MergePairs(SortPairs(SubSeq(ps, 1, h)), SortPairs(SubSeq(ps, h + 1, Len(ps))))

RECURSIVE Norm(_)
Norm(v) ==
  IF v.t = "array" THEN [v EXCEPT !.a = [i \in 1..Len(v.a) |-> Norm(v.a[i])]]
  ELSE IF v.t = "map"
  THEN [v EXCEPT !.m = SortPairs([i \in 1..Len(v.m) |-> <<Norm(v.m[i][1]), Norm(v.m[i][2])>>])]
  ELSE v

RECURSIVE IsNormal(_)
IsNormal(v) ==
  IF v.t = "array" THEN \A i \in 1..Len(v.a) : IsNormal(v.a[i])
  ELSE IF v.t = "map"
  THEN /\ \A i \in 1..Len(v.m) : IsNormal(v.m[i][1]) /\ IsNormal(v.m[i][2])
       /\ \A i \in 1..Len(v.m) - 1 : CmpVal(v.m[i][1], v.m[i+1][1]) < 0
  ELSE TRUE
=============================================================================
