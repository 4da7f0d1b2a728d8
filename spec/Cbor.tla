-------------------------------- MODULE Cbor --------------------------------
(* Decoding of CBOR (RFC 8949) into data values.  CborDecode gives the      *)
(* first item of a byte sequence, in normal form, or [t |-> "bad"].         *)
(* Tagged items (but for integers written as bignums) and unassigned simple  *)
(* values are not data this system can validate: they count as bad.                                             *)
EXTENDS Data

Bad == [t |-> "bad"]
MaxItems == 1000000

\* big-endian argument of n bytes at i, as a magnitude
ArgAt(b, i, n) == StripZ(SubSeq(b, i, i + n - 1))

RECURSIVE BitsOf(_), BytesOf(_)
BitsOf1(x) == [i \in 1..8 |-> (x \div (2 ^ (8 - i))) % 2]
BitsOf(b) == IF b = <<>> THEN <<>> ELSE BitsOf1(b[1]) \o BitsOf(Tail(b))
RECURSIVE BitsVal(_)
BitsVal(s) == IF s = <<>> THEN 0 ELSE 2 * BitsVal(SubSeq(s, 1, Len(s) - 1)) + s[Len(s)]
BytesOf(s) == IF s = <<>> THEN <<>> ELSE <<BitsVal(SubSeq(s, 1, 8))>> \o BytesOf(Drop(s, 8))

NBits(n, x) == [i \in 1..n |-> (x \div (2 ^ (n - i))) % 2]
PadR(s, n) == s \o [i \in 1..n - Len(s) |-> 0]

MkDouble(sign, e, man) == FloatV(BytesOf(<<sign>> \o NBits(11, e) \o PadR(man, 52)))

\* widen a binary float given as sign bit, exponent bits, mantissa bits
Widen(bits, ne) ==
  LET sign == bits[1]
      e    == BitsVal(SubSeq(bits, 2, ne + 1))
      man  == Drop(bits, ne + 1)
      bias == 2 ^ (ne - 1) - 1
      ones == {i \in 1..Len(man) : man[i] = 1}
  IN  IF e = 2 ^ ne - 1 THEN MkDouble(sign, 2047, man)
      ELSE IF e # 0 THEN MkDouble(sign, e - bias + 1023, man)
      ELSE IF ones = {} THEN MkDouble(sign, 0, man)
      ELSE LET p == CHOOSE i \in ones : \A j \in ones : i <= j
           IN  MkDouble(sign, 1 - bias - p + 1023, Drop(man, p))

---------------------------------------------------------------------------
(* UTF-8 decoding; <<-1>> when malformed *)

CB(b, i) == i <= Len(b) /\ b[i] >= 128 /\ b[i] < 192

RECURSIVE U8(_, _, _)
U8(b, i, acc) ==
  IF i > Len(b) THEN acc
  ELSE LET x == b[i] IN
       IF x < 128 THEN U8(b, i + 1, Append(acc, x))
       ELSE IF x >= 194 /\ x < 224 /\ CB(b, i + 1)
       THEN U8(b, i + 2, Append(acc, (x - 192) * 64 + b[i+1] - 128))
       ELSE IF x >= 224 /\ x < 240 /\ CB(b, i + 1) /\ CB(b, i + 2)
       THEN LET c == (x - 224) * 4096 + (b[i+1] - 128) * 64 + b[i+2] - 128 IN
            IF c < 2048 \/ (c >= 55296 /\ c < 57344) THEN <<-1>> ELSE U8(b, i + 3, Append(acc, c))
       ELSE IF x >= 240 /\ x < 245 /\ CB(b, i + 1) /\ CB(b, i + 2) /\ CB(b, i + 3)
       THEN LET c == (x - 240) * 262144 + (b[i+1] - 128) * 4096 + (b[i+2] - 128) * 64 + b[i+3] - 128 IN
            IF c < 65536 \/ c >= 1114112 THEN <<-1>> ELSE U8(b, i + 4, Append(acc, c))
       ELSE <<-1>>
Utf8Decode(b) == U8(b, 1, <<>>)

---------------------------------------------------------------------------
(* Item(b, i) = <<value, position after it>>; the position is 0 when the    *)
(* bytes from i on do not start with an item (a break gives t = "break").   *)

None == <<Bad, 0>>

\* tags 2 and 3 are integers written as byte strings (bignums): they are
\* ordinary integers as long as they are within -2^64 .. 2^64-1
BigTag(neg, mag, i) == IF Len(mag) > 8 THEN None
                       ELSE <<BigOf(neg, IF neg THEN MagInc(mag) ELSE mag), i>>

RECURSIVE Item(_, _), Items(_, _, _, _), Pairs(_, _, _, _), Chunks(_, _, _, _)

StrVal(major, bytes) ==
  IF major = 2 THEN BytesV(bytes)
  ELSE LET c == Utf8Decode(bytes) IN IF c = <<-1>> THEN Bad ELSE TextV(c)

Item(b, i) ==
  IF i > Len(b) THEN None
  ELSE
  LET major == b[i] \div 32
      info  == b[i] % 32
      n     == CASE info = 24 -> 1 [] info = 25 -> 2 [] info = 26 -> 4 [] info = 27 -> 8 [] OTHER -> 0
      j     == i + 1 + n
      indef == info = 31
      arg   == IF n = 0 THEN NatMag(info) ELSE ArgAt(b, i + 1, n)
      len   == MagNat(arg, MaxItems)
  IN
  IF info \in 28..30 \/ j - 1 > Len(b) THEN None
  ELSE
  CASE major = 0 -> IF indef THEN None ELSE <<BigOf(FALSE, arg), j>>
    [] major = 1 -> IF indef THEN None ELSE <<BigOf(TRUE, MagInc(arg)), j>>
    [] major \in {2, 3} ->
         IF indef THEN Chunks(b, j, major, <<>>)
         ELSE IF j + len - 1 > Len(b) THEN None
         ELSE LET v == StrVal(major, SubSeq(b, j, j + len - 1)) IN
              IF v.t = "bad" THEN None ELSE <<v, j + len>>
    [] major = 4 -> LET r == Items(b, j, IF indef THEN -1 ELSE len, <<>>) IN
                    IF r[2] = 0 THEN None ELSE <<ArrV(r[1]), r[2]>>
    [] major = 5 -> LET r == Pairs(b, j, IF indef THEN -1 ELSE len, <<>>) IN
                    IF r[2] = 0 THEN None ELSE <<MapV(r[1]), r[2]>>
    [] major = 6 -> IF indef \/ arg \notin {<<2>>, <<3>>} \/ j > Len(b) \/ b[j] \div 32 # 2 \/ b[j] = 95 THEN None
                    ELSE LET r == Item(b, j) IN
                         IF r[2] = 0 \/ Len(r[1].b) > 16 THEN None
                         ELSE BigTag(arg = <<3>>, StripZ(r[1].b), r[2])
    [] major = 7 -> CASE indef     -> <<[t |-> "break"], j>>
                      [] info = 20 -> <<BoolV(FALSE), j>>
                      [] info = 21 -> <<BoolV(TRUE), j>>
                      [] info = 22 -> <<NullV, j>>
                      [] info = 23 -> <<NullV, j>>                      \* undefined
                      [] info = 25 -> <<Widen(BitsOf(SubSeq(b, i + 1, i + 2)), 5), j>>
                      [] info = 26 -> <<Widen(BitsOf(SubSeq(b, i + 1, i + 4)), 8), j>>
                      [] info = 27 -> <<FloatV(SubSeq(b, i + 1, i + 8)), j>>
                      [] OTHER     -> None

\* n items (n = -1: up to a break)
Items(b, i, n, acc) ==
  IF n = 0 THEN <<acc, i>>
  ELSE LET r == Item(b, i) IN
       IF r[2] = 0 THEN <<acc, 0>>
       ELSE IF r[1].t = "break" THEN <<acc, IF n = -1 THEN r[2] ELSE 0>>
       ELSE Items(b, r[2], IF n = -1 THEN n ELSE n - 1, Append(acc, r[1]))

Pairs(b, i, n, acc) ==
  IF n = 0 THEN <<acc, i>>
  ELSE LET k == Item(b, i) IN
       IF k[2] = 0 THEN <<acc, 0>>
       ELSE IF k[1].t = "break" THEN <<acc, IF n = -1 THEN k[2] ELSE 0>>
       ELSE LET v == Item(b, k[2]) IN
            IF v[2] = 0 \/ v[1].t = "break" THEN <<acc, 0>>
            ELSE Pairs(b, v[2], IF n = -1 THEN n ELSE n - 1, Append(acc, <<k[1], v[1]>>))

\* definite chunks of the same kind up to a break
Chunks(b, i, major, acc) ==
  IF i > Len(b) THEN None
  ELSE IF b[i] = 255 THEN <<IF major = 2 THEN BytesV(acc) ELSE TextV(acc), i + 1>>
  ELSE IF b[i] \div 32 # major \/ b[i] % 32 = 31 THEN None
  ELSE LET r == Item(b, i) IN
       IF r[2] = 0 THEN None
       ELSE Chunks(b, r[2], major, acc \o (IF major = 2 THEN r[1].b ELSE r[1].c))

CborDecode(b) == LET r == Item(b, 1) IN
                 IF r[2] = 0 \/ r[1].t = "break" THEN Bad ELSE Norm(r[1])
=============================================================================
