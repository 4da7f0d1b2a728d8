------------------------------ MODULE Literals ------------------------------
(* What literals denote: numbers in decimal, hexadecimal and binary, the    *)
(* double nearest to a decimal fraction, escapes in text, and hexadecimal   *)
(* and base64 byte strings.  All texts are sequences of code points.        *)
EXTENDS Data

At(s, i) == IF i <= Len(s) THEN s[i] ELSE -1

IsDigit(c) == c >= 48 /\ c <= 57
DigitVal(c) == IF c >= 48 /\ c <= 57 THEN c - 48
               ELSE IF c >= 97 /\ c <= 102 THEN c - 87
               ELSE IF c >= 65 /\ c <= 70 THEN c - 55
               ELSE -1
IsHex(c) == DigitVal(c) >= 0

\* first position from i on that does not hold a digit of that kind
RECURSIVE SkipDigits(_, _), SkipHex(_, _), SkipBin(_, _)
SkipDigits(s, i) == IF i <= Len(s) /\ IsDigit(s[i]) THEN SkipDigits(s, i + 1) ELSE i
SkipHex(s, i)    == IF i <= Len(s) /\ IsHex(s[i])   THEN SkipHex(s, i + 1)    ELSE i
SkipBin(s, i)    == IF i <= Len(s) /\ s[i] \in {48, 49} THEN SkipBin(s, i + 1) ELSE i

\* magnitude of the digits s[i..j-1] in a base up to 16
RECURSIVE DigitsMag(_, _, _, _, _)
DigitsMag(s, i, j, base, acc) ==
  IF i >= j THEN acc ELSE DigitsMag(s, i + 1, j, base, MulAdd(acc, base, DigitVal(s[i])))

---------------------------------------------------------------------------
(* The double nearest to mag * 10^e (ties to even); [t |-> "inf"] when it   *)
(* is beyond the finite ones.                                               *)

RECURSIVE MulTen(_, _)
MulTen(m, n) == IF n <= 0 THEN m
                ELSE IF n >= 4 THEN MulTen(MulAdd(m, 10000, 0), n - 4)
                ELSE MulTen(MulAdd(m, 10, 0), n - 1)

\* divide a magnitude by a small number: <<quotient, remainder>>
RECURSIVE DivSmallFrom(_, _, _, _, _)
DivSmallFrom(m, i, d, r, q) ==
  IF i > Len(m) THEN <<StripZ(q), r>>
  ELSE LET x == r * 256 + m[i] IN DivSmallFrom(m, i + 1, d, x % d, Append(q, x \div d))
DivSmall(m, d) == DivSmallFrom(m, 1, d, 0, <<>>)

\* divide by 10^n: <<quotient, TRUE if anything was lost>>
RECURSIVE DivTen(_, _, _)
DivTen(m, n, lost) ==
  IF n <= 0 \/ m = <<>> THEN <<m, lost>>
  ELSE LET st == IF n >= 4 THEN 4 ELSE 1
           r  == DivSmall(m, IF st = 4 THEN 10000 ELSE 10)
       IN  DivTen(r[1], n - st, lost \/ r[2] # 0)

\* bits of a magnitude, most significant first, no leading zero
ByteBits(x) == [i \in 1..8 |-> (x \div (2 ^ (8 - i))) % 2]
RECURSIVE MagBits(_, _)
MagBits(m, i) == IF i > Len(m) THEN <<>> ELSE ByteBits(m[i]) \o MagBits(m, i + 1)
RECURSIVE DropZ(_)
DropZ(b) == IF b # <<>> /\ b[1] = 0 THEN DropZ(Tail(b)) ELSE b
ZeroBits(n) == [i \in 1..n |-> 0]

RECURSIVE BitsNat(_, _, _)
BitsNat(b, i, acc) == IF i > Len(b) THEN acc ELSE BitsNat(b, i + 1, 2 * acc + b[i])
PackBits(b) == [i \in 1..(Len(b) \div 8) |-> BitsNat(SubSeq(b, 8 * i - 7, 8 * i), 1, 0)]

\* add one to a bit sequence; may become longer
RECURSIVE IncBits(_)
IncBits(b) == IF b = <<>> THEN <<1>>
              ELSE IF b[Len(b)] = 0 THEN Append(SubSeq(b, 1, Len(b) - 1), 1)
              ELSE Append(IncBits(SubSeq(b, 1, Len(b) - 1)), 0)

ExpBits(e) == [i \in 1..11 |-> (e \div (2 ^ (11 - i))) % 2]

\* bits b (leading 1) times 2^k, plus a bit more if `lost`
RoundDouble(sign, b, k, lost) ==
  LET top  == Len(b) - 1 + k                      \* exponent of the leading bit
      low  == IF top - 52 < -1074 THEN -1074 ELSE top - 52   \* weight of the last bit kept
      keep == Len(b) - (low - k)                  \* number of bits of b that are kept
  IN
  IF keep < 0 THEN FloatV(PackBits(<<sign>> \o ZeroBits(63)))
  ELSE
  LET kept  == IF keep <= Len(b) THEN SubSeq(b, 1, keep) ELSE b \o ZeroBits(keep - Len(b))
      half  == keep < Len(b) /\ b[keep + 1] = 1
      below == lost \/ \E i \in keep + 2..Len(b) : b[i] = 1
      odd   == kept # <<>> /\ kept[Len(kept)] = 1
      up    == half /\ (below \/ odd)
      m     == IF up THEN IncBits(kept) ELSE kept
      \* a carry out of 53 bits only shifts the exponent
      full  == Len(m) >= 53
      m53   == IF Len(m) = 54 THEN SubSeq(m, 1, 53) ELSE m
      e     == IF full THEN low + Len(m) - 1 + 1023 ELSE 0
      man   == IF full THEN SubSeq(m53, 2, 53) ELSE ZeroBits(52 - Len(m)) \o m
  IN  IF e >= 2047 THEN [t |-> "inf"]
      ELSE FloatV(PackBits(<<sign>> \o ExpBits(e) \o man))

DecToDouble(neg, mag, e) ==
  LET sign == IF neg THEN 1 ELSE 0 IN
  IF mag = <<>> THEN FloatV(PackBits(<<sign>> \o ZeroBits(63)))
  ELSE IF e > 400 THEN [t |-> "inf"]
  ELSE IF e >= 0 THEN RoundDouble(sign, DropZ(MagBits(MulTen(mag, e), 1)), 0, FALSE)
  ELSE IF e < -1200 THEN FloatV(PackBits(<<sign>> \o ZeroBits(63)))
  ELSE LET \* enough extra bytes for 55 significant bits, or to reach below 2^-1074
           pad == 8 + ((-e) * 4) \div 8 + 1
           q   == DivTen(mag \o ZeroBits(pad), -e, FALSE)
           b   == DropZ(MagBits(q[1], 1))
       IN  IF b = <<>> THEN FloatV(PackBits(<<sign>> \o ZeroBits(63)))
           ELSE RoundDouble(sign, b, -8 * pad, q[2])

InfDouble(neg) == FloatV(<<IF neg THEN 255 ELSE 127, 240, 0, 0, 0, 0, 0, 0>>)

\* a small natural, capped, of the decimal digits s[i..j-1]
RECURSIVE SmallNat(_, _, _, _)
SmallNat(s, i, j, acc) ==
  IF i >= j THEN acc
  ELSE SmallNat(s, i + 1, j, IF acc >= 100000 THEN acc ELSE acc * 10 + DigitVal(s[i]))

\* The number spelled [-] int [. frac] [e exp] with int = s[a..b-1],
\* frac = s[b+1..c-1] (if c > b), exponent digits s[x..y-1] (if y > x, sign xneg)
DecDouble(s, neg, a, b, c, x, y, xneg) ==
  LET int  == DigitsMag(s, a, b, 10, <<>>)
      mag  == IF c > b THEN DigitsMag(s, b + 1, c, 10, int) ELSE int
      ex   == IF y > x THEN SmallNat(s, x, y, 0) ELSE 0
      d    == DecToDouble(neg, mag, (IF xneg THEN -ex ELSE ex) - (IF c > b THEN c - b - 1 ELSE 0))
  IN  d

---------------------------------------------------------------------------
(* Escapes of JSON strings.  Gives code points, or <<-1>> when malformed.   *)
(* safe(c): characters that stand for themselves.                           *)

Hex4(s, i) ==
  IF i + 3 <= Len(s) /\ \A k \in i..i+3 : IsHex(s[k])
  THEN DigitVal(s[i]) * 4096 + DigitVal(s[i+1]) * 256 + DigitVal(s[i+2]) * 16 + DigitVal(s[i+3])
  ELSE -1

IsHi(x) == x >= 55296 /\ x <= 56319
IsLo(x) == x >= 56320 /\ x <= 57343

RECURSIVE Unesc(_, _, _, _)
\* quote: the character for which backslash quote is a (the only special) extra escape, or -1
Unesc(s, i, acc, quote) ==
  IF i > Len(s) THEN acc
  ELSE IF s[i] # 92 THEN Unesc(s, i + 1, Append(acc, s[i]), quote)
  ELSE LET c == At(s, i + 1) IN
       CASE c \in {34, 92, 47} -> Unesc(s, i + 2, Append(acc, c), quote)
         [] c = 98  -> Unesc(s, i + 2, Append(acc, 8), quote)
         [] c = 102 -> Unesc(s, i + 2, Append(acc, 12), quote)
         [] c = 110 -> Unesc(s, i + 2, Append(acc, 10), quote)
         [] c = 114 -> Unesc(s, i + 2, Append(acc, 13), quote)
         [] c = 116 -> Unesc(s, i + 2, Append(acc, 9), quote)
         [] c = 117 ->
              LET x == Hex4(s, i + 2) IN
              IF x = -1 \/ IsLo(x) THEN <<-1>>
              ELSE IF ~IsHi(x) THEN Unesc(s, i + 6, Append(acc, x), quote)
              ELSE LET y == IF At(s, i + 6) = 92 /\ At(s, i + 7) = 117 THEN Hex4(s, i + 8) ELSE -1 IN
                   IF y = -1 \/ ~IsLo(y) THEN <<-1>>
                   ELSE Unesc(s, i + 12,
                              Append(acc, 65536 + (x - 55296) * 1024 + (y - 56320)), quote)
         [] c # -1 /\ c = quote -> Unesc(s, i + 2, Append(acc, c), quote)
         [] OTHER -> <<-1>>

---------------------------------------------------------------------------
(* byte strings; <<-1>> when malformed *)

NoSpaces(s) == SelectSeq(s, LAMBDA c : c \notin {32, 9, 10, 12, 13})

HexBytes(s) ==
  LET d == NoSpaces(s) IN
  IF Len(d) % 2 = 1 \/ \E i \in 1..Len(d) : ~IsHex(d[i]) THEN <<-1>>
  ELSE [i \in 1..(Len(d) \div 2) |-> DigitVal(d[2*i - 1]) * 16 + DigitVal(d[2*i])]

B64Val(c) == IF c >= 65 /\ c <= 90 THEN c - 65
             ELSE IF c >= 97 /\ c <= 122 THEN c - 71
             ELSE IF IsDigit(c) THEN c + 4
             ELSE IF c = 45 THEN 62 ELSE IF c = 95 THEN 63 ELSE -1

\* URL-safe alphabet, padded to a multiple of four, unused bits zero
B64Bytes(s) ==
  LET n   == Len(s)
      pad == IF n >= 2 /\ s[n] = 61 /\ s[n-1] = 61 THEN 2 ELSE IF n >= 1 /\ s[n] = 61 THEN 1 ELSE 0
      d   == n - pad
      b   == [i \in 1..6*d |-> (B64Val(s[(i - 1) \div 6 + 1]) \div (2 ^ (5 - ((i - 1) % 6)))) % 2]
      k   == (6 * d) \div 8
  IN  IF n % 4 # 0 \/ \E i \in 1..d : B64Val(s[i]) = -1 THEN <<-1>>
      ELSE IF \E i \in 8*k+1..6*d : b[i] = 1 THEN <<-1>>
      ELSE PackBits(SubSeq(b, 1, 8 * k))
=============================================================================
