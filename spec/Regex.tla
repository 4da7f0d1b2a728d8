------------------------------- MODULE Regex -------------------------------
(* A core of regular expressions (code points in, code points out):         *)
(*   literals, escapes of punctuation, \d \w \s \D \W \S \n \t \r \a \f \v,   *)
(*   ".", [classes] with ranges and ^, groups (..) (?:..), alternation,      *)
(*   * + ? {n} {n,} {n,m}, ^ $ \A \z (text boundaries), \b \B \< \> (words). *)
(* RegexParse gives a tree, or [k |-> "bad"]; RegexFinds(re, s) says         *)
(* whether re matches somewhere in s.                                       *)
(* Trees: [k |-> "chars", neg, rs] (set of ranges <<lo, hi>>)               *)
(*   cat xs | alt xs | rep x lo hi | bol | eol | bad                        *)
EXTENDS Integers, Sequences, FiniteSets

ReInf == 1000000
ReBad == [k |-> "bad"]
ReCat(xs) == [k |-> "cat", xs |-> xs]
ReChar(c) == [k |-> "chars", neg |-> FALSE, rs |-> {<<c, c>>}]
ReDigit == {<<48, 57>>}
ReWord  == {<<48, 57>>, <<65, 90>>, <<95, 95>>, <<97, 122>>}    \* ASCII part only
ReSpace == {<<9, 13>>, <<32, 32>>}
ReDot   == [k |-> "chars", neg |-> TRUE, rs |-> {<<10, 10>>}]
ReNot(digit) == IF digit = "d" THEN {<<0, 47>>, <<58, 1114111>>}
                ELSE IF digit = "s" THEN {<<0, 8>>, <<14, 31>>, <<33, 1114111>>}
                ELSE {<<0, 47>>, <<58, 64>>, <<91, 94>>, <<96, 96>>, <<123, 1114111>>}
\* what may be escaped to stand for itself: ASCII other than letters, digits, < and >
ReMeta  == ((0..47) \cup (58..64) \cup (91..96) \cup (123..127)) \ {60, 62}
ReSpecial == {46, 43, 42, 63, 40, 41, 124, 91, 92, 94, 36, 123}

ReAt(s, i) == IF i <= Len(s) THEN s[i] ELSE -1

\* parsers take the text and a position and return <<tree, next position>>
RECURSIVE ReAlt(_, _), ReSeq(_, _, _), ReItem(_, _), ReAtom(_, _), ReClass(_, _, _, _),
          ReAlts(_, _, _), RePost(_, _, _), ReNum(_, _, _)

ReEscape(c) ==
  CASE c = 100 -> [k |-> "chars", neg |-> FALSE, rs |-> ReDigit]
    [] c = 68  -> [k |-> "chars", neg |-> FALSE, rs |-> ReNot("d")]
    [] c = 83  -> [k |-> "chars", neg |-> FALSE, rs |-> ReNot("s")]
    [] c = 87  -> [k |-> "chars", neg |-> FALSE, rs |-> ReNot("w")]
    [] c = 119 -> [k |-> "chars", neg |-> FALSE, rs |-> ReWord]
    [] c = 115 -> [k |-> "chars", neg |-> FALSE, rs |-> ReSpace]
    [] c = 110 -> ReChar(10)
    [] c = 116 -> ReChar(9)
    [] c = 97  -> ReChar(7)
    [] c = 102 -> ReChar(12)
    [] c = 114 -> ReChar(13)
    [] c = 118 -> ReChar(11)
    [] c \in ReMeta -> ReChar(c)
    [] OTHER -> ReBad

\* escapes that stand for a place rather than a character
RePlace(c) ==
  CASE c = 65 -> [k |-> "bol"]
    [] c = 122 -> [k |-> "eol"]
    [] c \in {98, 66, 60, 62} -> [k |-> "edge", c |-> c]
    [] OTHER -> ReEscape(c)

\* after "[" or "[^": items up to "]"
ReClass(s, i, acc, first) ==
  LET c == ReAt(s, i) IN
  IF c = -1 THEN <<{}, -1>>
  ELSE IF c = 93 /\ ~first THEN <<acc, i + 1>>
  ELSE IF c = 91 THEN <<{}, -1>>                    \* nested classes not in the core
  ELSE IF c = 92
  THEN LET e == ReEscape(ReAt(s, i + 1)) IN
       IF e.k = "bad" THEN <<{}, -1>> ELSE ReClass(s, i + 2, acc \cup e.rs, FALSE)
  ELSE IF ReAt(s, i + 1) = 45 /\ ReAt(s, i + 2) \notin {93, -1}
  THEN LET hi == ReAt(s, i + 2) IN
       IF hi < c \/ hi \in {91, 92} THEN <<{}, -1>>
       ELSE ReClass(s, i + 3, acc \cup {<<c, hi>>}, FALSE)
  ELSE ReClass(s, i + 1, acc \cup {<<c, c>>}, FALSE)

ReAtom(s, i) ==
  LET c == ReAt(s, i) IN
  CASE c = 46 -> <<ReDot, i + 1>>
    [] c = 94 -> <<[k |-> "bol"], i + 1>>
    [] c = 36 -> <<[k |-> "eol"], i + 1>>
    [] c = 92 -> IF ReAt(s, i + 1) = 98 /\ ReAt(s, i + 2) = 123 /\ ReAt(s, i + 3) \notin 48..57
                 THEN <<ReBad, i>>                     \* \b{start} and the like
                 ELSE <<RePlace(ReAt(s, i + 1)), i + 2>>
    [] c = 91 -> LET neg == ReAt(s, i + 1) = 94
                     r   == ReClass(s, IF neg THEN i + 2 ELSE i + 1, {}, TRUE)
                 IN  IF r[2] = -1 THEN <<ReBad, i>>
                     ELSE <<[k |-> "chars", neg |-> neg, rs |-> r[1]], r[2]>>
    [] c = 40 -> LET j == IF ReAt(s, i + 1) = 63 /\ ReAt(s, i + 2) = 58 THEN i + 3 ELSE i + 1
                     r == ReAlt(s, j)
                 IN  IF r[1].k = "bad" \/ ReAt(s, r[2]) # 41 THEN <<ReBad, i>>
                     ELSE <<r[1], r[2] + 1>>
    [] c \in {42, 43, 63, 123} -> <<ReBad, i>>        \* repetition of nothing
    [] OTHER -> <<ReChar(c), i + 1>>

\* decimal number at i: <<value or -1, next>>
ReNum(s, i, acc) ==
  IF ReAt(s, i) \in 48..57
  THEN ReNum(s, i + 1, (IF acc = -1 THEN 0 ELSE acc) * 10 + ReAt(s, i) - 48)
  ELSE <<acc, i>>

\* repetition suffixes
RePost(s, i, x) ==
  LET c == ReAt(s, i)
      rep(lo, hi, j) == \* a lazy "?" after a repetition does not change what matches
         LET j2 == IF ReAt(s, j) = 63 THEN j + 1 ELSE j
         IN  RePost(s, j2, [k |-> "rep", x |-> x, lo |-> lo, hi |-> hi])
  IN
  IF x.k = "bad" THEN <<x, i>>
  ELSE CASE c = 42 -> rep(0, ReInf, i + 1)
         [] c = 43 -> rep(1, ReInf, i + 1)
         [] c = 63 -> rep(0, 1, i + 1)
         [] c = 123 ->
              LET a == ReNum(s, i + 1, -1) IN
              IF a[1] = -1 THEN <<ReBad, i>>
              ELSE IF ReAt(s, a[2]) = 125 THEN rep(a[1], a[1], a[2] + 1)
              ELSE IF ReAt(s, a[2]) # 44 THEN <<ReBad, i>>
              ELSE LET b == ReNum(s, a[2] + 1, -1) IN
                   IF ReAt(s, b[2]) # 125 THEN <<ReBad, i>>
                   ELSE IF b[1] = -1 THEN rep(a[1], ReInf, b[2] + 1)
                   ELSE IF b[1] < a[1] THEN <<ReBad, i>>
                   ELSE rep(a[1], b[1], b[2] + 1)
         [] OTHER -> <<x, i>>

ReItem(s, i) == LET a == ReAtom(s, i) IN IF a[1].k = "bad" THEN a ELSE RePost(s, a[2], a[1])

ReSeq(s, i, acc) ==
  IF ReAt(s, i) \in {-1, 124, 41} THEN <<ReCat(acc), i>>
  ELSE LET r == ReItem(s, i) IN
       IF r[1].k = "bad" THEN r ELSE ReSeq(s, r[2], Append(acc, r[1]))

ReAlts(s, i, acc) ==
  LET r == ReSeq(s, i, <<>>) IN
  IF r[1].k = "bad" THEN r
  ELSE IF ReAt(s, r[2]) = 124 THEN ReAlts(s, r[2] + 1, Append(acc, r[1]))
  ELSE <<[k |-> "alt", xs |-> Append(acc, r[1])], r[2]>>
ReAlt(s, i) == ReAlts(s, i, <<>>)

RegexParse(s) == LET r == ReAlt(s, 1) IN
                 IF r[1].k = "bad" \/ r[2] # Len(s) + 1 THEN ReBad ELSE r[1]

---------------------------------------------------------------------------
(* Matching: the set of positions at which a match starting in one of the   *)
(* positions P can end (position i = before the i-th code point).           *)

InRanges(c, rs) == \E r \in rs : r[1] <= c /\ c <= r[2]

RECURSIVE ReEnds(_, _, _), ReCatEnds(_, _, _, _), ReRepEnds(_, _, _, _, _, _)
ReEnds(re, s, P) ==
  CASE re.k = "chars" -> {i + 1 : i \in {j \in P : j <= Len(s) /\ (InRanges(s[j], re.rs) # re.neg)}}
    [] re.k = "cat"   -> ReCatEnds(re.xs, 1, s, P)
    [] re.k = "alt"   -> UNION {ReEnds(re.xs[i], s, P) : i \in 1..Len(re.xs)}
    [] re.k = "bol"   -> P \cap {1}
    [] re.k = "eol"   -> P \cap {Len(s) + 1}
    [] re.k = "edge"  -> {i \in P : LET l == i > 1 /\ InRanges(s[i - 1], ReWord)
                                       r == i <= Len(s) /\ InRanges(s[i], ReWord)
                                   IN  CASE re.c = 98 -> l # r [] re.c = 66 -> l = r
                                         [] re.c = 60 -> ~l /\ r [] re.c = 62 -> l /\ ~r}
    [] re.k = "rep"   -> ReRepEnds(re, s, P, 0, {}, IF re.lo = 0 THEN P ELSE {})
ReCatEnds(xs, n, s, P) ==
  IF n > Len(xs) \/ P = {} THEN P ELSE ReCatEnds(xs, n + 1, s, ReEnds(xs[n], s, P))
\* n iterations done, P reachable now, acc accepted so far
ReRepEnds(re, s, P, n, seen, acc) ==
  IF n >= re.hi \/ P = {} \/ (n >= re.lo /\ P \subseteq seen) THEN acc
  ELSE LET Q == ReEnds(re.x, s, P) IN
       ReRepEnds(re, s, Q, n + 1, IF n >= re.lo THEN seen \cup P ELSE {},
                 IF n + 1 >= re.lo THEN acc \cup Q ELSE acc)

RegexFinds(re, s) == ReEnds(re, s, 1..Len(s) + 1) # {}
=============================================================================
