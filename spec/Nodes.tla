-------------------------------- MODULE Nodes --------------------------------
(* What nodes of the validation tree tell about themselves: how they show,  *)
(* the limits of an occurrence and how they are written, what a .size limit *)
(* is as a range, and when two nodes are equal.                             *)
(*                                                                          *)
(* Nodes are as callers make them (see Hand); a limit of HMany is none.     *)
EXTENDS Literals, Str

HMany == 1000000000
AnyText == <<-1>>                      \* a text that is not said here

(* ---- showing ------------------------------------------------------------ *)

\* quotient and remainder of a magnitude and ten
RECURSIVE ByTen(_, _, _, _)
ByTen(m, i, q, r) == IF i > Len(m) THEN <<StripZ(q), r>>
                     ELSE LET x == r * 256 + m[i] IN ByTen(m, i + 1, Append(q, x \div 10), x % 10)
RECURSIVE Decimal(_)
Decimal(m) == LET d == ByTen(m, 1, <<>>, 0) IN
              (IF d[1] = <<>> THEN <<>> ELSE Decimal(d[1])) \o <<48 + d[2]>>
ShowInt(v) == (IF v.neg THEN <<45>> ELSE <<>>) \o Decimal(v.mag)

PreludeShown(p) ==
  Cps(CASE p = "any" -> "Any" [] p = "nil" -> "Nil" [] p = "bool" -> "Bool" [] p = "int" -> "Int" [] p = "uint" -> "Uint"
        [] p = "nint" -> "Nint" [] p = "float" -> "Float" [] p = "tstr" -> "Tstr" [] p = "bstr" -> "Bstr")
KindShown(k) ==
  Cps(CASE k = "rule" -> "Rule" [] k = "unwrap" -> "Unwrap" [] k = "cify" -> "Choiceify" [] k = "cin" -> "ChoiceifyInline"
        [] k = "choice" -> "Choice" [] k = "map" -> "Map" [] k = "array" -> "Array" [] k = "group" -> "Group"
        [] k = "occ" -> "Occur" [] k = "range" -> "Range" [] k \in {"ctl", "re", "cbor"} -> "Control")
LitShown(v) ==
  CASE v.t = "bool"  -> Cps(IF v.v THEN "true" ELSE "false")
    [] v.t = "int"   -> ShowInt(v)
    [] v.t = "float" -> AnyText
    [] v.t = "text"  -> <<34>> \o v.c \o <<34>>
    [] v.t = "bytes" -> Cps("LiteralBytes")

Between(x, mid, y) == IF x = AnyText \/ y = AnyText THEN AnyText ELSE x \o mid \o y
RECURSIVE Shown(_)
Shown(n) ==
  CASE n.k = "lit"  -> LitShown(n.v)
    [] n.k = "prel" -> PreludeShown(n.p)
    [] n.k = "kv"   -> Between(Shown(n.key), <<58, 32>>, Shown(n.val))
    [] OTHER        -> KindShown(n.k)

\* s is a decimal number that reads as f
ReadsAs(s, f) ==
  IF FNaN(f) THEN s = Cps("NaN")
  ELSE IF FMag(f) = InfMag THEN s = (IF FNeg(f) THEN Cps("-inf") ELSE Cps("inf"))
  ELSE LET a == IF s # <<>> /\ s[1] = 45 THEN 2 ELSE 1
           b == SkipDigits(s, a)
           c == IF b <= Len(s) /\ s[b] = 46 THEN SkipDigits(s, b + 1) ELSE b
       IN  /\ FNeg(f) = (a = 2) /\ b > a /\ c # b + 1 /\ c = Len(s) + 1
           /\ DecDouble(s, a = 2, a, b, c, 1, 1, FALSE) = f

(* ---- occurrences -------------------------------------------------------- *)

Most == <<255, 255, 255, 255, 255, 255, 255, 255>>
LimMag(x) == IF x = HMany THEN Most ELSE NatMag(x)
Limits(n) == IF n.k = "occ" THEN <<LimMag(n.lo), LimMag(n.hi)>> ELSE <<>>
\* limits that are one of ? * + unless they are given as numbers
Numbered(n) == n.num \/ <<n.lo, n.hi>> \notin {<<0, 1>>, <<0, HMany>>, <<1, HMany>>}
Symbol(n) ==
  IF n.k # "occ" THEN <<>>
  ELSE IF ~Numbered(n) THEN (IF n.lo = 1 THEN <<43>> ELSE IF n.hi = 1 THEN <<63>> ELSE <<42>>)
  ELSE Decimal(LimMag(n.lo)) \o <<42>> \o (IF n.lo = 0 /\ n.hi = HMany THEN <<>> ELSE Decimal(LimMag(n.hi)))
\* what a symbol says as it is written in CDDL; it may be another than the one above
SymbolLimits(s) ==
  IF 42 \notin {s[i] : i \in 1..Len(s)} /\ s \notin {<<63>>, <<43>>} THEN <<>>
  ELSE IF s = <<63>> THEN <<<<>>, <<1>>>> ELSE IF s = <<43>> THEN <<<<1>>, Most>>
  ELSE LET a == SkipDigits(s, 1) IN
       <<DigitsMag(s, 1, a, 10, <<>>), IF a >= Len(s) THEN Most ELSE DigitsMag(s, a + 1, Len(s) + 1, 10, <<>>)>>
SymbolTells(n) == n.k = "occ" => SymbolLimits(Symbol(n)) = Limits(n)

\* the thing inside the node, where it shows itself otherwise
\* (an occurrence: after its symbol)
Own(n) == CASE n.k = "occ"   -> Between(<<>>, <<32>>, Shown(n.x))
            [] n.k = "range" -> Between(Shown(n.s), IF n.inc THEN <<46, 46>> ELSE <<46, 46, 46>>, Shown(n.e))
            [] OTHER         -> <<>>

(* ---- the limit of .size ------------------------------------------------- *)

IsSize(n) == n.k = "lit" /\ n.v.t = "int" /\ ~n.v.neg /\ Len(n.v.mag) <= 8
\* <<>>: a structural error
SizeRange(n) ==
  CASE n.k = "lit"   -> IF IsSize(n) THEN <<[k |-> "range", s |-> n, e |-> n, inc |-> TRUE]>> ELSE <<>>
    [] n.k = "range" -> IF IsSize(n.s) /\ IsSize(n.e) THEN <<n>> ELSE <<>>
    [] OTHER         -> <<>>

(* ---- equality ----------------------------------------------------------- *)

LitEq(x, y) == /\ x.t = y.t
               /\ IF x.t = "float" THEN ~FNaN(x) /\ ~FNaN(y) /\ (x = y \/ (FZero(x) /\ FZero(y))) ELSE x = y
RECURSIVE NodeEq(_, _)
NodesEq(x, y) == Len(x) = Len(y) /\ \A i \in 1..Len(x) : NodeEq(x[i], y[i])
NodeEq(x, y) ==
  /\ x.k = y.k
  /\ CASE x.k \in {"rule", "unwrap", "cify"} -> x.n = y.n /\ NodesEq(x.args, y.args)
       [] x.k = "choice" -> NodesEq(x.o, y.o)
       [] x.k \in {"map", "array", "group", "cin"} -> NodesEq(x.m, y.m)
       [] x.k = "kv"     -> x.cut = y.cut /\ NodeEq(x.key, y.key) /\ NodeEq(x.val, y.val)
       [] x.k = "occ"    -> x.lo = y.lo /\ x.hi = y.hi /\ Numbered(x) = Numbered(y) /\ NodeEq(x.x, y.x)
       [] x.k = "range"  -> x.inc = y.inc /\ NodeEq(x.s, y.s) /\ NodeEq(x.e, y.e)
       [] x.k = "ctl"    -> x.op = y.op /\ NodeEq(x.x, y.x) /\ NodeEq(x.arg, y.arg)
       [] x.k = "cbor"   -> NodeEq(x.x, y.x)
       [] x.k = "lit"    -> LitEq(x.v, y.v)
       [] OTHER          -> x = y

Told(n, m) == [show |-> Shown(n), own |-> Own(n), lim |-> Limits(n), sym |-> Symbol(n), size |-> SizeRange(n), same |-> NodeEq(n, m)]
=============================================================================
