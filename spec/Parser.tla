------------------------------- MODULE Parser -------------------------------
(* The grammar: text (code points) to syntax tree (see Flatten), as an      *)
(* ordered-choice grammar with two kinds of failure: "no" (this alternative *)
(* does not apply, another may) and "bad" (a literal is malformed; the      *)
(* whole text is rejected with that kind of error).                         *)
(*                                                                          *)
(* Every parser takes text and position and gives                           *)
(*   [s |-> "ok", p |-> next position, v |-> result]                        *)
(*   [s |-> "no"]   [s |-> "bad", e |-> kind of error, at |-> what it is about] *)
EXTENDS Literals, TLC

OkP(p, v) == [s |-> "ok", p |-> p, v |-> v]
No        == [s |-> "no"]
BadP(e, at) == [s |-> "bad", e |-> e, at |-> at]

---------------------------------------------------------------------------
(* white space, comments, names *)

RECURSIVE LineEnd(_, _)
\* end of the line starting at i; 0 at a carriage return that ends no line
LineEnd(s, i) == IF i > Len(s) \/ s[i] = 10 THEN i
                 ELSE IF s[i] = 13 THEN (IF At(s, i + 1) = 10 THEN i ELSE 0)
                 ELSE LineEnd(s, i + 1)

RECURSIVE Ws(_, _)
Ws(s, i) ==
  LET c == At(s, i) IN
  IF c = 32 \/ c = 10 \/ c = 9 \/ c = 13 THEN Ws(s, i + 1)
  ELSE IF c = 59 THEN LET j == LineEnd(s, i + 1) IN IF j = 0 THEN i ELSE Ws(s, j)
  ELSE i

\* optional comma with surrounding space
OptCom(s, i) == LET j == Ws(s, i) IN IF At(s, j) = 44 THEN Ws(s, j + 1) ELSE j

EAlpha(c) == (c >= 97 /\ c <= 122) \/ (c >= 64 /\ c <= 90) \/ c = 95 \/ c = 36

RECURSIVE SkipDash(_, _), IdentTail(_, _)
SkipDash(s, i) == IF At(s, i) \in {45, 46} THEN SkipDash(s, i + 1) ELSE i
IdentTail(s, i) == LET k == SkipDash(s, i)
                       c == At(s, k)
                   IN  IF EAlpha(c) \/ IsDigit(c) THEN IdentTail(s, k + 1) ELSE i

\* characters of names, as strings
NameChars == "@ABCDEFGHIJKLMNOPQRSTUVWXYZ"
LowChars  == "abcdefghijklmnopqrstuvwxyz"
DigChars  == "0123456789"
Chr(c) == IF c >= 97 THEN SubSeq(LowChars, c - 96, c - 96)
          ELSE IF c >= 64 /\ c <= 90 THEN SubSeq(NameChars, c - 63, c - 63)
          ELSE IF IsDigit(c) THEN SubSeq(DigChars, c - 47, c - 47)
          ELSE IF c = 45 THEN "-" ELSE IF c = 46 THEN "." ELSE IF c = 95 THEN "_" ELSE "$"
RECURSIVE Str(_, _, _)
Str(s, i, j) == IF i >= j THEN "" ELSE Chr(s[i]) \o Str(s, i + 1, j)

Ident(s, i) == IF EAlpha(At(s, i)) THEN LET j == IdentTail(s, i + 1) IN OkP(j, Str(s, i, j)) ELSE No

---------------------------------------------------------------------------
(* literals *)

\* [a, b, base]: digits s[a..b-1]; b = 0 if there is no number
RawUint(s, i) ==
  IF At(s, i) = 48 /\ At(s, i + 1) = 120 /\ IsHex(At(s, i + 2))
  THEN [a |-> i + 2, b |-> SkipHex(s, i + 2), base |-> 16]
  ELSE IF At(s, i) = 48 /\ At(s, i + 1) = 98 /\ At(s, i + 2) \in {48, 49}
  THEN [a |-> i + 2, b |-> SkipBin(s, i + 2), base |-> 2]
  ELSE IF At(s, i) = 48 THEN [a |-> i, b |-> i + 1, base |-> 10]
  ELSE IF IsDigit(At(s, i)) THEN [a |-> i, b |-> SkipDigits(s, i), base |-> 10]
  ELSE [a |-> i, b |-> 0, base |-> 10]

UintMag(s, u) == DigitsMag(s, u.a, u.b, u.base, <<>>)

Number(s, i) ==
  LET neg == At(s, i) = 45
      u   == RawUint(s, IF neg THEN i + 1 ELSE i)
  IN
  IF u.b = 0 THEN No
  ELSE
  LET c    == IF At(s, u.b) = 46 /\ IsDigit(At(s, u.b + 1)) THEN SkipDigits(s, u.b + 1) ELSE u.b
      sgn  == At(s, c + 1) \in {43, 45}
      x    == IF sgn THEN c + 2 ELSE c + 1
      y    == IF At(s, c) = 101 /\ IsDigit(At(s, x)) THEN SkipDigits(s, x) ELSE x
      isFl == c > u.b \/ y > x
      mag  == UintMag(s, u)
  IN
  IF isFl
  THEN IF u.base # 10 THEN BadP("MalformedFloat", SubSeq(s, i, (IF y > x THEN y ELSE c) - 1))
       ELSE LET d == DecDouble(s, neg, u.a, u.b, c, x, y, At(s, c + 1) = 45)
            IN  OkP(IF y > x THEN y ELSE c, IF d.t = "inf" THEN InfDouble(neg) ELSE d)
  ELSE LET v == BigOf(neg, mag) IN
       IF (neg /\ ~FitsI64(v)) \/ Len(mag) > 8 THEN BadP("MalformedInteger", SubSeq(s, u.a, u.b - 1)) ELSE OkP(u.b, v)

InChars(c, quote) == c # quote /\ c # 92 /\ ((c >= 32 /\ c <= 126) \/ (c >= 128 /\ c <= 1114109))

RECURSIVE CharsEnd(_, _, _)
\* end of the characters (possibly escaped) of a quoted literal
CharsEnd(s, i, quote) ==
  IF At(s, i) = 92 /\ i + 1 <= Len(s) THEN CharsEnd(s, i + 2, quote)
  ELSE IF i <= Len(s) /\ InChars(s[i], quote) THEN CharsEnd(s, i + 1, quote)
  ELSE i

\* text between quotes, the opening quote being at i
Quoted(s, i, quote) ==
  LET j == CharsEnd(s, i + 1, quote) IN
  IF At(s, j) = quote THEN OkP(j + 1, SubSeq(s, i + 1, j - 1)) ELSE No

Unspaced(t) == SelectSeq(t, LAMBDA c : c \notin {32, 9, 10, 12, 13})

\* apply a decoder to a quoted literal
Decoded(q, d, e, at, mk(_)) == IF q.s # "ok" THEN q
                           ELSE IF d = <<-1>> THEN BadP(e, at) ELSE OkP(q.p, mk(d))

Value(s, i) ==
  LET c == At(s, i) IN
  IF IsDigit(c) \/ c = 45 THEN Number(s, i)
  ELSE IF c = 34
  THEN LET q == Quoted(s, i, 34) IN
       IF q.s # "ok" THEN q ELSE Decoded(q, Unesc(q.v, 1, <<>>, -1), "MalformedText", q.v, TextV)
  ELSE IF c = 39
  THEN LET q == Quoted(s, i, 39) IN
       IF q.s # "ok" THEN q
       ELSE LET d == Unesc(q.v, 1, <<>>, 39) IN
            IF d = <<-1>> THEN BadP("MalformedText", q.v) ELSE OkP(q.p, BytesV(Utf8(d)))
  ELSE IF c = 104 /\ At(s, i + 1) = 39
  THEN LET q == Quoted(s, i + 1, 39) IN
       IF q.s # "ok" THEN q ELSE Decoded(q, HexBytes(q.v), "MalformedHex", Unspaced(q.v), BytesV)
  ELSE IF c = 98 /\ At(s, i + 1) = 54 /\ At(s, i + 2) = 52 /\ At(s, i + 3) = 39
  THEN LET q == Quoted(s, i + 3, 39) IN
       IF q.s # "ok" THEN q ELSE Decoded(q, B64Bytes(q.v), "MalformedBase64", q.v, BytesV)
  ELSE No

---------------------------------------------------------------------------
(* types and groups *)

RECURSIVE NameGen(_, _), ArgList(_, _, _), Type2(_, _), Type1(_, _), Type1Rest(_, _), Ty(_, _), TyMore(_, _, _),
          GrpMember(_, _, _), ParenEnt(_, _, _), GrpEnt(_, _), GrpChoice(_, _, _), Group(_, _), GroupMore(_, _, _),
          Bracketed(_, _, _, _)

OneOcc == [k |-> "one"]

\* "<" args ">"
ArgList(s, i, acc) ==
  LET t == Type1(s, i) IN
  IF t.s # "ok" THEN t
  ELSE LET j == Ws(s, t.p)
           a == Append(acc, t.v)
       IN  IF At(s, j) = 44
           THEN LET r == ArgList(s, Ws(s, j + 1), a) IN
                IF r.s = "no" THEN No ELSE r
           ELSE IF At(s, j) = 62 THEN OkP(j + 1, a) ELSE No

\* the name and its generic arguments, if any
NameGen(s, i) ==
  LET n == Ident(s, i) IN
  IF n.s # "ok" THEN n
  ELSE LET a == IF At(s, n.p) = 60 THEN ArgList(s, Ws(s, n.p + 1), <<>>) ELSE No IN
       CASE a.s = "bad" -> a
         [] a.s = "ok"  -> OkP(a.p, [n |-> n.v, args |-> a.v])
         [] a.s = "no"  -> OkP(n.p, [n |-> n.v, args |-> <<>>])

\* group between brackets, the opening one at i
Bracketed(s, i, close, kind) ==
  LET g == Group(s, Ws(s, i + 1)) IN
  IF g.s # "ok" THEN g
  ELSE LET j == Ws(s, g.p) IN
       IF At(s, j) = close THEN OkP(j + 1, [k |-> kind, g |-> g.v]) ELSE No

Named(r, kind) == IF r.s # "ok" THEN r ELSE OkP(r.p, [k |-> kind, n |-> r.v.n, args |-> r.v.args])

Type2(s, i) ==
  LET v == Value(s, i) IN
  IF v.s = "bad" THEN v
  ELSE IF v.s = "ok" THEN OkP(v.p, [k |-> "val", v |-> v.v])
  ELSE
  LET c == At(s, i) IN
  CASE EAlpha(c) -> Named(NameGen(s, i), "name")
    [] c = 40  -> LET t == Ty(s, Ws(s, i + 1)) IN
                  IF t.s # "ok" THEN t
                  ELSE LET j == Ws(s, t.p) IN
                       IF At(s, j) = 41 THEN OkP(j + 1, [k |-> "paren", t |-> t.v]) ELSE No
    [] c = 123 -> Bracketed(s, i, 125, "map")
    [] c = 91  -> Bracketed(s, i, 93, "array")
    [] c = 126 -> Named(NameGen(s, Ws(s, i + 1)), "unwrap")
    [] c = 38  -> LET j == Ws(s, i + 1) IN
                  IF At(s, j) = 40 THEN Bracketed(s, j, 41, "cin") ELSE Named(NameGen(s, j), "cify")
    [] OTHER   -> No

\* operator at i: its length, 0 if none; "..." before ".." before ".name"
Type1(s, i) == Type1Rest(s, Type2(s, i))

\* x: the type2 at the beginning
Type1Rest(s, x) ==
  IF x.s # "ok" THEN x
  ELSE
  LET simple == OkP(x.p, [k |-> "simple", x |-> x.v])
      j  == Ws(s, x.p)
      d3 == At(s, j) = 46 /\ At(s, j + 1) = 46 /\ At(s, j + 2) = 46
      d2 == At(s, j) = 46 /\ At(s, j + 1) = 46
      op == IF At(s, j) = 46 /\ ~d2 THEN Ident(s, j + 1) ELSE No
  IN
  IF ~d2 /\ op.s # "ok" THEN simple
  ELSE
  LET y == Type2(s, Ws(s, IF d3 THEN j + 3 ELSE IF d2 THEN j + 2 ELSE op.p)) IN
  CASE y.s = "bad" -> y
    [] y.s = "no"  -> simple
    [] y.s = "ok"  -> IF d2 THEN OkP(y.p, [k |-> "range", s |-> x.v, e |-> y.v, inc |-> ~d3])
                      ELSE OkP(y.p, [k |-> "ctl", x |-> x.v, op |-> op.v, arg |-> y.v])

\* further alternatives "/" type1; the end stays before a "/" nothing follows
TyMore(s, p, acc) ==
  LET j == Ws(s, p) IN
  IF At(s, j) # 47 THEN OkP(p, acc)
  ELSE LET t == Type1(s, Ws(s, j + 1)) IN
       CASE t.s = "bad" -> t
         [] t.s = "no"  -> OkP(p, acc)
         [] t.s = "ok"  -> TyMore(s, t.p, Append(acc, t.v))

Ty(s, i) == LET t == Type1(s, i) IN IF t.s # "ok" THEN t ELSE TyMore(s, t.p, <<t.v>>)

NoKey == [k |-> "none"]

\* f: the type1 at the beginning, at i
GrpMember(s, i, f) ==
  IF f.s # "ok" THEN f
  ELSE
  LET j      == Ws(s, f.p)
      isVal  == f.v.k = "simple" /\ f.v.x.k = "val"
      isName == f.v.k = "simple" /\ f.v.x.k = "name"
      colon  == IF (isVal \/ isName) /\ At(s, j) = 58 THEN Ty(s, Ws(s, j + 1)) ELSE No
  IN
  IF colon.s = "bad" THEN colon
  ELSE IF colon.s = "ok"
  THEN IF isName /\ f.v.x.args # <<>> THEN BadP("Unparseable", <<-1>>)
       ELSE OkP(colon.p,
                [key |-> IF isVal THEN [k |-> "val", v |-> f.v.x.v, cut |-> TRUE]
                                  ELSE [k |-> "bare", c |-> SubSeq(s, i, i + Len(f.v.x.n) - 1), cut |-> TRUE],
                 v |-> colon.v])
  ELSE
  LET cut   == At(s, j) = 94
      a     == IF cut THEN Ws(s, j + 1) ELSE j
      arrow == IF At(s, a) = 61 /\ At(s, a + 1) = 62 THEN Ty(s, Ws(s, a + 2)) ELSE No
  IN
  IF arrow.s = "bad" THEN arrow
  ELSE IF arrow.s = "ok"
  THEN OkP(arrow.p, [key |-> [k |-> "t1", x |-> f.v, cut |-> cut], v |-> arrow.v])
  ELSE \* more alternatives may follow the space already skipped
       LET t == TyMore(s, j, <<f.v>>) IN
       IF t.s # "ok" THEN t ELSE OkP(t.p, [key |-> NoKey, v |-> t.v])

\* occurrence at i
Occ(s, i) ==
  LET c == At(s, i) IN
  IF c = 43 THEN OkP(i + 1, [k |-> "plus"])
  ELSE IF c = 63 THEN OkP(i + 1, [k |-> "opt"])
  ELSE
  LET u == RawUint(s, i)
      j == IF u.b = 0 THEN i ELSE u.b
  IN
  IF At(s, j) # 42 THEN No
  ELSE
  LET w  == RawUint(s, j + 1)
      lo == IF u.b = 0 THEN <<>> ELSE UintMag(s, u)
      hm == IF w.b = 0 THEN <<-1>> ELSE UintMag(s, w)
      hi == IF hm = U64Max THEN <<-1>> ELSE hm          \* as good as no limit
  IN
  IF Len(lo) > 8 \/ Len(hm) > 8
  THEN BadP("MalformedInteger", IF Len(lo) > 8 THEN SubSeq(s, u.a, u.b - 1) ELSE SubSeq(s, w.a, w.b - 1))
  ELSE IF u.b = 0 /\ w.b = 0 THEN OkP(j + 1, [k |-> "star"])
  ELSE OkP(IF w.b = 0 THEN j + 1 ELSE w.b, [k |-> "num", lo |-> lo, hi |-> hi])

MemberEnt(m, occ) == IF m.s # "ok" THEN m
                     ELSE OkP(m.p, [k |-> "member", occ |-> occ, key |-> m.v.key, v |-> m.v.v])

(* "(" at i.  A lone member without occurrence, key and comma is a type, at *)
(* the beginning of a member; anything else is a group.  (As an ordered     *)
(* choice: a member, whose parentheses hold a type, before a group.  The    *)
(* contents are looked at once only, since choosing at every level of a     *)
(* nest would take time exponential in the depth.)                          *)
ParenEnt(s, i, occ) ==
  LET f  == GrpEnt(s, Ws(s, i + 1))
      cl == IF f.s = "ok" THEN Ws(s, f.p) ELSE 0
      isTy == f.s = "ok" /\ f.v.k = "member" /\ f.v.occ = OneOcc /\ f.v.key = NoKey /\ At(s, cl) = 41
  IN
  IF f.s = "bad" THEN f
  ELSE IF isTy
  THEN MemberEnt(GrpMember(s, i, Type1Rest(s, OkP(cl + 1, [k |-> "paren", t |-> f.v.v]))), occ)
  ELSE
  LET c == IF f.s = "ok" THEN GrpChoice(s, OptCom(s, f.p), <<f.v>>) ELSE OkP(Ws(s, i + 1), <<>>)
      g == IF c.s = "ok" THEN GroupMore(s, c.p, <<c.v>>) ELSE c
      j == IF g.s = "ok" THEN Ws(s, g.p) ELSE 0
  IN
  IF g.s # "ok" THEN g
  ELSE IF At(s, j) = 41 THEN OkP(j + 1, [k |-> "paren", occ |-> occ, g |-> g.v]) ELSE No

GrpEnt(s, i) ==
  LET o == Occ(s, i) IN
  IF o.s = "bad" THEN o
  ELSE
  LET occ == IF o.s = "ok" THEN o.v ELSE OneOcc
      j   == IF o.s = "ok" THEN Ws(s, o.p) ELSE i
  IN
  IF At(s, j) = 40 THEN ParenEnt(s, j, occ)
  ELSE MemberEnt(GrpMember(s, j, Type1(s, j)), occ)

GrpChoice(s, i, acc) ==
  LET e == GrpEnt(s, i) IN
  CASE e.s = "bad" -> e
    [] e.s = "no"  -> OkP(i, acc)
    [] e.s = "ok"  -> GrpChoice(s, OptCom(s, e.p), Append(acc, e.v))

GroupMore(s, p, acc) ==
  LET j == Ws(s, p) IN
  IF At(s, j) = 47 /\ At(s, j + 1) = 47
  THEN LET c == GrpChoice(s, Ws(s, j + 2), <<>>) IN
       IF c.s # "ok" THEN c ELSE GroupMore(s, c.p, Append(acc, c.v))
  ELSE OkP(p, acc)

Group(s, i) == LET c == GrpChoice(s, i, <<>>) IN IF c.s # "ok" THEN c ELSE GroupMore(s, c.p, <<c.v>>)

---------------------------------------------------------------------------
(* rules *)

RECURSIVE ParmList(_, _, _)
ParmList(s, i, acc) ==
  LET n == Ident(s, i) IN
  IF n.s # "ok" THEN n
  ELSE LET j == Ws(s, n.p)
           a == Append(acc, n.v)
       IN  IF At(s, j) = 44 THEN ParmList(s, Ws(s, j + 1), a)
           ELSE IF At(s, j) = 62 THEN OkP(j + 1, a) ELSE No

\* rule from position i: name, parms, k, v, and its text s[b..e-1]
Rule(s, i) ==
  LET n == Ident(s, i) IN
  IF n.s # "ok" THEN n
  ELSE
  LET a  == IF At(s, n.p) = 60 THEN ParmList(s, Ws(s, n.p + 1), <<>>) ELSE No
      j  == Ws(s, IF a.s = "ok" THEN a.p ELSE n.p)
      ps == IF a.s = "ok" THEN a.v ELSE <<>>
      mk(r, kind) == OkP(r.p, [name |-> n.v, parms |-> ps, k |-> kind, v |-> r.v, b |-> i, e |-> r.p])
  IN
  IF At(s, j) # 61 THEN No
  ELSE
  LET q == Ws(s, j + 1)
      t == Ty(s, q)
  IN
  IF t.s = "bad" THEN t
  ELSE IF t.s = "ok" THEN mk(t, "type")
  ELSE LET g == GrpEnt(s, q) IN IF g.s # "ok" THEN g ELSE mk(g, "group")

RECURSIVE Rules(_, _, _)
Rules(s, i, acc) ==
  LET r == Rule(s, i) IN
  CASE r.s = "bad" -> r
    [] r.s = "no"  -> IF acc = <<>> \/ i # Len(s) + 1 THEN No ELSE OkP(i, acc)
    [] r.s = "ok"  -> Rules(s, Ws(s, r.p), Append(acc, r.v))

\* the whole text: [e |-> "", rules] or [e |-> kind of error]; at: what a
\* malformed literal says, <<-1>> otherwise
Parse(s) ==
  LET r == Rules(s, Ws(s, 1), <<>>) IN
  CASE r.s = "ok"  -> [e |-> "", rules |-> r.v, at |-> <<-1>>]
    [] r.s = "no"  -> [e |-> "Unparseable", rules |-> <<>>, at |-> <<-1>>]
    [] r.s = "bad" -> [e |-> r.e, rules |-> <<>>, at |-> r.at]
=============================================================================
