-------------------------------- MODULE Sem --------------------------------
(* Reference semantics of validation, big-step and functional: what is left *)
(* of an array or map is passed along, so a part that fails simply has not  *)
(* happened.                                                                *)
(*                                                                          *)
(* Outcomes: "ok", "mismatch", "mapcut" (a cut key with a bad value), and   *)
(* the fatal ones "structural", "missing", "unsupported", "value",          *)
(* "generic".  Asked for (NAMES), "missing" is followed by the name that    *)
(* was not found, and a caller's own error by the name it was given for.    *)
(*                                                                          *)
(* Environment of an evaluation:                                            *)
(*   [gm    |-> parameter name -> node,                                     *)
(*    past  |-> <<>> or <<environment in which the arguments were written>>, *)
(*    depth |-> number of rule references open]                             *)
EXTENDS Flatten, Cbor, IOUtils

CONSTANT HasCbor       \* FALSE: a build without CBOR support

MaxDepth == 50

Naming == "NAMES" \in DOMAIN IOEnv
About(r, n) == IF Naming THEN r \o "@" \o n ELSE r

Fatal(r)  == r \notin {"ok", "mismatch", "mapcut"}
UnCut(r)  == IF r = "mapcut" THEN "mismatch" ELSE r

NoEnv == [gm |-> <<>>, past |-> <<>>, depth |-> 0]

GMap(parms, args) ==
  [p \in {parms[i] : i \in 1..Len(parms)} |->
     args[CHOOSE i \in 1..Len(parms) : parms[i] = p /\ \A j \in i+1..Len(parms) : parms[j] # p]]

\* a caller's own error; one kind carries no message
OwnErr(R, n) == IF R[n].err = "generic" THEN "generic"
                ELSE About(R[n].err, IF R[n].err = "missing" THEN "@" \o n ELSE n)

(* Resolve a reference: [r |-> "ok", node, env] or [r |-> fatal outcome].   *)
(* R is the rule table.  A parameter costs no depth; it is followed in the  *)
(* environment where the argument was written.                              *)
Lookup(R, n, args, env) ==
  IF n \in DOMAIN env.gm
  THEN IF env.past # <<>> THEN [r |-> "ok", node |-> env.gm[n], env |-> env.past[1]]
       ELSE [r |-> "ok", node |-> env.gm[n], env |-> [NoEnv EXCEPT !.depth = env.depth + 1]]
  ELSE IF n \notin DOMAIN R THEN [r |-> About("missing", n)]
  ELSE IF "err" \in DOMAIN R[n] THEN [r |-> OwnErr(R, n)]       \* see Session
  ELSE IF Len(R[n].parms) # Len(args) THEN [r |-> "generic"]
  ELSE IF env.depth >= MaxDepth THEN [r |-> "structural"]
  ELSE [r |-> "ok", node |-> R[n].node,
        env |-> [gm |-> GMap(R[n].parms, args), past |-> <<env>>, depth |-> env.depth + 1]]

---------------------------------------------------------------------------
(* leaves *)

PrelOk(p, v) ==
  CASE p = "any"   -> TRUE
    [] p = "nil"   -> v.t = "null"
    [] p = "bool"  -> v.t = "bool"
    [] p = "int"   -> v.t = "int"
    [] p = "uint"  -> v.t = "int" /\ ~v.neg
    [] p = "nint"  -> v.t = "int" /\ v.neg
    [] p = "float" -> v.t = "float"
    [] p = "tstr"  -> v.t = "text"
    [] p = "bstr"  -> v.t = "bytes"

OkIf(b) == IF b THEN "ok" ELSE "mismatch"

RangeRes(s, e, inc, v) ==
  IF s.t = "int" /\ e.t = "int" /\ v.t = "int"
  THEN OkIf(CmpInt(s, v) <= 0 /\ (IF inc THEN CmpInt(v, e) <= 0 ELSE CmpInt(v, e) < 0))
  ELSE IF s.t = "float" /\ e.t = "float" /\ v.t = "float"
  THEN OkIf(FLe(s, v) /\ (IF inc THEN FLe(v, e) ELSE FLt(v, e)))
  ELSE IF s.t = e.t THEN "mismatch" ELSE "structural"

CmpRes(op, target, lim, v) ==
  OkIf(/\ v.t = "int"
       /\ PrelOk(target, v)
       /\ LET c == CmpInt(v, lim) IN
          CASE op = "lt" -> c < 0 [] op = "le" -> c <= 0
            [] op = "gt" -> c > 0 [] op = "ge" -> c >= 0)

\* number of bytes of v that the size limit is about
SizeRes(target, s, e, inc, v) ==
  LET lo == s.mag   hi == e.mag
      empty == CmpMag(lo, hi) > 0 \/ (CmpMag(lo, hi) = 0 /\ ~inc)
      within(n) == LET m == NatMag(n) IN
                   CmpMag(lo, m) <= 0 /\ (IF inc THEN CmpMag(m, hi) <= 0 ELSE CmpMag(m, hi) < 0)
  IN  IF empty THEN "mismatch"
      ELSE CASE target = "uint" ->
                  OkIf(/\ v.t = "int" /\ ~v.neg
                       /\ IF lo = hi THEN CmpMag(NatMag(Len(v.mag)), hi) <= 0
                                     ELSE within(Len(v.mag)))
             [] target = "tstr" -> OkIf(v.t = "text" /\ within(Utf8Len(v.c)))
             [] target = "bstr" -> OkIf(v.t = "bytes" /\ within(Len(v.b)))

---------------------------------------------------------------------------

RECURSIVE Val(_, _, _, _), ValChoice(_, _, _, _, _), Chase(_, _, _),
          Cify(_, _, _, _), CifyM(_, _, _, _, _),
          ArrM(_, _, _, _), ArrSeq(_, _, _, _, _), ArrOcc(_, _, _, _, _), ArrCh(_, _, _, _, _),
          MapM(_, _, _, _), MapSeq(_, _, _, _, _), MapOcc(_, _, _, _, _), MapCh(_, _, _, _, _),
          MapKV(_, _, _, _, _), MapCify(_, _, _, _, _)

\* follow rule names to a node that is not one: [r |-> "ok", node] or fatal
Chase(R, n, env) ==
  IF n.k # "rule" THEN [r |-> "ok", node |-> n]
  ELSE LET a == Lookup(R, n.n, n.args, env) IN
       IF a.r # "ok" THEN a ELSE Chase(R, a.node, a.env)

ValRange(R, n, v, env) ==
  LET s == Chase(R, n.s, env) IN
  IF s.r # "ok" THEN s.r
  ELSE IF s.node.k # "lit" THEN "structural"
  ELSE LET e == Chase(R, n.e, env) IN
       IF e.r # "ok" THEN e.r
       ELSE IF e.node.k # "lit" THEN "structural"
       ELSE RangeRes(s.node.v, e.node.v, n.inc, v)

ValCtl(R, n, v, env) ==
  LET a == Chase(R, n.arg, env) IN
  IF a.r # "ok" THEN a.r
  ELSE IF n.op = "size"
  THEN LET l == a.node
           ends == IF l.k = "lit" THEN <<l, l>> ELSE IF l.k = "range" THEN <<l.s, l.e>> ELSE <<>>
       IN  IF ends = <<>> \/ \E i \in 1..Len(ends) : ~(IsIntLit(ends[i]) /\ FitsU64(ends[i].v))
           THEN "structural"
           ELSE LET t == Chase(R, n.x, env) IN
                IF t.r # "ok" THEN t.r
                ELSE IF t.node \notin {Prel("uint"), Prel("tstr"), Prel("bstr")} THEN "structural"
                ELSE SizeRes(t.node.p, ends[1].v, ends[2].v, l.k = "lit" \/ l.inc, v)
  ELSE IF ~IsIntLit(a.node) THEN "structural"
  ELSE LET t == Chase(R, n.x, env) IN
       IF t.r # "ok" THEN t.r
       ELSE IF t.node \notin {Prel("uint"), Prel("nint"), Prel("int")} THEN "structural"
       ELSE CmpRes(n.op, t.node.p, a.node.v, v)

\* value v against node n
Val(R, n, v, env) ==
  CASE n.k = "lit"    -> OkIf(EqVal(n.v, v))
    [] n.k = "prel"   -> OkIf(PrelOk(n.p, v))
    [] n.k = "choice" -> ValChoice(R, n.o, 1, v, env)
    [] n.k = "rule"   -> LET a == Lookup(R, n.n, n.args, env) IN
                         IF a.r # "ok" THEN a.r ELSE Val(R, a.node, v, a.env)
    [] n.k = "array"  -> IF v.t # "array" THEN "mismatch"
                         ELSE LET x == ArrSeq(R, n.m, 1, v.a, env) IN
                              IF x.r # "ok" THEN x.r ELSE OkIf(x.rest = <<>>)
    [] n.k = "map"    -> IF v.t # "map" THEN "mismatch"
                         ELSE LET x == MapSeq(R, n.m, 1, v.m, env) IN
                              IF x.r # "ok" THEN UnCut(x.r) ELSE OkIf(x.rest = <<>>)
    [] n.k = "group"  -> IF Len(n.m) = 1 THEN Val(R, n.m[1], v, env) ELSE "unsupported"
    [] n.k \in {"kv", "occ", "unwrap"} -> "structural"
    [] n.k = "range"  -> ValRange(R, n, v, env)
    [] n.k = "ctl"    -> ValCtl(R, n, v, env)
    [] n.k = "re"     -> OkIf(v.t = "text" /\ RegexFinds(n.re, v.c))
    [] n.k = "cbor"   -> IF ~HasCbor THEN "unsupported"
                         ELSE IF v.t # "bytes" THEN "mismatch"
                         ELSE LET d == CborDecode(v.b) IN
                              IF d.t = "bad" THEN "value" ELSE Val(R, n.x, d, env)
    [] n.k = "cify"   -> Cify(R, n, v, env)
    [] n.k = "cin"    -> CifyM(R, n.m, 1, v, env)

ValChoice(R, o, i, v, env) ==
  IF i > Len(o) THEN "mismatch"
  ELSE LET r == Val(R, o[i], v, env) IN
       IF r = "ok" \/ Fatal(r) THEN r ELSE ValChoice(R, o, i + 1, v, env)

Cify(R, n, v, env) ==
  LET a == Lookup(R, n.n, n.args, env) IN
  IF a.r # "ok" THEN a.r
  ELSE CASE a.node.k = "group" -> CifyM(R, a.node.m, 1, v, a.env)
         [] a.node.k = "rule"  -> Cify(R, a.node, v, a.env)
         [] OTHER -> "structural"

CifyM(R, m, i, v, env) ==
  IF i > Len(m) THEN "mismatch"
  ELSE LET r == CASE m[i].k = "kv"   -> Val(R, m[i].val, v, env)
                  [] m[i].k = "rule" -> Cify(R, m[i], v, env)
                  [] OTHER           -> Val(R, m[i], v, env)
       IN  IF r = "ok" \/ Fatal(r) THEN r ELSE CifyM(R, m, i + 1, v, env)

---------------------------------------------------------------------------
(* arrays: [r, rest]; rest is what remains, only meaningful when r = "ok"   *)

Fail(r, rest) == [r |-> r, rest |-> rest]

ArrSeq(R, m, i, rest, env) ==
  IF i > Len(m) THEN [r |-> "ok", rest |-> rest]
  ELSE LET x == ArrM(R, m[i], rest, env) IN
       IF x.r # "ok" THEN x ELSE ArrSeq(R, m, i + 1, x.rest, env)

ArrOcc(R, n, cnt, rest, env) ==
  LET stop == IF cnt < n.lo THEN Fail("mismatch", rest) ELSE [r |-> "ok", rest |-> rest] IN
  IF cnt >= n.hi THEN stop
  ELSE LET x == ArrM(R, n.x, rest, env) IN
       IF x.r = "mismatch" THEN stop
       ELSE IF x.r # "ok" THEN x
       ELSE IF Len(x.rest) = Len(rest) THEN ArrOcc(R, n, n.hi, rest, env)
       ELSE ArrOcc(R, n, cnt + 1, x.rest, env)

ArrCh(R, o, i, rest, env) ==
  IF i > Len(o) THEN Fail("mismatch", rest)
  ELSE LET x == ArrM(R, o[i], rest, env) IN
       IF x.r = "ok" \/ Fatal(x.r) THEN x ELSE ArrCh(R, o, i + 1, rest, env)

ArrElem(R, n, rest, env) ==
  IF rest = <<>> THEN Fail("mismatch", rest)
  ELSE LET r == Val(R, n, rest[1], env) IN
       IF r = "ok" THEN [r |-> "ok", rest |-> Tail(rest)] ELSE Fail(r, rest)

ArrM(R, n, rest, env) ==
  CASE n.k = "occ"    -> ArrOcc(R, n, 0, rest, env)
    [] n.k = "kv"     -> ArrElem(R, n.val, rest, env)
    [] n.k = "rule"   -> LET a == Lookup(R, n.n, n.args, env) IN
                         IF a.r # "ok" THEN Fail(a.r, rest) ELSE ArrM(R, a.node, rest, a.env)
    [] n.k = "unwrap" -> LET a == Lookup(R, n.n, n.args, env) IN
                         IF a.r # "ok" THEN Fail(a.r, rest)
                         ELSE IF a.node.k = "rule" THEN ArrM(R, [a.node EXCEPT !.k = "unwrap"], rest, a.env)
                         ELSE IF a.node.k # "array" THEN Fail("mismatch", rest)
                         ELSE ArrSeq(R, a.node.m, 1, rest, a.env)
    [] n.k = "choice" -> ArrCh(R, n.o, 1, rest, env)
    [] n.k = "group"  -> ArrSeq(R, n.m, 1, rest, env)
    [] OTHER          -> ArrElem(R, n, rest, env)

---------------------------------------------------------------------------
(* maps *)

MapSeq(R, m, i, rest, env) ==
  IF i > Len(m) THEN [r |-> "ok", rest |-> rest]
  ELSE LET x == MapM(R, m[i], rest, env) IN
       IF x.r # "ok" THEN x ELSE MapSeq(R, m, i + 1, x.rest, env)

MapOcc(R, n, cnt, rest, env) ==
  LET stop == IF cnt < n.lo THEN Fail("mismatch", rest) ELSE [r |-> "ok", rest |-> rest] IN
  IF cnt >= n.hi THEN stop
  ELSE LET x == MapM(R, n.x, rest, env) IN
       IF x.r = "mismatch" THEN stop
       ELSE IF x.r # "ok" THEN x
       ELSE IF Len(x.rest) = Len(rest) THEN MapOcc(R, n, n.hi, rest, env)
       ELSE MapOcc(R, n, cnt + 1, x.rest, env)

MapCh(R, o, i, rest, env) ==
  IF i > Len(o) THEN Fail("mismatch", rest)
  ELSE LET x == MapM(R, o[i], rest, env) IN
       IF x.r # "mismatch" THEN x ELSE MapCh(R, o, i + 1, rest, env)

\* members of a choicified group as map members
MapCify(R, m, i, rest, env) ==
  IF i > Len(m) THEN Fail("mismatch", rest)
  ELSE LET x == CASE m[i].k = "kv"   -> MapM(R, m[i].val, rest, env)
                  [] m[i].k = "rule" -> MapM(R, [m[i] EXCEPT !.k = "cify"], rest, env)
                  [] OTHER           -> MapM(R, m[i], rest, env)
       IN  IF x.r # "mismatch" THEN x ELSE MapCify(R, m, i + 1, rest, env)

Without(rest, i) == SubSeq(rest, 1, i - 1) \o SubSeq(rest, i + 1, Len(rest))

\* entries from i on, in key order
MapKV(R, n, i, rest, env) ==
  IF i > Len(rest) THEN Fail("mismatch", rest)
  ELSE LET kr == IF n.key.k = "lit" THEN OkIf(EqVal(n.key.v, rest[i][1]))
                 ELSE Val(R, n.key, rest[i][1], env)
       IN  IF Fatal(kr) THEN Fail(kr, rest)
           ELSE IF kr # "ok" THEN MapKV(R, n, i + 1, rest, env)
           ELSE LET vr == Val(R, n.val, rest[i][2], env) IN
                IF vr = "ok" THEN [r |-> "ok", rest |-> Without(rest, i)]
                ELSE IF Fatal(vr) THEN Fail(vr, rest)
                ELSE IF n.cut THEN Fail("mapcut", rest)
                ELSE MapKV(R, n, i + 1, rest, env)

GroupRes(x) == [x EXCEPT !.r = UnCut(@)]

MapM(R, n, rest, env) ==
  CASE n.k = "occ"    -> MapOcc(R, n, 0, rest, env)
    [] n.k = "kv"     -> MapKV(R, n, 1, rest, env)
    [] n.k = "rule"   -> LET a == Lookup(R, n.n, n.args, env) IN
                         IF a.r # "ok" THEN Fail(a.r, rest) ELSE MapM(R, a.node, rest, a.env)
    [] n.k = "unwrap" -> LET a == Lookup(R, n.n, n.args, env) IN
                         IF a.r # "ok" THEN Fail(a.r, rest)
                         ELSE IF a.node.k = "rule" THEN MapM(R, [a.node EXCEPT !.k = "unwrap"], rest, a.env)
                         ELSE IF a.node.k # "map" THEN Fail("mismatch", rest)
                         ELSE GroupRes(MapSeq(R, a.node.m, 1, rest, a.env))
    [] n.k = "group"  -> GroupRes(MapSeq(R, n.m, 1, rest, env))
    [] n.k = "choice" -> MapCh(R, n.o, 1, rest, env)
    [] n.k = "cify"   -> LET a == Lookup(R, n.n, n.args, env) IN
                         IF a.r # "ok" THEN Fail(a.r, rest)
                         ELSE CASE a.node.k = "group" -> MapCify(R, a.node.m, 1, rest, a.env)
                                [] a.node.k = "rule"  -> MapM(R, [a.node EXCEPT !.k = "cify"], rest, a.env)
                                [] OTHER -> Fail("structural", rest)
    [] n.k = "cin"    -> MapCify(R, n.m, 1, rest, env)
    [] OTHER          -> Fail("structural", rest)

---------------------------------------------------------------------------
(* The whole validation of value v against rule `name` of a built schema.   *)

Validate(R, name, v) ==
  IF R[name].parms # <<>> THEN "generic" ELSE Val(R, R[name].node, v, NoEnv)

\* what a caller sees of the one-call functions, d being the decoded data
\* ([t |-> "bad"] when it does not decode)
OneCall(B, name, d) ==
  IF B.err # "" THEN B.err
  ELSE IF name \notin DOMAIN B.rules THEN About("missing", name)
  ELSE IF d.t = "bad" THEN "value"
  ELSE Validate(B.rules, name, Norm(d))
=============================================================================
