-------------------------------- MODULE Machine --------------------------------
(* Validation as a machine that works on shared, consumable copies of the   *)
(* arrays and maps it is in, with a stack of snapshots to go back to: the   *)
(* way the implementation does it, one small step at a time.  Sem says what *)
(* the outcome should be, without any of this; here it is checked, for      *)
(* every schema and document of a family, that the machine                  *)
(*   - comes to the outcome of Sem                          (Outcome)       *)
(*   - neither loses, doubles nor reorders data             (Conserved)     *)
(*   - opens and closes snapshots in pairs                  (Paired)        *)
(*   - restores exactly what there was when a part fails    (Restores)      *)
(*   - never gets past a fault of the schema                (FaultsStay)    *)
(*   - keeps to the nesting limit                           (Depth)         *)
(*   - always ends, within a bounded number of steps        (Ends), and is  *)
(*     never stuck (no deadlock).                                           *)
EXTENDS Space

VARIABLES
  at, doc,    \* the point of the family and the number of the document
  phase,      \* "new", "read", "run", "done"
  R,          \* the rules
  ctl,        \* frames, innermost last
  wk,         \* working copies, innermost last
  ret,        \* result handed to the innermost frame, "" while there is none
  steps
mvars == <<svars, at, doc, phase, R, ctl, wk, ret, steps>>

Und == Understand(Point(Fam, at[1], at[2], at[3]))

MInit ==
  /\ \E a \in Lo..Hi, b \in 1..Dims(Fam)[2], c \in 1..Dims(Fam)[3] :
       InClass(a, b, c) /\ at = <<a, b, c>>
  /\ doc = 0
  /\ phase = "new" /\ R = <<>> /\ ctl = <<>> /\ wk = <<>> /\ ret = "" /\ steps = 0
  /\ und = <<>> /\ dat = <<>> /\ ctx = <<>> /\ out = ""

Top     == ctl[Len(ctl)]
Below   == SubSeq(ctl, 1, Len(ctl) - 1)
W       == wk[Len(wk)]
WBelow  == SubSeq(wk, 1, Len(wk) - 1)
SetW(w) == wk' = Append(WBelow, w)

VFrame(n, v, env) == [f |-> "v", n |-> n, v |-> v, env |-> env]
MFrame(n, env)    == [f |-> "m", n |-> n, env |-> env]

Return(r) == ret' = r /\ ctl' = Below
Become(g) == ret' = "" /\ ctl' = Append(Below, g)
Enter(g, h) == ret' = "" /\ ctl' = Below \o <<g, h>>     \* top becomes g, and h is entered
SameW == UNCHANGED wk

---------------------------------------------------------------------------
(* the working copies *)

Snapshot(w) == [w EXCEPT !.snaps = Append(@, <<>>)]
LastSnap(w) == w.snaps[Len(w.snaps)]
Pop(s)      == SubSeq(s, 1, Len(s) - 1)

Commit(w) ==
  LET k == Len(w.snaps) IN
  IF k = 1 THEN [w EXCEPT !.snaps = <<>>]
  ELSE [w EXCEPT !.snaps = [Pop(w.snaps) EXCEPT ![k - 1] = @ \o LastSnap(w)]]

Rewind(w) ==
  [w EXCEPT !.snaps = Pop(@),
            !.rest = IF w.t = "array" THEN LastSnap(w) \o @ ELSE MergePairs(@, SortPairs(LastSnap(w)))]

\* take element i of the rest
Take(w, i) ==
  [w EXCEPT !.rest = Without(@, i),
            !.snaps = IF @ = <<>> THEN @ ELSE [@ EXCEPT ![Len(@)] = Append(@, w.rest[i])]]

---------------------------------------------------------------------------
(* calls: ret = "" and the top frame has something to do *)

Leaf(n) == n.k \in {"lit", "prel", "range", "ctl", "re", "kv", "occ", "unwrap"}
           \/ (n.k = "group" /\ Len(n.m) # 1)

CallV ==
  LET n == Top.n  v == Top.v  env == Top.env IN
  CASE Leaf(n) -> Return(Val(R, n, v, env)) /\ SameW
    [] n.k = "choice" -> Become([f |-> "alt", o |-> n.o, i |-> 1, v |-> v, env |-> env]) /\ SameW
    [] n.k = "rule" -> LET a == Lookup(R, n.n, n.args, env) IN
                       /\ IF a.r # "ok" THEN Return(a.r) ELSE Become(VFrame(a.node, v, a.env))
                       /\ SameW
    [] n.k = "group" -> Become(VFrame(n.m[1], v, env)) /\ SameW
    [] n.k \in {"array", "map"} ->
         IF v.t # n.k THEN Return("mismatch") /\ SameW
         ELSE LET all == IF n.k = "array" THEN v.a ELSE v.m IN
              /\ Enter([f |-> "box"], [f |-> "seq", m |-> n.m, i |-> 1, env |-> env, snap |-> FALSE, was |-> all])
              /\ wk' = Append(wk, [t |-> n.k, orig |-> all, rest |-> all, snaps |-> <<>>])
    [] n.k = "cbor" -> /\ IF ~HasCbor THEN Return("unsupported")
                          ELSE IF v.t # "bytes" THEN Return("mismatch")
                          ELSE LET d == CborDecode(v.b) IN
                               IF d.t = "bad" THEN Return("value") ELSE Become(VFrame(n.x, d, env))
                       /\ SameW
    [] n.k = "cin" -> Become([f |-> "cify", m |-> n.m, i |-> 1, v |-> v, env |-> env]) /\ SameW
    [] n.k = "cify" -> LET a == Lookup(R, n.n, n.args, env) IN
                       /\ IF a.r # "ok" THEN Return(a.r)
                          ELSE IF a.node.k = "group"
                          THEN Become([f |-> "cify", m |-> a.node.m, i |-> 1, v |-> v, env |-> a.env])
                          ELSE IF a.node.k = "rule"
                          THEN Become(VFrame([a.node EXCEPT !.k = "cify"], v, a.env))
                          ELSE Return("structural")
                       /\ SameW

\* a member of a choicified group, as a type
CifyNode(x) == CASE x.k = "kv" -> x.val [] x.k = "rule" -> [x EXCEPT !.k = "cify"] [] OTHER -> x

CallAlt ==
  /\ IF Top.i > Len(Top.o) THEN Return("mismatch")
     ELSE Enter(Top, VFrame(Top.o[Top.i], Top.v, Top.env))
  /\ SameW
CallCify ==
  /\ IF Top.i > Len(Top.m) THEN Return("mismatch")
     ELSE Enter(Top, VFrame(CifyNode(Top.m[Top.i]), Top.v, Top.env))
  /\ SameW

OpenGroup(ms, env) ==
  /\ Become([f |-> "seq", m |-> ms, i |-> 1, env |-> env, snap |-> TRUE, was |-> W.rest])
  /\ SetW(Snapshot(W))

Elem(n, env) ==
  /\ IF W.rest = <<>> THEN Return("mismatch") ELSE Enter([f |-> "elem"], VFrame(n, W.rest[1], env))
  /\ SameW

CallM ==
  LET n == Top.n  env == Top.env IN
  CASE n.k = "occ" -> /\ Become([f |-> "occ", n |-> n, cnt |-> 0, env |-> env, len |-> 0, was |-> W.rest])
                      /\ SetW(Snapshot(W))
    [] n.k = "rule" -> LET a == Lookup(R, n.n, n.args, env) IN
                       /\ IF a.r # "ok" THEN Return(a.r) ELSE Become(MFrame(a.node, a.env))
                       /\ SameW
    [] n.k = "unwrap" ->
         LET a == Lookup(R, n.n, n.args, env) IN
         IF a.r # "ok" THEN Return(a.r) /\ SameW
         ELSE IF a.node.k = "rule" THEN Become(MFrame([a.node EXCEPT !.k = "unwrap"], a.env)) /\ SameW
         ELSE IF a.node.k = W.t THEN OpenGroup(a.node.m, a.env)
         ELSE Return("mismatch") /\ SameW
    [] n.k = "choice" -> Become([f |-> "malt", o |-> n.o, i |-> 1, env |-> env]) /\ SameW
    [] n.k = "group" -> OpenGroup(n.m, env)
    [] n.k = "kv" -> IF W.t = "array" THEN Elem(n.val, env)
                     ELSE Become([f |-> "kv", n |-> n, env |-> env, at |-> 0, stage |-> "scan"]) /\ SameW
    [] OTHER ->
         IF W.t = "array" THEN Elem(n, env)
         ELSE /\ CASE n.k = "cin" -> Become([f |-> "malt", o |-> SeqMap(n.m, CifyNode), i |-> 1, env |-> env])
                   [] n.k = "cify" ->
                        LET a == Lookup(R, n.n, n.args, env) IN
                        IF a.r # "ok" THEN Return(a.r)
                        ELSE IF a.node.k = "group"
                        THEN Become([f |-> "malt", o |-> SeqMap(a.node.m, CifyNode), i |-> 1, env |-> a.env])
                        ELSE IF a.node.k = "rule" THEN Become(MFrame([a.node EXCEPT !.k = "cify"], a.env))
                        ELSE Return("structural")
                   [] OTHER -> Return("structural")
              /\ SameW

CallSeq ==
  IF Top.i > Len(Top.m)
  THEN Return("ok") /\ (IF Top.snap THEN SetW(Commit(W)) ELSE SameW)
  ELSE Enter(Top, MFrame(Top.m[Top.i], Top.env)) /\ SameW

OccEnd ==
  IF Top.cnt < Top.n.lo THEN Return("mismatch") /\ SetW(Rewind(W)) ELSE Return("ok") /\ SetW(Commit(W))

CallOcc ==
  IF Top.cnt >= Top.n.hi THEN OccEnd
  ELSE Enter([Top EXCEPT !.len = Len(W.rest)], MFrame(Top.n.x, Top.env)) /\ SameW

CallMAlt ==
  /\ IF Top.i > Len(Top.o) THEN Return("mismatch") ELSE Enter(Top, MFrame(Top.o[Top.i], Top.env))
  /\ SameW

\* the next entry to look at
CallKV ==
  LET n == Top.n
      hits == IF n.key.k = "lit" THEN {i \in 1..Len(W.rest) : EqVal(n.key.v, W.rest[i][1])} ELSE {}
  IN
  /\ IF n.key.k = "lit"
     THEN IF hits = {} \/ Top.at # 0 THEN Return("mismatch")
          ELSE LET i == CHOOSE i \in hits : TRUE IN
               Enter([Top EXCEPT !.at = i, !.stage = "val"], VFrame(n.val, W.rest[i][2], Top.env))
     ELSE IF Top.at >= Len(W.rest) THEN Return("mismatch")
          ELSE Enter([Top EXCEPT !.at = @ + 1, !.stage = "key"], VFrame(n.key, W.rest[Top.at + 1][1], Top.env))
  /\ SameW

Calling ==
  /\ phase = "run" /\ ret = "" /\ ctl # <<>>
  /\ CASE Top.f = "v"    -> CallV
       [] Top.f = "m"    -> CallM
       [] Top.f = "seq"  -> CallSeq
       [] Top.f = "occ"  -> CallOcc
       [] Top.f = "alt"  -> CallAlt
       [] Top.f = "cify" -> CallCify
       [] Top.f = "malt" -> CallMAlt
       [] Top.f = "kv"   -> CallKV
  /\ steps' = steps + 1
  /\ UNCHANGED <<svars, at, doc, phase, R>>

---------------------------------------------------------------------------
(* returns: a result for the top frame *)

NextOne == Become([Top EXCEPT !.i = @ + 1]) /\ SameW

Returning ==
  /\ phase = "run" /\ ret # "" /\ ctl # <<>>
  /\ CASE Top.f \in {"alt", "cify"} ->
            IF ret = "ok" \/ Fatal(ret) THEN Return(ret) /\ SameW ELSE NextOne
       [] Top.f = "malt" ->
            IF ret = "ok" \/ Fatal(ret) \/ (W.t = "map" /\ ret = "mapcut") THEN Return(ret) /\ SameW ELSE NextOne
       [] Top.f = "box" ->
            /\ Return(IF ret = "ok" THEN OkIf(W.rest = <<>>) ELSE UnCut(ret))
            /\ wk' = WBelow
       [] Top.f = "seq" ->
            IF ret = "ok" THEN NextOne
            ELSE /\ Return(IF Top.snap THEN UnCut(ret) ELSE ret)
                 /\ IF Top.snap THEN SetW(Rewind(W)) ELSE SameW
       [] Top.f = "occ" ->
            IF ret = "ok"
            THEN /\ Become([Top EXCEPT !.cnt = IF Len(W.rest) = Top.len THEN Top.n.hi ELSE @ + 1])
                 /\ SameW
            ELSE IF ret = "mismatch" THEN OccEnd
            ELSE Return(ret) /\ SetW(Rewind(W))
       [] Top.f = "elem" -> Return(ret) /\ (IF ret = "ok" THEN SetW(Take(W, 1)) ELSE SameW)
       [] Top.f = "kv" ->
            IF Fatal(ret) THEN Return(ret) /\ SameW
            ELSE IF Top.stage = "key"
            THEN (IF ret = "ok"
                  THEN Enter([Top EXCEPT !.stage = "val"], VFrame(Top.n.val, W.rest[Top.at][2], Top.env))
                  ELSE Become([Top EXCEPT !.stage = "scan"]))
                 /\ SameW
            ELSE IF ret = "ok" THEN Return("ok") /\ SetW(Take(W, Top.at))
            ELSE /\ IF Top.n.cut THEN Return("mapcut") ELSE Become([Top EXCEPT !.stage = "scan"])
                 /\ SameW
  /\ steps' = steps + 1
  /\ UNCHANGED <<svars, at, doc, phase, R>>

Read ==
  /\ phase = "new"
  /\ LET u == Und IN
     IF u.built.err # "" THEN phase' = "done" /\ ret' = u.built.err /\ UNCHANGED R
     ELSE IF u.built.rules["t"].parms # <<>> THEN phase' = "done" /\ ret' = "generic" /\ UNCHANGED R
     ELSE phase' = "read" /\ R' = u.built.rules /\ UNCHANGED ret
  /\ UNCHANGED <<svars, at, doc, ctl, wk, steps>>

Begin ==
  /\ phase = "read"
  /\ \E d \in 1..Len(TheDocs) : doc' = d /\ ctl' = <<VFrame(R["t"].node, Norm(TheData[d]), NoEnv)>>
  /\ phase' = "run"
  /\ UNCHANGED <<svars, at, R, wk, ret, steps>>

End == /\ phase = "run" /\ ret # "" /\ ctl = <<>>
       /\ phase' = "done" /\ UNCHANGED <<svars, at, doc, R, ctl, wk, ret, steps>>

Rest == phase = "done" /\ UNCHANGED mvars

MNext == Read \/ Begin \/ Calling \/ Returning \/ End \/ Rest
MSpec == MInit /\ [][MNext]_mvars

---------------------------------------------------------------------------

Outcome == phase = "done" /\ R # <<>> => ret = Val(R, R["t"].node, Norm(TheData[doc]), NoEnv)

RECURSIVE Joined(_)
Joined(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Joined(Tail(ss))

Members(s) == {s[i] : i \in 1..Len(s)}

Conserved ==
  \A k \in 1..Len(wk) :
    LET w == wk[k]  held == Joined(w.snaps) IN
    IF w.t = "array"
    THEN LET have == held \o w.rest IN
         Len(have) <= Len(w.orig) /\ have = Drop(w.orig, Len(w.orig) - Len(have))
    ELSE LET have == held \o w.rest IN
         /\ Members(have) \subseteq Members(w.orig)
         /\ Cardinality(Members(have)) = Len(have)
         /\ \A i \in 1..Len(w.rest) - 1 : CmpVal(w.rest[i][1], w.rest[i + 1][1]) < 0

Boxes == {i \in 1..Len(ctl) : ctl[i].f = "box"}
Paired ==
  phase = "run" =>
  /\ Cardinality(Boxes) = Len(wk)
  /\ \A k \in 1..Len(wk) :
       LET from == CHOOSE i \in Boxes : Cardinality({j \in Boxes : j <= i}) = k
           to   == {j \in Boxes : j > from}
           last == IF to = {} THEN Len(ctl) ELSE (CHOOSE j \in to : \A l \in to : j <= l) - 1
       IN  Len(wk[k].snaps) =
             Cardinality({i \in from..last : ctl[i].f = "occ" \/ (ctl[i].f = "seq" /\ ctl[i].snap)})

\* a part that fails leaves what it found
Restores ==
  [][ /\ Len(ctl') < Len(ctl) /\ ctl' = Below /\ ret' # "ok"
      /\ (Top.f = "occ" \/ (Top.f = "seq" /\ Top.snap))
      => wk'[Len(wk')].rest = Top.was ]_mvars

FaultsStay == [][Fatal(ret) /\ ret # "" => ret' = ret]_mvars

Depth == \A i \in 1..Len(ctl) : "env" \in DOMAIN ctl[i] => ctl[i].env.depth <= MaxDepth

Ends == steps <= 20000
=============================================================================
