-------------------------------- MODULE Trace --------------------------------
(* Recorded behaviours of the implementation, checked against Session.      *)
(*                                                                          *)
(* Each line of the trace file is one case: texts, documents, and events    *)
(* with the recorded result r.  The cases are independent behaviours; each  *)
(* event has to be the step that Session takes for that call, with the      *)
(* recorded result.  A result that differs is reported and the behaviour    *)
(* goes on, so that one run checks everything that was recorded.            *)
EXTENDS Session, Json

Cases == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES c,     \* case
          i,     \* events done; -1: nothing understood yet
          bad    \* events whose recorded result is not the one of the specification
tvars == <<svars, c, i, bad>>

Ev == Cases[c].ev[i + 1]
Text(t) == Cases[c].texts[t]

TraceInit ==
  /\ c \in 1..Len(Cases)
  /\ i = -1
  /\ bad = {}
  /\ und = <<>> /\ dat = <<>> /\ ctx = <<>> /\ out = ""

Start ==
  /\ i = -1
  /\ i' = 0
  /\ und' = [t \in 1..Len(Cases[c].texts) |-> Understand(Cases[c].texts[t])]
  /\ dat' = [d \in 1..Len(Cases[c].docs) |-> Decode(Cases[c].docs[d])]
  /\ UNCHANGED <<ctx, out, c, bad>>

\* the recorded result agrees with the specified one
Judge(agrees) ==
  /\ i' = i + 1
  /\ UNCHANGED c
  /\ IF agrees THEN UNCHANGED bad
     ELSE /\ bad' = bad \cup {i + 1}
          /\ PrintT(<<"DIVERGES", c, i + 1, ToJson(out'), ToJson(Ev.r)>>)

IsEvent(a) == i >= 0 /\ i < Len(Cases[c].ev) /\ Ev.a = a

\* Rules of different kinds have trees of different shapes; compare kinds first.
AlikeRules(x, y) == /\ Len(x) = Len(y)
                    /\ \A k \in 1..Len(x) : x[k].k = y[k].k /\ x[k] = y[k]

\* "Bareword with generic arguments"
NoArgs == <<66, 97, 114, 101, 119, 111, 114, 100, 32, 119, 105, 116, 104, 32, 103, 101, 110, 101, 114, 105, 99, 32, 97, 114, 103, 117, 109, 101, 110, 116, 115>>
SetOf(s) == {s[k] : k \in 1..Len(s)}

TParse == IsEvent("parse") /\ ParseText(Ev.t)
          /\ Judge(~Ev.abn /\ out'.e = Ev.r.e /\ AlikeRules(out'.rules, Ev.r.rules))
\* what an error quotes is in the text; the literal itself if it is about one
TWhere == IsEvent("where") /\ PointText(Ev.t)
          /\ Judge(~Ev.abn /\ out'.e = Ev.r.e
                   /\ LET s == Text(Ev.t)  q == Ev.r.ctx
                      IN  \/ out'.e = ""
                          \/ (out'.at # <<-1>> /\ q = out'.at)
                          \/ /\ out'.at = <<-1>>
                             /\ \/ (Len(q) <= Len(s) /\ q = SubSeq(s, Len(s) - Len(q) + 1, Len(s)))
                                \/ q = NoArgs)
\* nodes of different kinds have different fields
RECURSIVE AlikeNodes(_, _)
AlikeAll(x, y) == Len(x) = Len(y) /\ \A k \in 1..Len(x) : AlikeNodes(x[k], y[k])
AlikeNodes(x, y) ==
  /\ x.k = y.k
  /\ CASE x.k \in {"rule", "unwrap", "cify"} -> x.n = y.n /\ AlikeAll(x.args, y.args)
       [] x.k = "choice" -> AlikeAll(x.o, y.o)
       [] x.k \in {"map", "array", "group", "cin"} -> AlikeAll(x.m, y.m)
       [] x.k = "kv"     -> x.cut = y.cut /\ AlikeNodes(x.key, y.key) /\ AlikeNodes(x.val, y.val)
       [] x.k = "occ"    -> x.lo = y.lo /\ x.hi = y.hi /\ AlikeNodes(x.x, y.x)
       [] x.k = "range"  -> x.inc = y.inc /\ AlikeNodes(x.s, y.s) /\ AlikeNodes(x.e, y.e)
       [] x.k = "ctl"    -> x.op = y.op /\ AlikeNodes(x.x, y.x) /\ AlikeNodes(x.arg, y.arg)
       [] x.k = "lit"    -> x.v.t = y.v.t /\ x.v = y.v
       [] OTHER          -> x = y
AlikeTrees(x, y) ==
  /\ x.e = y.e
  /\ (x.e = "" => /\ Len(y.rules) = Cardinality(DOMAIN x.rules)
                  /\ \A k \in 1..Len(y.rules) :
                        LET q == y.rules[k] IN
                        q.name \in DOMAIN x.rules /\ q.parms = x.rules[q.name].parms
                        /\ AlikeNodes(x.rules[q.name].node, q.node))
TTree == IsEvent("tree") /\ TreeOf(Ev.t) /\ Judge(~Ev.abn /\ AlikeTrees(out', Ev.r))
\* things made by callers
TFlat == IsEvent("flat") /\ BuildTrees(Ev.rules) /\ Judge(~Ev.abn /\ AlikeTrees(out', Ev.r))
THand == IsEvent("hand") /\ UseTrees(HandTable(Ev.rules), Ev.rule, Ev.ds) /\ Judge(~Ev.abn /\ out' = Ev.r)
TData == IsEvent("data") /\ Represent(Ev.d) /\ Judge(~Ev.abn /\ out' = Ev.r)
TCompare == IsEvent("cmp") /\ Compare(Ev.d, Ev.ds) /\ Judge(~Ev.abn /\ out' = Ev.r)
TTell == IsEvent("node") /\ Tell(Ev.n, Ev.m)
         /\ Assert(SymbolTells(Ev.n), <<"SPEC: symbol", c, i + 1>>)
         /\ Judge(/\ ~Ev.abn /\ Ev.r.copy
                  /\ out'.lim = Ev.r.lim /\ (Ev.n.k = "occ" => SymbolLimits(Ev.r.sym) = out'.lim) /\ out'.same = Ev.r.same
                  /\ AlikeAll(out'.size, Ev.r.size)
                  /\ (IF Ev.n.k = "lit" /\ Ev.n.v.t = "float" THEN ReadsAs(Ev.r.show, Ev.n.v)
                      ELSE out'.show = AnyText \/ out'.show = Ev.r.show)
                  /\ (out'.own = AnyText \/ Ev.r.sym \o out'.own = Ev.r.own))
TSlices == IsEvent("slices") /\ SliceText(Ev.t, Text(Ev.t))
          /\ Judge(~Ev.abn /\ out'.e = Ev.r.e /\ out'.src = Ev.r.src
                           /\ AlikeRules(out'.rules, Ev.r.rules))
\* a part repeated, at most five times here and many times there
RECURSIVE Times(_, _)
Times(s, k) == IF k = 0 THEN <<>> ELSE s \o Times(s, k - 1)
TBulk == IsEvent("bulk")
         /\ out' = Parse(Text(Ev.p) \o Times(Text(Ev.m), IF Ev.n < 5 THEN Ev.n ELSE 5) \o Text(Ev.q)).e
         /\ UNCHANGED <<und, dat, ctx>>
         /\ Judge(~Ev.abn /\ out' = Ev.r)
TBuild == (IsEvent("build") \/ IsEvent("build2")) /\ BuildText(Ev.t)
          /\ Judge(~Ev.abn /\ out'.e = Ev.r.e /\ out'.names = SetOf(Ev.r.names)
                           /\ Len(Ev.r.names) = Cardinality(out'.names))
TSBuild == (IsEvent("sbuild") \/ IsEvent("sbuild2")) /\ SliceBuild(Ev.t, Text(Ev.t))
          /\ Judge(~Ev.abn /\ out'.e = Ev.r.e
                           /\ out'.names = {<<Ev.r.names[k], Ev.r.src[k]>> : k \in 1..Len(Ev.r.names)})
\* two texts that are understood alike are built alike
TSame == IsEvent("same")
         /\ out' = (LET x == ParseResult(und[Ev.t])  y == ParseResult(und[Ev.u])
                 IN  IF x.e = y.e /\ AlikeRules(x.rules, y.rules) THEN "same" ELSE "differs")
         /\ UNCHANGED <<und, dat, ctx>>
         /\ Judge(~Ev.abn /\ (out' = "same" => Ev.r = "same"))
TOne  == IsEvent("one") /\ ValidateOne(Ev.t, Ev.rule, Ev.d) /\ Judge(~Ev.abn /\ out' = Ev.r)
\* one document under two texts that mean the same
TAgree == IsEvent("agree") /\ ValidateOne(Ev.t, Ev.rule, Ev.d)
          /\ Assert(OneResult(und[Ev.u], Ev.rule2, dat[Ev.d]) = out', <<"SPEC: texts disagree", c, i + 1>>)
          /\ Judge(~Ev.abn /\ Ev.r = <<out', out'>>)
TLoad == IsEvent("load") /\ Load(Ev.h, Ev.t) /\ Judge(~Ev.abn /\ out' = Ev.r)
TCustom == IsEvent("custom") /\ Custom(Ev.h, Ev.layers, PairMap(Ev.rename), PairMap(Ev.errs))
           /\ Judge(~Ev.abn /\ out' = Ev.r)
TCall == IsEvent("call") /\ Call(Ev.h, Ev.rule, Ev.d)
         /\ Judge(/\ ~Ev.abn
                  /\ IF CtxOf(Ev.h).own
                     THEN /\ out' = Ev.r.r
                          /\ SetOf(Ev.r.asked) \cap PreludeNames = {}
                          /\ SetOf(Ev.r.asked) \subseteq
                               {Ev.rule} \cup FreeNames([n \in {m \in DOMAIN ctx[Ev.h].R :
                                                          "err" \notin DOMAIN ctx[Ev.h].R[m]} |->
                                                          ctx[Ev.h].R[n]])
                     ELSE out' = Ev.r)
TPar  == IsEvent("par") /\ Calls(Ev.h, Ev.calls)
         /\ Judge(~Ev.abn /\ IF CtxOf(Ev.h).ok THEN \A k \in 1..Len(Ev.calls) : Ev.r[k] = <<out'[k]>>
                             ELSE Ev.r = "noctx")
TIntact == IsEvent("intact")
           /\ out' = (IF CtxOf(Ev.h).ok THEN IF und[Ev.t].built.err = ""
                                             THEN IF ctx[Ev.h].R = und[Ev.t].built.rules THEN "same" ELSE "differs"
                                             ELSE und[Ev.t].built.err
                      ELSE "noctx")
           /\ UNCHANGED <<und, dat, ctx>>
           /\ Judge(~Ev.abn /\ out' = Ev.r)

TraceNext == Start \/ TParse \/ TWhere \/ TTree \/ TFlat \/ THand \/ TData \/ TCompare \/ TTell \/ TBulk \/ TSlices \/ TBuild \/ TSBuild \/ TSame \/ TOne \/ TAgree \/ TLoad \/ TCustom
             \/ TCall \/ TPar \/ TIntact

TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
