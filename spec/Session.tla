------------------------------- MODULE Session -------------------------------
(* The library as its users see it: schema texts are parsed, built, loaded  *)
(* into contexts; data, given as JSON or CBOR, is validated against a rule  *)
(* of a text or of a loaded context, which may be a caller's own stack of   *)
(* rule sets.                                                               *)
(*                                                                          *)
(* Texts and documents are numbered; Texts[t] is a sequence of code points, *)
(* Docs[d] is [k |-> "json", s |-> code points] or [k |-> "cbor", s |->     *)
(* bytes].                                                                  *)
EXTENDS Sem, Parser, JsonText, Nodes

Decode(doc) == IF doc.k = "json" THEN JsonDecode(doc.s) ELSE CborDecode(doc.s)

(* What there is to know about a text: its syntax tree and built rules.     *)
NoRules == [err |-> "parse", rules |-> <<>>]
Understand(s) ==
  LET p == Parse(s) IN
  [parse |-> p, built |-> IF p.e # "" THEN NoRules ELSE Build(p.rules)]

Bare(r) == [name |-> r.name, parms |-> r.parms, k |-> r.k, v |-> r.v]

ParseResult(u) ==
  [e |-> u.parse.e, rules |-> [i \in 1..Len(u.parse.rules) |-> Bare(u.parse.rules[i])]]

SliceResult(u, s) ==
  [e |-> u.parse.e,
   rules |-> [i \in 1..Len(u.parse.rules) |-> Bare(u.parse.rules[i])],
   src |-> [i \in 1..Len(u.parse.rules) |->
              SubSeq(s, u.parse.rules[i].b, u.parse.rules[i].e - 1)]]

\* what an error in parsing points at: the malformed literal, or (at = <<-1>>)
\* wherever parsing did not get past
PointResult(u) == [e |-> u.parse.e, at |-> u.parse.at]

\* the tree that is built; patterns and the types of embedded items are not to be seen
RECURSIVE Seen(_)
SeenAll(ns) == [i \in 1..Len(ns) |-> Seen(ns[i])]
Seen(n) ==
  CASE n.k \in {"rule", "unwrap", "cify"} -> [n EXCEPT !.args = SeenAll(@)]
    [] n.k = "choice" -> [n EXCEPT !.o = SeenAll(@)]
    [] n.k \in {"map", "array", "group", "cin"} -> [n EXCEPT !.m = SeenAll(@)]
    [] n.k = "kv"     -> [n EXCEPT !.key = Seen(@), !.val = Seen(@)]
    [] n.k = "occ"    -> [n EXCEPT !.x = Seen(@)]
    [] n.k = "range"  -> [n EXCEPT !.s = Seen(@), !.e = Seen(@)]
    [] n.k = "ctl"    -> [n EXCEPT !.x = Seen(@), !.arg = Seen(@)]
    [] n.k \in {"re", "cbor"} -> [k |-> n.k]
    [] OTHER          -> n
RulesSeen(b) ==
  [e |-> b.err,
   rules |-> IF b.err # "" THEN <<>>
             ELSE [n \in DOMAIN b.rules |-> [parms |-> b.rules[n].parms, node |-> Seen(b.rules[n].node)]]]
TreeResult(u) == RulesSeen(u.built)

\* a tree made by a caller; patterns are given as text
RECURSIVE Made(_)
MadeAll(ns) == [i \in 1..Len(ns) |-> Made(ns[i])]
Made(n) ==
  CASE n.k \in {"rule", "unwrap", "cify"} -> [n EXCEPT !.args = MadeAll(@)]
    [] n.k = "choice" -> [n EXCEPT !.o = MadeAll(@)]
    [] n.k \in {"map", "array", "group", "cin"} -> [n EXCEPT !.m = MadeAll(@)]
    [] n.k = "kv"     -> [n EXCEPT !.key = Made(@), !.val = Made(@)]
    [] n.k = "occ"    -> [n EXCEPT !.x = Made(@)]
    [] n.k = "range"  -> [n EXCEPT !.s = Made(@), !.e = Made(@)]
    [] n.k = "ctl"    -> [n EXCEPT !.x = Made(@), !.arg = Made(@)]
    [] n.k = "re"     -> [k |-> "re", re |-> RegexParse(n.p)]
    [] OTHER          -> n
\* rs: sequence of [name, parms, node]
HandTable(rs) ==
  [n \in {rs[i].name : i \in 1..Len(rs)} |->
     LET r == rs[CHOOSE i \in 1..Len(rs) : rs[i].name = n] IN [parms |-> r.parms, node |-> Made(r.node)]]

\* data as everything to be validated is represented; one NaN stands for all
RECURSIVE OneNaN(_)
OneNaN(v) ==
  CASE v.t = "float" -> IF FNaN(v) THEN [v EXCEPT !.b = <<127, 248, 0, 0, 0, 0, 0, 0>>] ELSE v
    [] v.t = "array" -> [v EXCEPT !.a = [i \in 1..Len(v.a) |-> OneNaN(v.a[i])]]
    [] v.t = "map"   -> [v EXCEPT !.m = [i \in 1..Len(v.m) |-> <<OneNaN(v.m[i][1]), OneNaN(v.m[i][2])>>]]
    [] OTHER         -> v

BuildResult(u) == [e |-> u.built.err, names |-> DOMAIN u.built.rules]

SliceBuildResult(u, s) ==
  [e |-> u.built.err,
   names |-> {<<n, LET r == u.parse.rules[LastOf(u.parse.rules, n)] IN SubSeq(s, r.b, r.e - 1)>> :
                n \in DOMAIN u.built.rules}]

---------------------------------------------------------------------------
(* A caller's own context: layers of rule tables searched in order, some    *)
(* names standing for others, some answered with an error.                  *)

RECURSIVE FirstLayer(_, _, _)
FirstLayer(layers, n, i) ==
  IF i > Len(layers) THEN 0
  ELSE IF n \in DOMAIN layers[i] THEN i ELSE FirstLayer(layers, n, i + 1)

PairMap(ps) == [n \in {ps[i][1] : i \in 1..Len(ps)} |->
                  ps[CHOOSE i \in 1..Len(ps) : ps[i][1] = n][2]]

\* layers: rule tables; rename, errs: functions
Merge(layers, rename, errs) ==
  LET all == UNION {DOMAIN layers[i] : i \in 1..Len(layers)} \cup DOMAIN rename \cup DOMAIN errs
      tgt(n) == IF n \in DOMAIN rename THEN rename[n] ELSE n
  IN  [n \in {x \in all : x \in DOMAIN errs \/ FirstLayer(layers, tgt(x), 1) # 0} |->
         IF n \in DOMAIN errs THEN [err |-> errs[n]]
         ELSE layers[FirstLayer(layers, tgt(n), 1)][tgt(n)]]

RECURSIVE Refs(_), RefsOf(_)
\* names of rules that a node refers to
RefsOf(ns) == UNION {Refs(ns[i]) : i \in 1..Len(ns)}
Refs(n) ==
  CASE n.k \in {"rule", "unwrap", "cify"} -> {n.n} \cup RefsOf(n.args)
    [] n.k = "choice" -> RefsOf(n.o)
    [] n.k \in {"map", "array", "group", "cin"} -> RefsOf(n.m)
    [] n.k = "kv"     -> Refs(n.key) \cup Refs(n.val)
    [] n.k \in {"occ", "cbor"} -> Refs(n.x)
    [] n.k = "range"  -> Refs(n.s) \cup Refs(n.e)
    [] n.k = "ctl"    -> Refs(n.x) \cup Refs(n.arg)
    [] OTHER          -> {}

\* names a context may be asked for; a parameter never
FreeNames(R) == UNION {Refs(R[n].node) \ {R[n].parms[i] : i \in 1..Len(R[n].parms)} : n \in DOMAIN R}

---------------------------------------------------------------------------
(* One call on schema text: the outcome, faults in order of precedence.     *)
OneResult(u, rule, data) ==
  IF u.built.err # "" THEN u.built.err
  ELSE IF rule \notin DOMAIN u.built.rules THEN About("missing", rule)
  ELSE IF data.t = "bad" THEN "value"
  ELSE Validate(u.built.rules, rule, data)

\* validation in a loaded context R
CallResult(R, rule, data) ==
  IF rule \notin DOMAIN R THEN About("missing", rule)
  ELSE IF "err" \in DOMAIN R[rule] THEN OwnErr(R, rule)
  ELSE IF data.t = "bad" THEN "value"
  ELSE Validate(R, rule, data)

---------------------------------------------------------------------------
(* State: what has been understood so far, and the contexts in use.         *)
VARIABLES
  und,     \* text number -> Understand(text), for the texts met so far
  dat,     \* document number -> decoded data
  ctx,     \* context number -> [ok |-> BOOLEAN, R |-> rule table, own |-> caller's own?]
  out      \* result of the last step

svars == <<und, dat, ctx, out>>

NoCtx == [ok |-> FALSE, R |-> <<>>, own |-> FALSE]
CtxOf(h) == IF h \in DOMAIN ctx THEN ctx[h] ELSE NoCtx

Put(h, x) == ctx' = [k \in DOMAIN ctx \cup {h} |-> IF k = h THEN x ELSE ctx[k]]

Keep == UNCHANGED <<und, dat>>

ParseText(t)       == out' = ParseResult(und[t])      /\ Keep /\ UNCHANGED ctx
SliceText(t, s)    == out' = SliceResult(und[t], s)   /\ Keep /\ UNCHANGED ctx
PointText(t)       == out' = PointResult(und[t])      /\ Keep /\ UNCHANGED ctx
TreeOf(t)          == out' = TreeResult(und[t])       /\ Keep /\ UNCHANGED ctx
BuildTrees(rs)     == out' = RulesSeen(Build(rs))     /\ Keep /\ UNCHANGED ctx
Represent(d)       == out' = OneNaN(dat[d])           /\ Keep /\ UNCHANGED ctx
Tell(n, m)          == out' = Told(n, m)               /\ Keep /\ UNCHANGED ctx
\* 9 where there is no data
Order(x, y) == IF x.t = "bad" \/ y.t = "bad" THEN 9 ELSE CmpVal(x, y)
Compare(d, ds)      == out' = [i \in 1..Len(ds) |-> Order(dat[d], dat[ds[i]])] /\ Keep /\ UNCHANGED ctx
UseTrees(R, rule, ds) == out' = [i \in 1..Len(ds) |-> CallResult(R, rule, dat[ds[i]])] /\ Keep /\ UNCHANGED ctx
BuildText(t)       == out' = BuildResult(und[t])      /\ Keep /\ UNCHANGED ctx
SliceBuild(t, s)   == out' = SliceBuildResult(und[t], s) /\ Keep /\ UNCHANGED ctx
ValidateOne(t, rule, d) == out' = OneResult(und[t], rule, dat[d]) /\ Keep /\ UNCHANGED ctx

Load(h, t) ==
  LET b == und[t].built IN
  /\ out' = IF b.err = "" THEN "ok" ELSE b.err
  /\ Put(h, IF b.err = "" THEN [ok |-> TRUE, R |-> b.rules, own |-> FALSE] ELSE NoCtx)
  /\ Keep

\* ts: the layers' texts; the first that does not build is reported
Custom(h, ts, rename, errs) ==
  LET bad == {i \in 1..Len(ts) : und[ts[i]].built.err # ""} IN
  /\ IF bad # {}
     THEN /\ out' = und[ts[CHOOSE i \in bad : \A j \in bad : i <= j]].built.err
          /\ Put(h, NoCtx)
     ELSE /\ out' = "ok"
          /\ Put(h, [ok |-> TRUE, own |-> TRUE,
                     R |-> Merge([i \in 1..Len(ts) |-> und[ts[i]].built.rules], rename, errs)])
  /\ Keep

Call(h, rule, d) ==
  /\ out' = IF CtxOf(h).ok THEN CallResult(ctx[h].R, rule, dat[d]) ELSE "noctx"
  /\ Keep /\ UNCHANGED ctx

\* calls = sequence of [rule, d], made any number of times by any number of threads
Calls(h, cs) ==
  /\ out' = IF CtxOf(h).ok THEN [i \in 1..Len(cs) |-> CallResult(ctx[h].R, cs[i].rule, dat[cs[i].d])]
            ELSE "noctx"
  /\ Keep /\ UNCHANGED ctx
=============================================================================
