------------------------------ MODULE Flatten ------------------------------
(* From the syntax tree of a schema to the validation tree, with the faults *)
(* that make a schema unusable as a whole.                                  *)
(*                                                                          *)
(* Syntax trees (as produced by Parser, or read from a trace):              *)
(*  rule   [name, parms, k |-> "type", v |-> type]                          *)
(*         [name, parms, k |-> "group", v |-> grpent]                       *)
(*  type   sequence of type1                                                *)
(*  type1  [k |-> "simple", x] [k |-> "range", s, e, inc]                   *)
(*         [k |-> "ctl", x, op, arg]                                        *)
(*  type2  [k |-> "val", v] [k |-> "name", n, args] [k |-> "paren", t]      *)
(*         [k |-> "map", g] [k |-> "array", g] [k |-> "unwrap", n, args]     *)
(*         [k |-> "cin", g] [k |-> "cify", n, args]                         *)
(*  group  sequence of sequences of grpent                                  *)
(*  grpent [occ, k |-> "member", key, v] [occ, k |-> "name", n]             *)
(*         [occ, k |-> "paren", g]                                          *)
(*  key    [k |-> "none"] [k |-> "t1", x, cut] [k |-> "bare", c, cut]       *)
(*         [k |-> "val", v, cut]                                            *)
(*  occ    [k |-> "one"|"opt"|"star"|"plus"] [k |-> "num", lo, hi]           *)
(*         with lo, hi magnitudes (hi = <<-1>> when absent)                 *)
(*                                                                          *)
(* Validation tree nodes:                                                   *)
(*  lit v | prel p | choice o | map m | array m | group m | cin m |          *)
(*  rule n args | unwrap n args | cify n args | kv key val cut |             *)
(*  occ lo hi x | range s e inc | ctl op x arg | re re | cbor x |            *)
(*  err e  (the schema is unusable; e is the kind of error)                  *)
EXTENDS Data, Regex

Inf == 1000000000

Err(e)   == [k |-> "err", e |-> e]
IsErr(n) == n.k = "err"
Prel(p)  == [k |-> "prel", p |-> p]
Lit(v)   == [k |-> "lit", v |-> v]

UnsupportedPrelude ==
  {"time", "bigint", "integer", "unsigned", "number", "decfrac", "bigfloat", "undefined"}

PreludeTable ==
  [ any |-> Prel("any"), nil |-> Prel("nil"), null |-> Prel("nil"), bool |-> Prel("bool"),
    false |-> Lit(BoolV(FALSE)), true |-> Lit(BoolV(TRUE)),
    int |-> Prel("int"), uint |-> Prel("uint"), nint |-> Prel("nint"), float |-> Prel("float"),
    tstr |-> Prel("tstr"), text |-> Prel("tstr"), bstr |-> Prel("bstr"), bytes |-> Prel("bstr"),
    float16 |-> Prel("float"), float32 |-> Prel("float"), float64 |-> Prel("float"),
    tdate |-> Prel("tstr"), uri |-> Prel("tstr"), b64url |-> Prel("tstr"),
    b64legacy |-> Prel("tstr"), regexp |-> Prel("tstr"),
    biguint |-> Prel("bstr"), bignint |-> Prel("bstr"),
    eb64url |-> Prel("any"), eb64legacy |-> Prel("any"), eb16 |-> Prel("any") ]

\* prelude names that are not TLA+ identifiers
PreludeDash(n) ==
  IF n \in {"float16-32", "float32-64"} THEN Prel("float")
  ELSE IF n = "mime-message" THEN Prel("tstr")
  ELSE IF n = "encoded-cbor" THEN Prel("bstr")
  ELSE Prel("any")                                    \* cbor-any
PreludeDashNames == {"float16-32", "float32-64", "mime-message", "encoded-cbor", "cbor-any"}

PreludeNames == DOMAIN PreludeTable \cup PreludeDashNames \cup UnsupportedPrelude

NameNode(n) ==
  IF n \in DOMAIN PreludeTable THEN PreludeTable[n]
  ELSE IF n \in PreludeDashNames THEN PreludeDash(n)
  ELSE IF n \in UnsupportedPrelude THEN Err("unsupported")
  ELSE [k |-> "rule", n |-> n, args |-> <<>>]

RECURSIVE FirstErr(_, _)
\* index of the first error in a sequence of nodes from i on, or 0
FirstErr(ns, i) == IF i > Len(ns) THEN 0 ELSE IF IsErr(ns[i]) THEN i ELSE FirstErr(ns, i + 1)

\* collect nodes: the first error wins, otherwise mk(nodes)
Collect(ns, mk(_)) == LET i == FirstErr(ns, 1) IN IF i # 0 THEN ns[i] ELSE mk(ns)

OccLo(o) == CASE o.k = "opt" -> 0 [] o.k = "star" -> 0 [] o.k = "plus" -> 1
              [] o.k = "num" -> MagNat(o.lo, Inf)
OccHi(o) == CASE o.k = "opt" -> 1 [] o.k = "star" -> Inf [] o.k = "plus" -> Inf
              [] o.k = "num" -> IF o.hi = <<-1>> THEN Inf ELSE MagNat(o.hi, Inf)

RECURSIVE FType(_), FType1(_), FType2(_), FName(_, _), FRef(_, _, _), FGroup(_, _),
          FEntry(_), FKey(_), FCtl(_), FPoint(_)

FType(t) == IF Len(t) = 1 THEN FType1(t[1])
            ELSE IF t = <<>> THEN Err("unsupported")        \* no text gives this
            ELSE Collect([i \in 1..Len(t) |-> FType1(t[i])],
                         LAMBDA ns : [k |-> "choice", o |-> ns])

FType1(t) ==
  CASE t.k = "simple" -> FType2(t.x)
    [] t.k = "ctl"    -> FCtl(t)
    [] t.k = "range"  ->
         LET s == FPoint(t.s) IN
         IF IsErr(s) THEN s
         ELSE LET e == FPoint(t.e) IN
              IF IsErr(e) THEN e ELSE [k |-> "range", s |-> s, e |-> e, inc |-> t.inc]

\* an endpoint is a literal or a name that is not a prelude type
FPoint(x) ==
  IF x.k = "val" THEN Lit(x.v)
  ELSE IF x.k = "name"
       THEN LET n == FName(x.n, x.args) IN
            IF IsErr(n) \/ n.k \in {"rule", "lit"} THEN n ELSE Err("structural")
       ELSE Err("structural")

FType2(x) ==
  CASE x.k = "val"    -> Lit(x.v)
    [] x.k = "name"   -> FName(x.n, x.args)
    [] x.k = "paren"  -> FType(x.t)
    [] x.k = "map"    -> FGroup(x.g, "map")
    [] x.k = "array"  -> FGroup(x.g, "array")
    [] x.k = "cin"    -> FGroup(x.g, "cin")
    [] x.k = "unwrap" -> FRef(x.n, x.args, "unwrap")
    [] x.k = "cify"   -> FRef(x.n, x.args, "cify")

FName(n, args) ==
  LET node == NameNode(n) IN
  IF IsErr(node) THEN node
  ELSE IF node.k = "rule"
       THEN Collect([i \in 1..Len(args) |-> FType1(args[i])],
                    LAMBDA ns : [k |-> "rule", n |-> n, args |-> ns])
       ELSE IF args # <<>> THEN Err("generic") ELSE node

\* ~name and &name need a rule name; anything else is a generic error
FRef(n, args, kind) ==
  LET node == FName(n, args) IN
  IF node.k = "rule" THEN [k |-> kind, n |-> node.n, args |-> node.args] ELSE Err("generic")

FEntries(c) == Collect([i \in 1..Len(c) |-> FEntry(c[i])], LAMBDA ns : [k |-> "group", m |-> ns])

FGroup(g, kind) ==
  IF Len(g) = 1
  THEN Collect([i \in 1..Len(g[1]) |-> FEntry(g[1][i])], LAMBDA ns : [k |-> kind, m |-> ns])
  ELSE Collect([i \in 1..Len(g) |-> FEntries(g[i])],
               LAMBDA ns : [k |-> kind, m |-> << [k |-> "choice", o |-> ns] >>])

FEntry(e) ==
  LET x == CASE e.k = "name"   -> NameNode(e.n)
             [] e.k = "paren"  -> FGroup(e.g, "group")
             [] e.k = "member" ->
                  IF e.key.k = "none" THEN FType(e.v)
                  ELSE LET key == FKey(e.key) IN
                       IF IsErr(key) THEN key
                       ELSE LET val == FType(e.v) IN
                            IF IsErr(val) THEN val
                            ELSE [k |-> "kv", key |-> key, val |-> val, cut |-> e.key.cut]
  IN  IF IsErr(x) \/ e.occ.k = "one" THEN x
      ELSE [k |-> "occ", lo |-> OccLo(e.occ), hi |-> OccHi(e.occ), x |-> x]

FKey(key) == CASE key.k = "bare" -> Lit(TextV(key.c))
               [] key.k = "val"  -> Lit(key.v)
               [] key.k = "t1"   -> FType1(key.x)

IsIntLit(n) == n.k = "lit" /\ n.v.t = "int"

FCtl(t) ==
  IF t.op \notin {"size", "lt", "le", "gt", "ge", "regexp", "cbor"} THEN Err("unsupported")
  ELSE
  LET x == FType2(t.x) IN
  IF IsErr(x) THEN x
  ELSE
  LET arg == FType2(t.arg) IN
  IF IsErr(arg) THEN arg
  ELSE
  CASE t.op = "regexp" ->
         IF x # Prel("tstr") THEN Err("structural")
         ELSE IF ~(arg.k = "lit" /\ arg.v.t = "text") THEN Err("structural")
         ELSE LET re == RegexParse(arg.v.c) IN
              IF re.k = "bad" THEN Err("structural") ELSE [k |-> "re", re |-> re]
    [] t.op = "cbor" ->
         IF x # Prel("bstr") THEN Err("structural") ELSE [k |-> "cbor", x |-> arg]
    [] OTHER ->
         IF IsIntLit(arg) \/ arg.k = "rule" \/ (t.op = "size" /\ arg.k = "range")
         THEN [k |-> "ctl", op |-> t.op, x |-> x, arg |-> arg]
         ELSE Err("unsupported")

FRule(r) == IF r.k = "type" THEN FType(r.v) ELSE FEntry(r.v)

---------------------------------------------------------------------------
(* A schema is a sequence of rules.  The built form is                      *)
(*   [err |-> kind of the first error, or "",                               *)
(*    rules |-> function from name to [parms, node]]; of several rules with *)
(* the same name the last counts.                                           *)

RuleNames(rs) == {rs[i].name : i \in 1..Len(rs)}
LastOf(rs, n) == CHOOSE i \in 1..Len(rs) :
                    rs[i].name = n /\ \A j \in i+1..Len(rs) : rs[j].name # n

Build(rs) ==
  LET ns == [i \in 1..Len(rs) |-> FRule(rs[i])]
      e  == FirstErr(ns, 1)
  IN  IF e # 0 THEN [err |-> ns[e].e, rules |-> <<>>]
      ELSE [err |-> "",
            rules |-> [n \in RuleNames(rs) |->
                         LET i == LastOf(rs, n) IN [parms |-> rs[i].parms, node |-> ns[i]]]]
=============================================================================
