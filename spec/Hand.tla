-------------------------------- MODULE Hand --------------------------------
(* Validation trees and syntax trees made by callers, also ones that no     *)
(* text gives: every kind of node in every position of every other.         *)
EXTENDS Kinds, Flatten, Nodes

(* ---- validation trees --------------------------------------------------- *)

HL(v)       == [k |-> "lit", v |-> v]
HI(n)       == HL(Big(n))
HT(s)       == HL(TextV(Cps(s)))
HP(p)       == [k |-> "prel", p |-> p]
HR(n, args) == [k |-> "rule", n |-> n, args |-> args]
HU(n, args) == [k |-> "unwrap", n |-> n, args |-> args]
HF(n, args) == [k |-> "cify", n |-> n, args |-> args]
HC(o)       == [k |-> "choice", o |-> o]
HM(m)       == [k |-> "map", m |-> m]
HA(m)       == [k |-> "array", m |-> m]
HG(m)       == [k |-> "group", m |-> m]
HN(m)       == [k |-> "cin", m |-> m]
HK(x, y)    == [k |-> "kv", key |-> x, val |-> y, cut |-> FALSE]
HKC(x, y)   == [k |-> "kv", key |-> x, val |-> y, cut |-> TRUE]
HO(lo, hi, x) == [k |-> "occ", lo |-> lo, hi |-> hi, num |-> FALSE, x |-> x]
HON(lo, hi, x) == [k |-> "occ", lo |-> lo, hi |-> hi, num |-> TRUE, x |-> x]
HRg(x, y, i) == [k |-> "range", s |-> x, e |-> y, inc |-> i]
HX(op, x, y) == [k |-> "ctl", op |-> op, x |-> x, arg |-> y]
HRe(s)      == [k |-> "re", p |-> Cps(s)]
HB(n)       == [k |-> "cbor", x |-> [k |-> "rule", n |-> n, args |-> <<>>]]

HAny  == HP("any")
HRest == HO(0, HMany, HK(HAny, HAny))
D25   == <<64, 4, 0, 0, 0, 0, 0, 0>>          \* 2.5

HNodes == <<
  HI(1), HI(-2), HT("a"), HL(BytesV(<<1>>)), HL(FloatV(D25)), HL(BoolV(TRUE)),
  HP("any"), HP("nil"), HP("bool"), HP("int"), HP("uint"), HP("nint"), HP("float"), HP("tstr"), HP("bstr"),
  HR("r", <<>>), HR("g", <<HP("int")>>), HR("g", <<>>), HR("nowhere", <<>>), HR("grp", <<>>), HR("kv", <<>>), HR("occ", <<>>), HR("many", <<>>), HR("one", <<>>),
  HU("u", <<>>), HU("m", <<>>), HU("r", <<>>), HU("g", <<HA(<<HP("int")>>)>>), HF("n", <<>>), HF("r", <<>>), HF("gn", <<HI(1)>>),
  HC(<<>>), HC(<<HI(1), HT("a")>>), HC(<<HKC(HT("a"), HI(1)), HK(HAny, HAny)>>), HC(<<HG(<<HI(1)>>), HA(<<>>)>>),
  HM(<<>>), HM(<<HK(HT("a"), HP("int"))>>), HM(<<HRest>>), HA(<<>>), HA(<<HP("int")>>), HA(<<HO(0, HMany, HAny)>>),
  HG(<<>>), HG(<<HP("int")>>), HG(<<HP("int"), HP("tstr")>>), HG(<<HK(HT("a"), HP("int"))>>),
  HK(HT("a"), HP("int")), HKC(HT("a"), HP("int")), HK(HP("int"), HAny), HK(HK(HAny, HAny), HAny),
  HO(0, 1, HP("int")), HO(0, HMany, HP("tstr")), HO(1, HMany, HK(HAny, HP("int"))), HON(2, 1, HAny), HON(1, 2, HP("int")), HON(0, 1, HK(HT("a"), HAny)), HON(0, HMany, HP("int")),
  HRg(HI(1), HI(3), TRUE), HRg(HR("one", <<>>), HP("int"), TRUE), HRg(HL(FloatV(D25)), HL(FloatV(D25)), TRUE), HRg(HL(BoolV(TRUE)), HL(BoolV(TRUE)), TRUE), HRg(HL(BytesV(<<1>>)), HI(3), FALSE),
  HX("size", HP("tstr"), HI(1)), HX("size", HP("any"), HI(1)), HX("size", HR("r", <<>>), HI(1)), HX("size", HP("bstr"), HRg(HI(1), HI(3), FALSE)), HX("size", HP("uint"), HM(<<>>)), HX("size", HP("uint"), HI(-2)),
  HX("lt", HP("int"), HI(3)), HX("ge", HP("float"), HI(1)), HX("le", HI(1), HI(1)), HX("gt", HP("nint"), HP("nint")),
  HRe("^a"), HB("r"), HB("nowhere"),
  HN(<<>>), HN(<<HI(1), HK(HT("a"), HT("a"))>>), HN(<<HR("n", <<>>)>>), HN(<<HO(0, 1, HI(1))>>) >>

\* rules for them all
HDefs == <<
  [name |-> "r", parms |-> <<>>, node |-> HC(<<HP("int"), HP("tstr")>>)],
  [name |-> "g", parms |-> <<"x">>, node |-> HC(<<HR("x", <<>>), HA(<<HR("x", <<>>)>>)>>)],
  [name |-> "gn", parms |-> <<"x">>, node |-> HG(<<HR("x", <<>>), HK(HT("b"), HT("a"))>>)],
  [name |-> "grp", parms |-> <<>>, node |-> HG(<<HP("int"), HP("tstr")>>)],
  [name |-> "kv", parms |-> <<>>, node |-> HKC(HT("a"), HP("int"))],
  [name |-> "occ", parms |-> <<>>, node |-> HO(0, 1, HP("int"))],
  [name |-> "many", parms |-> <<>>, node |-> HON(2, 3, HK(HAny, HAny))],
  [name |-> "one", parms |-> <<>>, node |-> HI(1)],
  [name |-> "u", parms |-> <<>>, node |-> HA(<<HP("int")>>)],
  [name |-> "m", parms |-> <<>>, node |-> HM(<<HK(HT("a"), HP("int"))>>)],
  [name |-> "n", parms |-> <<>>, node |-> HG(<<HK(HT("a"), HI(1)), HK(HT("b"), HT("a"))>>)] >>

HPositions == 61
HPos(p, x, y) ==
  CASE p = 1 -> x [] p = 2 -> HC(<<x, y>>) [] p = 3 -> HC(<<x>>) [] p = 4 -> HA(<<x>>) [] p = 5 -> HA(<<x, y>>)
    [] p = 6 -> HA(<<HO(0, 1, x), y>>) [] p = 7 -> HA(<<HO(0, HMany, x), HO(0, 1, y)>>) [] p = 8 -> HA(<<HO(1, HMany, x), HO(0, HMany, y)>>)
    [] p = 9 -> HA(<<HC(<<x, y>>)>>) [] p = 10 -> HA(<<HO(0, HMany, HC(<<x, y>>))>>) [] p = 11 -> HA(<<HG(<<x, y>>)>>) [] p = 12 -> HA(<<HO(0, HMany, HG(<<x, y>>)), HAny>>)
    [] p = 13 -> HA(<<HK(x, y)>>) [] p = 14 -> HA(<<HKC(y, x)>>) [] p = 15 -> HA(<<HO(0, 1, HO(1, HMany, x)), y>>) [] p = 16 -> HA(<<HON(1, 2, x), y>>)
    [] p = 17 -> HA(<<HN(<<x, y>>)>>) [] p = 18 -> HA(<<HC(<<HG(<<x, y>>), x>>)>>) [] p = 19 -> HA(<<HA(<<x>>), y>>) [] p = 20 -> HA(<<HC(<<>>), x>>)
    [] p = 21 -> HM(<<x>>) [] p = 22 -> HM(<<x, y>>) [] p = 23 -> HM(<<HK(x, y)>>) [] p = 24 -> HM(<<HO(0, 1, HKC(x, y)), HRest>>)
    [] p = 25 -> HM(<<HO(0, HMany, x)>>) [] p = 26 -> HM(<<HO(0, HMany, HC(<<x, y>>)), HRest>>) [] p = 27 -> HM(<<HC(<<x, y>>)>>)
    [] p = 28 -> HM(<<HG(<<x, y>>)>>) [] p = 29 -> HM(<<HO(0, 1, HG(<<x, y>>)), HRest>>) [] p = 30 -> HM(<<HN(<<x, y>>)>>) [] p = 31 -> HM(<<HO(0, 1, HN(<<x, y>>)), HRest>>)
    [] p = 32 -> HM(<<HKC(x, HAny), HO(0, HMany, HK(y, HAny))>>) [] p = 33 -> HM(<<HON(1, 2, HK(x, HAny)), HO(0, HMany, y)>>) [] p = 34 -> HM(<<HC(<<HG(<<x, y>>), HRest>>)>>)
    [] p = 35 -> HM(<<HC(<<HKC(x, y), HRest>>)>>) [] p = 36 -> HM(<<HO(0, 1, HO(1, HMany, HK(x, y))), HRest>>) [] p = 37 -> HM(<<HK(HC(<<x, y>>), HAny)>>)
    [] p = 38 -> HG(<<x>>) [] p = 39 -> HG(<<x, y>>) [] p = 40 -> HN(<<x, y>>) [] p = 41 -> HN(<<HK(x, y), x>>)
    [] p = 42 -> HRg(x, y, TRUE) [] p = 43 -> HRg(y, HI(3), FALSE)
    [] p = 44 -> HX("size", x, y) [] p = 45 -> HX("lt", x, y) [] p = 46 -> HX("ge", x, y) [] p = 47 -> HX("le", HP("int"), x) [] p = 48 -> HX("gt", y, HI(1))
    [] p = 49 -> HX("size", HP("uint"), HRg(x, y, TRUE)) [] p = 50 -> HR("g", <<x>>) [] p = 51 -> HU("g", <<x>>) [] p = 52 -> HF("gn", <<x>>)
    [] p = 53 -> HA(<<HU("z", <<>>), HO(0, HMany, y)>>) [] p = 54 -> HM(<<HU("z", <<>>), HO(0, HMany, y)>>) [] p = 55 -> HF("z", <<>>)
    [] p = 56 -> HM(<<HF("z", <<>>), HO(0, HMany, y)>>) [] p = 57 -> HA(<<HF("z", <<>>), HO(0, HMany, y)>>) [] p = 58 -> HA(<<HR("z", <<>>), y>>)
    [] p = 59 -> HM(<<HR("z", <<>>), HO(0, 1, HK(HAny, y))>>) [] p = 60 -> HK(x, y) [] p = 61 -> HO(0, 1, x)

HandPoint(a, b, c) ==
  <<[name |-> "t", parms |-> <<>>, node |-> HPos(a, HNodes[b], HNodes[c])],
    [name |-> "z", parms |-> <<>>, node |-> HNodes[b]]>> \o HDefs

\* Every node in every part of the ones that look at what they are given,
\* bare and inside what may seem to change nothing.
HWraps == 16
HWrap(w, x) ==
  CASE w = 1 -> x [] w = 2 -> HC(<<x>>) [] w = 3 -> HC(<<x, x>>) [] w = 4 -> HG(<<x>>) [] w = 5 -> HG(<<x, x>>)
    [] w = 6 -> HK(HT("a"), x) [] w = 7 -> HKC(x, HAny) [] w = 8 -> HO(0, 1, x) [] w = 9 -> HON(1, 1, x) [] w = 10 -> HA(<<x>>)
    [] w = 11 -> HM(<<x>>) [] w = 12 -> HN(<<x>>) [] w = 13 -> HC(<<HG(<<x>>)>>) [] w = 14 -> HR("z", <<>>)
    [] w = 15 -> HR("id", <<x>>) [] w = 16 -> HC(<<HC(<<>>), x>>)
HRoles == 34
HRole(p, v) ==
  CASE p = 1 -> HX("lt", v, HI(3)) [] p = 2 -> HX("lt", HP("int"), v) [] p = 3 -> HX("le", v, HI(1)) [] p = 4 -> HX("le", HP("uint"), v)
    [] p = 5 -> HX("gt", v, HI(0)) [] p = 6 -> HX("gt", HP("nint"), v) [] p = 7 -> HX("ge", v, HI(1)) [] p = 8 -> HX("ge", HP("int"), v)
    [] p = 9 -> HX("size", v, HI(1)) [] p = 10 -> HX("size", HP("tstr"), v) [] p = 11 -> HX("size", HP("uint"), v) [] p = 12 -> HX("size", HP("bstr"), HRg(HI(0), v, TRUE))
    [] p = 13 -> HX("size", HP("tstr"), HRg(v, HI(9), FALSE)) [] p = 14 -> HX("size", v, HRg(HI(1), HI(2), TRUE))
    [] p = 15 -> HRg(v, HI(9), TRUE) [] p = 16 -> HRg(HI(-5), v, FALSE) [] p = 17 -> HRg(HL(FloatV(D25)), v, TRUE) [] p = 18 -> HRg(v, v, TRUE)
    [] p = 19 -> HA(<<HU("w", <<>>), HO(0, 1, HAny)>>) [] p = 20 -> HM(<<HU("w", <<>>), HRest>>) [] p = 21 -> HF("w", <<>>) [] p = 22 -> HU("w", <<>>)
    [] p = 23 -> HM(<<HF("w", <<>>), HRest>>) [] p = 24 -> HN(<<HR("w", <<>>)>>) [] p = 25 -> HM(<<HN(<<v>>), HRest>>)
    [] p = 26 -> HA(<<HO(0, HMany, v)>>) [] p = 27 -> HA(<<HON(1, 2, v), HO(0, 1, HAny)>>) [] p = 28 -> HM(<<HO(0, HMany, v), HRest>>) [] p = 29 -> HM(<<HON(1, 2, v), HRest>>)
    [] p = 30 -> HM(<<HK(v, HAny), HRest>>) [] p = 31 -> HM(<<HKC(v, HP("int")), HRest>>) [] p = 32 -> HA(<<HR("w", <<>>), HO(0, 1, HAny)>>) [] p = 33 -> HA(<<v, HI(1)>>)
    [] p = 34 -> HB("w")
HandWrapPoint(a, b, c) ==
  LET v == HWrap(b, HNodes[c])
  IN <<[name |-> "t", parms |-> <<>>, node |-> HRole(a, v)],
       [name |-> "w", parms |-> <<>>, node |-> v],
       [name |-> "z", parms |-> <<>>, node |-> HNodes[c]],
       [name |-> "id", parms |-> <<"x">>, node |-> HR("x", <<>>)]>> \o HDefs

\* nodes to be compared with each other: the ones above and some that differ from them in one thing
NMore == <<
  HI(2), HI(-1), HI(0), HL(BigOf(FALSE, U64Max)), HL(BigOf(FALSE, <<1, 0, 0, 0, 0, 0, 0, 0, 0>>)), HL(BigOf(TRUE, <<1, 0, 0, 0, 0, 0, 0, 0, 0>>)), HL(BigOf(FALSE, <<127, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255>>)),
  HT(""), HT("1"), HT("A"), HT("a\"b"), HL(TextV(<<233, 128512, 10>>)), HL(BytesV(<<>>)), HL(BytesV(<<97>>)), HL(BoolV(FALSE)),
  HL(FloatV(<<0, 0, 0, 0, 0, 0, 0, 0>>)), HL(FloatV(<<128, 0, 0, 0, 0, 0, 0, 0>>)), HL(FloatV(<<63, 240, 0, 0, 0, 0, 0, 0>>)), HL(FloatV(<<127, 248, 0, 0, 0, 0, 0, 0>>)), HL(FloatV(InfMag)),
  HR("R", <<>>), HR("", <<>>), HR("g", <<HP("uint")>>), HR("g", <<HP("int"), HP("int")>>), HR("g", <<HL(FloatV(<<127, 248, 0, 0, 0, 0, 0, 0>>))>>), HU("g", <<>>), HU("g", <<HP("int")>>), HU("int", <<>>), HF("g", <<HP("int")>>), HF("gn", <<HI(2)>>),
  HC(<<HI(1)>>), HC(<<HT("a"), HI(1)>>), HC(<<HI(1), HT("a"), HI(1)>>), HC(<<HC(<<>>)>>), HM(<<HK(HT("a"), HP("uint"))>>), HM(<<HKC(HT("a"), HP("int"))>>), HM(<<HK(HT("a"), HP("int")), HK(HT("a"), HP("int"))>>),
  HA(<<HP("uint")>>), HA(<<HP("int"), HP("int")>>), HG(<<HP("tstr"), HP("int")>>), HG(<<HG(<<HP("int")>>)>>), HN(<<HI(1)>>), HN(<<HI(1), HKC(HT("a"), HT("a"))>>),
  HK(HT("a"), HP("uint")), HK(HT("b"), HP("int")), HK(HK(HT("a"), HI(1)), HK(HI(2), HM(<<>>))), HK(HL(FloatV(D25)), HI(1)), HKC(HI(1), HL(BytesV(<<1>>))),
  HO(0, HMany, HP("int")), HO(1, HMany, HP("int")), HO(0, 1, HP("uint")), HON(0, 1, HP("int")), HON(1, HMany, HP("int")), HON(1, 1, HP("int")), HON(0, 0, HP("int")), HON(2, HMany, HK(HT("a"), HI(1))),
  HON(10, 999999999, HP("int")), HON(256, 65536, HP("int")), HON(HMany, 0, HI(1)), HON(HMany, HMany, HI(1)), HO(0, 1, HO(0, 1, HP("int"))),
  HRg(HI(1), HI(3), FALSE), HRg(HI(1), HI(4), TRUE), HRg(HI(-1), HI(3), TRUE), HRg(HI(1), HI(-3), TRUE), HRg(HI(3), HI(1), TRUE), HRg(HI(0), HL(BigOf(FALSE, U64Max)), FALSE), HRg(HI(0), HL(BigOf(FALSE, <<1, 0, 0, 0, 0, 0, 0, 0, 0>>)), TRUE),
  HRg(HL(BigOf(FALSE, <<1, 0, 0, 0, 0, 0, 0, 0, 0>>)), HI(1), TRUE), HRg(HI(1), HT("a"), TRUE), HRg(HT("a"), HI(1), TRUE), HRg(HR("one", <<>>), HR("one", <<>>), FALSE), HRg(HL(FloatV(D25)), HI(3), TRUE), HRg(HRg(HI(1), HI(2), TRUE), HI(3), TRUE),
  HX("size", HP("tstr"), HI(2)), HX("size", HP("bstr"), HI(1)), HX("size", HP("bstr"), HRg(HI(1), HI(3), TRUE)), HX("lt", HP("int"), HI(1)), HX("le", HP("int"), HI(3)), HX("gt", HP("int"), HI(3)), HX("ge", HP("int"), HI(3)), HX("lt", HP("uint"), HI(3)),
  HRe("a"), HRe("A"), HRe("a "), HRe("aa"), HRe("(a)"), HRe("\\w"), HRe("\\W"), HRe("b"), HRe(""), HRe("^a$"), HT("a "), HT("aa"), HB("one") >>
NNodes == HNodes \o NMore

(* ---- syntax trees ------------------------------------------------------- *)

AV(v)       == [k |-> "val", v |-> v]
AI(n)       == AV(Big(n))
AIn(n)      == [k |-> "val", v |-> Big(n), nint |-> TRUE]      \* a negative-integer token whatever its sign
AT(s)       == AV(TextV(Cps(s)))
AN(n, args) == [k |-> "name", n |-> n, args |-> args]
AS(x)       == [k |-> "simple", x |-> x]
ARg(s, e, i) == [k |-> "range", s |-> s, e |-> e, inc |-> i]
AX(op, x, y) == [k |-> "ctl", op |-> op, x |-> x, arg |-> y]
APn(t)      == [k |-> "paren", t |-> t]
AM(g)       == [k |-> "map", g |-> g]
AAr(g)      == [k |-> "array", g |-> g]
AU(n, args) == [k |-> "unwrap", n |-> n, args |-> args]
ACi(g)      == [k |-> "cin", g |-> g]
ACf(n, args) == [k |-> "cify", n |-> n, args |-> args]
AOne         == [k |-> "one"]
ANoKey       == [k |-> "none"]
AE(t)       == [occ |-> AOne, k |-> "member", key |-> ANoKey, v |-> t]
AEo(o, t)   == [occ |-> o, k |-> "member", key |-> ANoKey, v |-> t]
AEk(key, t) == [occ |-> AOne, k |-> "member", key |-> key, v |-> t]
AEn(n)      == [occ |-> AOne, k |-> "name", n |-> n]
AEg(o, g)   == [occ |-> o, k |-> "paren", g |-> g]
KT1(t, cut) == [k |-> "t1", x |-> t, cut |-> cut]
KB(s, cut)  == [k |-> "bare", c |-> Cps(s), cut |-> cut]
KV(v, cut)  == [k |-> "val", v |-> v, cut |-> cut]
ANum(lo, hi) == [k |-> "num", lo |-> NatMag(lo), hi |-> NatMag(hi)]
ANumOpen(lo) == [k |-> "num", lo |-> NatMag(lo), hi |-> <<-1>>]

AInt == AN("int", <<>>)
NoType == APn(<<>>)                                  \* an error of its own kind wherever it is reached

ATypes == <<
  AI(1), AI(-2), AIn(3), AIn(0), AT("a"), AT(""), AV(BytesV(<<1, 255>>)), AV(FloatV(D25)), AV(BigOf(FALSE, U64Max)), AV(BigOf(TRUE, I63)),
  AN("int", <<>>), AN("tstr", <<>>), AN("bstr", <<>>), AN("true", <<>>), AN("time", <<>>), AN("undefined", <<>>), AN("float32-64", <<>>), AN("int", <<AS(AInt)>>), AN("false", <<AS(AI(1))>>), AN("time", <<AS(AI(1))>>),
  AN("r", <<>>), AN("r", <<AS(AInt), AS(AT("a"))>>), AN("r", <<AS(AN("bigint", <<>>))>>), AN("r", <<AX("lt", AInt, AI(3))>>), AN("r", <<ARg(AI(1), AT("a"), FALSE)>>),
  AN("", <<>>), AN("not a name", <<>>), AN("Int", <<>>),
  NoType, APn(<<AS(AInt)>>), APn(<<AS(AInt), AS(AT("a"))>>), APn(<<AS(APn(<<AS(AInt)>>))>>), APn(<<AX("size", AN("uint", <<>>), AI(1))>>), APn(<<ARg(AI(1), AI(3), TRUE)>>),
  AM(<<>>), AM(<< <<>> >>), AM(<< <<>>, <<>> >>), AM(<< <<AEk(KB("a", TRUE), <<AS(AInt)>>)>> >>), AAr(<<>>), AAr(<< <<>> >>), AAr(<< <<AE(<<AS(AInt)>>)>> >>), AAr(<< <<AE(<<AS(AInt)>>)>>, <<AEn("x")>> >>),
  AU("u", <<>>), AU("u", <<AS(AInt)>>), AU("int", <<>>), AU("time", <<>>), AU("u", <<AS(NoType)>>), ACf("n", <<>>), ACf("n", <<AS(AInt)>>), ACf("bool", <<>>), ACf("number", <<>>),
  ACi(<<>>), ACi(<< <<AEk(KB("a", TRUE), <<AS(AI(1))>>), AE(<<AS(AT("b"))>>)>> >>), ACi(<< <<AEn("x")>>, <<AEn("time")>> >>) >>

AOccs == <<AOne, [k |-> "opt"], [k |-> "star"], [k |-> "plus"], ANum(0, 0), ANum(2, 1), ANum(1, 3), ANumOpen(0), ANumOpen(5), ANum(0, 1)>>

APositions == 56
TRule(t) == [name |-> "t", parms |-> <<>>, k |-> "type", v |-> t]
GRule(e) == [name |-> "t", parms |-> <<>>, k |-> "group", v |-> e]
ATy(x)    == TRule(<<AS(x)>>)
\* x, y: types; the position may vary with how they are occurring
APos(p, x, y) ==
  CASE p = 1 -> <<ATy(x)>> [] p = 2 -> <<TRule(<<AS(x), AS(y)>>)>> [] p = 3 -> <<TRule(<<AS(y), AS(x), AS(y)>>)>> [] p = 4 -> <<TRule(<<>>), ATy(x)>>
    [] p = 5 -> <<TRule(<<ARg(x, y, TRUE)>>)>> [] p = 6 -> <<TRule(<<ARg(x, y, FALSE), AS(x)>>)>> [] p = 7 -> <<TRule(<<AX("size", x, y)>>)>>
    [] p = 8 -> <<TRule(<<AX("lt", x, y)>>)>> [] p = 9 -> <<TRule(<<AX("le", y, x)>>)>> [] p = 10 -> <<TRule(<<AX("gt", x, y)>>)>> [] p = 11 -> <<TRule(<<AX("ge", y, x)>>)>>
    [] p = 12 -> <<TRule(<<AX("regexp", x, y)>>)>> [] p = 13 -> <<TRule(<<AX("cbor", x, y)>>)>> [] p = 14 -> <<TRule(<<AX("cbor", AN("bytes", <<>>), y)>>)>>
    [] p = 15 -> <<TRule(<<AX("", x, y)>>)>> [] p = 16 -> <<TRule(<<AX("SIZE", x, y)>>)>> [] p = 17 -> <<TRule(<<AX("cborseq", x, y)>>)>> [] p = 18 -> <<TRule(<<AX("regexp", AN("text", <<>>), x)>>)>>
    [] p = 19 -> <<ATy(AN("g", <<AS(x), AS(y)>>))>> [] p = 20 -> <<ATy(AN("g", <<AX("lt", x, AI(1)), ARg(y, AI(1), TRUE)>>))>> [] p = 21 -> <<ATy(AU("g", <<AS(x), AS(y)>>))>>
    [] p = 22 -> <<ATy(ACf("g", <<AS(x), AS(y)>>))>> [] p = 23 -> <<ATy(AN("uint", <<AS(x), AS(y)>>))>> [] p = 24 -> <<ATy(AN("integer", <<AS(x)>>)), ATy(y)>>
    [] p = 25 -> <<ATy(AAr(<< <<AE(<<AS(x)>>), AE(<<AS(y)>>)>> >>))>> [] p = 26 -> <<ATy(AAr(<< <<AE(<<AS(x)>>)>>, <<AE(<<AS(y)>>)>> >>))>>
    [] p = 27 -> <<ATy(AAr(<< <<AE(<<AS(x), AS(y)>>)>>, <<>> >>))>> [] p = 28 -> <<ATy(AAr(<< <<AEg(AOne, << <<AE(<<AS(x)>>)>>, <<AE(<<AS(y)>>)>> >>)>> >>))>>
    [] p = 29 -> <<ATy(AAr(<< <<AEg([k |-> "star"], << <<AE(<<AS(x)>>), AE(<<AS(y)>>)>> >>)>> >>))>> [] p = 30 -> <<ATy(AAr(<< <<AEg([k |-> "opt"], <<>>), AE(<<AS(x)>>)>> >>))>>
    [] p = 31 -> <<ATy(AM(<< <<AEk(KT1(AS(x), FALSE), <<AS(y)>>)>> >>))>> [] p = 32 -> <<ATy(AM(<< <<AEk(KT1(AS(x), TRUE), <<AS(y)>>)>> >>))>>
    [] p = 33 -> <<ATy(AM(<< <<AEk(KT1(ARg(x, y, TRUE), FALSE), <<AS(x)>>)>> >>))>> [] p = 34 -> <<ATy(AM(<< <<AEk(KT1(AX("size", x, y), TRUE), <<AS(y)>>)>> >>))>>
    [] p = 35 -> <<ATy(AM(<< <<AEk(KB("a", TRUE), <<AS(x)>>), AEk(KB("not a name", FALSE), <<AS(y)>>)>> >>))>>
    [] p = 36 -> <<ATy(AM(<< <<AEk(IF x.k = "val" THEN KV(x.v, TRUE) ELSE KB("", TRUE), <<AS(y)>>)>> >>))>>
    [] p = 37 -> <<ATy(AM(<< <<AEk(KB("a", TRUE), <<>>)>>, <<AE(<<AS(x)>>), AE(<<AS(y)>>)>> >>))>>
    [] p = 38 -> <<ATy(AM(<< <<AEk(KB("a", TRUE), <<AS(x), AS(y)>>)>>, <<AEg(AOne, << <<AE(<<AS(y)>>)>> >>)>> >>))>>
    [] p = 39 -> <<ATy(ACi(<< <<AEk(KB("a", TRUE), <<AS(x)>>), AE(<<AS(y)>>)>> >>))>> [] p = 40 -> <<ATy(ACi(<< <<AE(<<AS(x)>>)>>, <<AE(<<AS(y)>>)>> >>))>>
    [] p = 41 -> <<ATy(APn(<<AS(x), AS(APn(<<AS(y)>>))>>))>> [] p = 42 -> <<GRule(AE(<<AS(x), AS(y)>>))>> [] p = 43 -> <<GRule(AEg(AOne, << <<AE(<<AS(x)>>), AE(<<AS(y)>>)>> >>))>>
    [] p = 44 -> <<GRule(AEg([k |-> "plus"], << <<AE(<<AS(x)>>)>>, <<AE(<<AS(y)>>)>> >>))>> [] p = 45 -> <<GRule(AEk(KT1(AS(x), FALSE), <<AS(y)>>))>>
    [] p = 46 -> <<GRule(AEn(IF x.k = "name" THEN x.n ELSE "nint")), [ATy(y) EXCEPT !.name = "s"]>> [] p = 47 -> <<ATy(x), [ATy(y) EXCEPT !.name = "s"]>>
    [] p = 48 -> <<ATy(x), ATy(y)>> [] p = 49 -> <<[ATy(x) EXCEPT !.parms = <<"a", "b">>], [ATy(y) EXCEPT !.parms = <<"a", "a">>, !.name = "int"]>>
    [] p = 50 -> <<[ATy(x) EXCEPT !.name = ""], [ATy(y) EXCEPT !.name = "s s"]>> [] p = 51 -> <<ATy(x), GRule(AE(<<AS(y)>>)), [ATy(AI(1)) EXCEPT !.name = "s"]>>
    [] p = 52 -> <<>> [] p = 53 -> <<ATy(AAr(<< <<AEk(KV(FloatV(D25), TRUE), <<AS(x)>>), AEk(KV(BytesV(<<>>), FALSE), <<AS(y)>>)>> >>))>>
    [] p = 54 -> <<TRule(<<AX("size", x, APn(<<ARg(y, AI(3), FALSE)>>))>>)>>
    [] p = 55 -> <<ATy(AAr(<< [i \in 1..Len(AOccs) |-> AEo(AOccs[i], <<AS(IF i % 2 = 1 THEN x ELSE y)>>)] >>))>>
    [] p = 56 -> <<ATy(AM(<< [i \in 1..Len(AOccs) |-> [AEn(IF y.k = "name" THEN y.n ELSE "any") EXCEPT !.occ = AOccs[i]]], <<AEg(ANum(2, 1), << <<AE(<<AS(x)>>)>> >>)>> >>))>>
=============================================================================
