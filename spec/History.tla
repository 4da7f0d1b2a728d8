------------------------------- MODULE History -------------------------------
(* Histories of a session: any order of loading texts into contexts,        *)
(* stacking contexts of one's own, and validating in them.  TLC walks       *)
(* through random histories (-simulate), checks that what is answered is    *)
(* determined by the schema, rule and data of the call alone, and prints    *)
(* each history with the results specified, to be replayed in the real      *)
(* code.                                                                     *)
EXTENDS Space

HTexts == << Cps("t = u u = int v = tstr"),
             Cps("t = [* u] u = tstr / v v = nil"),
             Cps("t = g<u> / [t] g<x> = {k: x} / [x, u] u = 1..3 v = {? k: u}"),
             Cps("t = {? a: u, * tstr => v} u = int v = [~w] w = [? u, * tstr]"),
             Cps("u = t / w t = bstr .cbor u w = tstr .size 2 v = ~w"),
             Cps("t = [u"),
             Cps("t = biguint u = int"),
             Cps("v = t / int u = missing t = u"),
             Cps("t = r r = r / u u = &(a: 1, v) v = (2, b: ~t)"),
             Cps("t = tstr .regexp \"^a+$\" / [2*3 (u // nil)] u = true / false v = [+ t]"),
             Cps("u = v v = h<t> h<a> = [? a, ? t] t = w w = int / nil"),
             Cps("t = { (k: u // k: any, z: u), ? a ^ => v } u = tstr v = u a = \"a\"") >>
HDocs == << J("1"), J("2"), J("\"aa\""), J("null"), J("[]"), J("[1]"), J("[\"aa\",null]"), J("{\"k\":1}"),
            J("{\"a\":1,\"b\":[1,\"x\"]}"), C(<<67, 98, 97, 97>>), J("[1"), J("[[[1]]]"), J("[true,null]"), C(<<255>>),
            J("{\"k\":\"a\",\"a\":\"b\"}"), C(<<130, 1, 1>>) >>
HRules == <<"t", "t", "u", "v", "w", "g", "int">>
Renames == << <<>>, <<>>, <<>>, <<<<"u", "v">>>>, <<<<"v", "t">>>>, <<<<"u", "w">>, <<"v", "u">>>>, <<<<"int", "u">>>>, <<<<"x", "u">>>> >>
Errs == << <<>>, <<>>, <<>>, <<>>, <<<<"u", "structural">>>>, <<<<"v", "unsupported">>, <<"w", "missing">>>>, <<<<"int", "value">>>>,
           <<<<"t", "generic">>>>, <<<<"x", "value">>, <<"a", "value">>>> >>
Handles == 1..3
Steps == 14

VARIABLES hist,   \* the events so far, with their results
          made,   \* handle -> the texts its context was made of, first layer first; <<>> if it has no plain meaning as texts
          told
hvars == <<svars, hist, made, told>>

HUnd == [t \in 1..Len(HTexts) |-> Understand(HTexts[t])]
HDat == [d \in 1..Len(HDocs) |-> Decode(HDocs[d])]
\* texts stacked: the rules of the first hide those of the others
Stacked == [p \in (1..Len(HTexts)) \X (1..Len(HTexts)) |->
              IF HUnd[p[1]].built.err = "" /\ HUnd[p[2]].built.err = ""
              THEN Understand(HTexts[p[2]] \o <<10>> \o HTexts[p[1]]) ELSE NoRules]

HInit == /\ und = HUnd /\ dat = HDat /\ ctx = <<>> /\ out = ""
         /\ hist = <<>> /\ made = [h \in Handles |-> <<>>] /\ told = FALSE

Pick(n) == {RandomElement(1..n)}

Note(e) == hist' = Append(hist, [ev |-> e, r |-> out']) /\ UNCHANGED told

FreeOf(h) == IF CtxOf(h).ok /\ CtxOf(h).own
             THEN FreeNames([n \in {m \in DOMAIN ctx[h].R : "err" \notin DOMAIN ctx[h].R[m]} |-> ctx[h].R[n]])
             ELSE {}

\* the first steps make the contexts
New == IF Len(hist) < 3 THEN {Len(hist) + 1} ELSE Pick(3)
HLoad == \E h \in New, t \in Pick(Len(HTexts)) :
           /\ Load(h, t) /\ Note([a |-> "load", h |-> h, t |-> t])
           /\ made' = [made EXCEPT ![h] = IF HUnd[t].built.err = "" THEN <<t>> ELSE <<>>]
HStack == \E h \in New, n \in Pick(3), t1 \in Pick(Len(HTexts)), t2 \in Pick(Len(HTexts)), t3 \in Pick(Len(HTexts)),
             rn \in Pick(Len(Renames)), er \in Pick(Len(Errs)) :
           LET ts == SubSeq(<<t1, t2, t3>>, 1, n) IN
           /\ Custom(h, ts, PairMap(Renames[rn]), PairMap(Errs[er]))
           /\ Note([a |-> "custom", h |-> h, layers |-> ts, rename |-> Renames[rn], errs |-> Errs[er]])
           /\ made' = [made EXCEPT ![h] = IF out' = "ok" /\ n <= 2 /\ Renames[rn] = <<>> /\ Errs[er] = <<>> THEN ts ELSE <<>>]
HCall == \E h \in Pick(3), q \in Pick(Len(HRules)), d \in Pick(Len(HDocs)) :
           /\ Call(h, HRules[q], d)
           /\ Note([a |-> "call", h |-> h, rule |-> HRules[q], d |-> d, free |-> FreeOf(h) \cup {HRules[q]}])
           /\ UNCHANGED made
HOne == \E t \in Pick(Len(HTexts)), q \in Pick(Len(HRules)), d \in Pick(Len(HDocs)) :
           /\ ValidateOne(t, HRules[q], d)
           /\ Note([a |-> "one", t |-> t, rule |-> HRules[q], d |-> d]) /\ UNCHANGED made
HPar(h) == \E q1 \in Pick(4), q2 \in Pick(4), d1 \in Pick(Len(HDocs)), d2 \in Pick(Len(HDocs)), d3 \in Pick(Len(HDocs)) :
           LET cs == <<[rule |-> HRules[q1], d |-> d1], [rule |-> HRules[q2], d |-> d2], [rule |-> HRules[q1], d |-> d3]>> IN
           /\ Calls(h, cs) /\ Note([a |-> "par", h |-> h, calls |-> cs]) /\ UNCHANGED made

More == Len(hist) < Steps
HNext == \/ /\ More
            /\ \E k \in Pick(IF Len(hist) < 3 THEN 8 ELSE 20) :
                 \/ k \in {1, 2, 3, 4} /\ HLoad
                 \/ k \in 5..8 /\ HStack
                 \/ k \in 9..16 /\ HCall
                 \/ k \in 17..18 /\ HOne
                 \/ k \in 19..20 /\ \E h \in Pick(3) : IF CtxOf(h).own THEN HOne ELSE HPar(h)
         \/ /\ ~More /\ ~told /\ told' = TRUE
            /\ PrintT(<<"CASE", ToJson(hist)>>)
            /\ UNCHANGED <<svars, hist, made>>
HSpec == HInit /\ [][HNext]_hvars

---------------------------------------------------------------------------
(* A loaded context answers as its text does, and a stack of two as the     *)
(* text that gives the rules of both; whatever happened before.             *)
LastCall == hist # <<>> /\ hist[Len(hist)].ev.a = "call"
Answer ==
  LastCall => LET e == hist[Len(hist)].ev
                  m == made[e.h]
              IN  CASE Len(m) = 1 -> out = OneResult(HUnd[m[1]], e.rule, HDat[e.d])
                    [] Len(m) = 2 -> out = OneResult(Stacked[<<m[1], m[2]>>], e.rule, HDat[e.d])
                    [] OTHER -> TRUE
\* equal calls of a context that was not made anew in between have equal results
Steady ==
  LastCall => LET n == Len(hist)
                  e == hist[n].ev
              IN  \A i \in 1..(n - 1) :
                    (hist[i].ev.a = "call" /\ hist[i].ev.h = e.h /\ hist[i].ev.rule = e.rule /\ hist[i].ev.d = e.d
                     /\ \A j \in i..n : hist[j].ev.a \in {"load", "custom"} => hist[j].ev.h # e.h)
                    => hist[i].r = hist[n].r
\* a result is one of the documented kinds
KindSet == {"", "ok", "mismatch", "structural", "missing", "unsupported", "value", "generic", "parse", "noctx"}
Documented(o) == o \in KindSet \/ (Naming /\ \E k \in KindSet \ {""} : Len(o) > Len(k) /\ SubSeq(o, 1, Len(k) + 1) = k \o "@")
Kinds == IF hist # <<>> /\ hist[Len(hist)].ev.a = "par" /\ CtxOf(hist[Len(hist)].ev.h).ok
         THEN \A k \in 1..Len(out) : Documented(out[k]) ELSE Documented(out)
ASSUME PrintT(<<"DOCS", ToJson([docs |-> HDocs, texts |-> HTexts])>>)
=============================================================================
