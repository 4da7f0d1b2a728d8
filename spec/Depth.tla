--------------------------------- MODULE Depth --------------------------------
(* Nests too deep to be evaluated by the semantics here: two frames put     *)
(* around each other again and again, as brackets in brackets, as rules     *)
(* referring to rules, as generic rules handing their argument on, as rules *)
(* in a circle.  In the middle is a type; what is validated is data of the  *)
(* same nesting with a leaf that this type accepts or does not.  What the   *)
(* whole accepts is what the middle accepts: Enum asserts that the          *)
(* semantics says so for small depths.  Every frame has one hole, and a     *)
(* visit of the frame is one visit of what is in the hole, but for visits   *)
(* with nothing left to match, so that validation takes at most             *)
(* quadratically many steps in the depth; code that visits what is in the   *)
(* hole twice takes 2^depth.                                                *)
EXTENDS Wide

\* a frame: text before and after the hole, what it does to data
Fr(a, b, d) == [a |-> a, b |-> b, d |-> d]
Around(d, x) ==
  CASE d = "self"  -> x
    [] d = "arr"   -> <<129>> \o x
    [] d = "arrb"  -> <<130, 244>> \o x
    [] d = "barr"  -> <<130>> \o x \o <<244>>
    [] d = "map"   -> <<161, 97, 97>> \o x
    [] d = "map2"  -> <<162, 97, 97>> \o x \o <<97, 98, 97, 122>>
    [] d = "key2"  -> <<162>> \o x \o <<1, 97, 122, 1>>
    [] d = "key"   -> <<161>> \o x \o <<1>>
    [] d = "bytes" -> WHead(2, Len(x)) \o x

DVal == << Fr("(", ")", "self"), Fr("[", "]", "arr"), Fr("[* ", "]", "arr"), Fr("[+ ", "]", "arr"), Fr("[? ", "]", "arr"), Fr("[1*1 (", ")]", "arr"),
           Fr("[(", ")]", "arr"), Fr("[? (", ")]", "arr"), Fr("[* (k: ", ")]", "arr"), Fr("[", " // bool]", "arr"), Fr("[bool // ", "]", "arr"), Fr("[* bool, ", "]", "arrb"),
           Fr("[? (bool, ", ")]", "arrb"), Fr("[", ", * bool]", "barr"), Fr("{a: ", "}", "map"), Fr("{\"a\" => ", "}", "map"), Fr("{? a: ", "}", "map"), Fr("{? \"a\" => ", "}", "map"),
           Fr("{* tstr => ", "}", "map"), Fr("{* tstr => ", ", * tstr => \"z\"}", "map2"), Fr("{* tstr => (", " / \"z\")}", "map2"), Fr("{* (tstr => (", " / \"z\"))}", "map2"), Fr("{* k<", ">}", "map2"), Fr("{+ tstr => (\"z\" / ", ")}", "map2"),
           Fr("{* (", " / \"z\") => int}", "key2"), Fr("{* (\"z\" / ", ") ^ => int}", "key2"), Fr("{* tstr => \"z\", * tstr => ", "}", "map2"), Fr("{? b: tstr, * tstr => ", "}", "map2"), Fr("{(a: ", ")}", "map"), Fr("{? (a: ", ")}", "map"), Fr("{* (\"a\" => ", ")}", "map"),
           Fr("{a: ", " // b: bool}", "map"), Fr("{b: bool // a: ", "}", "map"), Fr("{", " => int}", "key"), Fr("{* ", " => int}", "key"), Fr("{? ", " ^ => int}", "key"),
           Fr("(", " / nil)", "self"), Fr("(nil / ", ")", "self"), Fr("([bool] / {* tstr => bool} / ", ")", "self"), Fr("&(k: ", ")", "self"), Fr("&(bool, k: ", ")", "self"),
           Fr("(bstr .cbor ", ")", "bytes"), Fr("g<", ">", "arr"), Fr("w<", ">", "self"), Fr("h<", ">", "map"), Fr("v<", ", bool>", "arr"), Fr("v<bool, ", ">", "self") >>
DArr == << Fr("(", ")", ""), Fr("? (", ")", ""), Fr("* (", ")", ""), Fr("+ (", ")", ""), Fr("1*2 (", ")", ""), Fr("(", " // bool)", ""), Fr("(bool // ", ")", ""), Fr("(", ", ? bool)", ""),
           Fr("(? bool, ", ")", ""), Fr("(* bool, ", ", * bool)", ""), Fr("(k: bool // k: nil, bool // ", ")", ""), Fr("1*1 (", ")", "") >>
DMap == << Fr("(", ")", ""), Fr("? (", ")", ""), Fr("* (", ")", ""), Fr("+ (", ")", ""), Fr("1*2 (", ")", ""), Fr("(", " // b: bool)", ""), Fr("(b: bool // ", ")", ""), Fr("(", ", ? b: bool)", ""),
           Fr("(? b: bool, ", ")", ""), Fr("(* int => bool, ", ")", ""), Fr("1*1 (", ")", "") >>
\* names of arrays and maps, unwrapped
DUnA == << Fr("[~", "]", ""), Fr("[? ~", "]", ""), Fr("[* ~", "]", ""), Fr("[~", " // bool]", ""), Fr("[bool // ~", "]", ""), Fr("[~", ", ? bool]", ""), Fr("[? bool, (~", ")]", "") >>
DUnM == << Fr("{~", "}", ""), Fr("{? ~", "}", ""), Fr("{* ~", "}", ""), Fr("{~", " // b: bool}", ""), Fr("{b: bool // ~", "}", ""), Fr("{~", ", ? b: bool}", ""), Fr("{? b: bool, (~", ")}", "") >>
DpDefs == " g<x> = [x] w<x> = x h<x> = {? a: x} v<x, y> = [x] / y k<x> = (tstr => x / \"z\")"

DClass == <<DVal, DArr, DMap, DUnA, DUnM>>
DSize(c) == Len(DClass[c]) * Len(DClass[c])
DPairs == DSize(1) + DSize(2) + DSize(3) + DSize(4) + DSize(5)
RECURSIVE DAt(_, _)
\* <<class, frame, frame>> of the i-th pair
DAt(c, i) == IF i > DSize(c) THEN DAt(c + 1, i - DSize(c)) ELSE <<c, 1 + ((i - 1) \div Len(DClass[c])), 1 + ((i - 1) % Len(DClass[c]))>>

DDepths == <<1, 2, 3, 23>>
DChecked(c) == DDepths[c] < 4
\* for brackets in brackets, more is possible
DInline == 44

Deeply(a, mode, c) ==
  LET at == DAt(1, a)
      cl == at[1]
      f == DClass[cl][at[2]]
      g == DClass[cl][at[3]]
      flat == mode = 1 /\ cl < 4
      \* rules that refer to each other in a circle, for types that take one level of data off
      circle == mode = 4 /\ cl = 1 /\ "self" \notin {f.d, g.d}
      n == IF flat /\ ~DChecked(c) THEN DInline ELSE DDepths[c]
      leaf == IF mode = 3 THEN "x" ELSE "int"
      core == CASE cl = 1 -> leaf [] cl = 2 -> leaf [] cl = 3 -> "a: " \o leaf [] cl = 4 -> "[" \o leaf \o "]" [] cl = 5 -> "{a: " \o leaf \o "}"
      grp(s) == IF cl \in {2, 3} THEN <<40>> \o s \o <<41>> ELSE s
      fill(fr, s) == Cps(fr.a) \o s \o Cps(fr.b)
      name(i) == Cps("r") \o Num(i) \o (IF mode = 3 THEN Cps("<x>") ELSE <<>>)
      frm(i) == IF i % 2 = 1 THEN f ELSE g
      mid == IF flat THEN Rep(Cps(f.a \o g.a), n) \o Cps(core) \o Rep(Cps(g.b \o f.b), n)
             ELSE Cps("r1") \o (IF mode = 3 THEN Cps("<int>") ELSE <<>>)
      rules == IF flat THEN <<>>
               ELSE IF circle THEN Cps(" r1 = int / ") \o fill(f, Cps("r2")) \o Cps(" r2 = int / ") \o fill(g, Cps("r1"))
               ELSE Flat([i \in 1..2 * n |-> <<32>> \o name(i) \o Cps(" = ") \o grp(fill(frm(i), name(i + 1)))])
                    \o <<32>> \o name(2 * n + 1) \o Cps(" = ") \o grp(Cps(core))
      top == CASE cl = 2 -> <<91>> \o mid \o <<93>> [] cl = 3 -> <<123>> \o mid \o <<125>> [] OTHER -> mid
      RECURSIVE data(_, _)
      data(k, x) == IF k = 0 THEN x ELSE data(k - 1, Around(f.d, Around(g.d, x)))
      doc(x) == CASE cl = 1 -> data(n, x) [] cl \in {2, 4} -> <<129>> \o x [] cl \in {3, 5} -> <<161, 97, 97>> \o x
  IN  Both(P(Cps("t = ") \o top \o rules \o Cps(DpDefs)),
           <<Dc(P(doc(<<1>>)), Y), Dc(P(doc(<<97, 98>>)), N), Dc(P(doc(<<249, 60, 0>>)), N)>>)
===============================================================================
