--------------------------------- MODULE Near ---------------------------------
(* One edit away from good schemas.                                         *)
EXTENDS Str

(* ---- characters: texts to parse ------------------------------------------ *)

NearT == <<
  Cps("t = int"), Cps("t = a / b a = 1..2 b = \"x\""), Cps("t = [int, ? tstr, * any]"), Cps("t = {a: 1, \"b\" => tstr}"),
  Cps("t = {a ^ => int, * tstr => any}"), Cps("t = [a // b, c] ; d"), Cps("t<x, y> = [x, * y]"), Cps("t = g<int, [a]> g<x,y> = x"),
  Cps("t = (a: int, b)"), Cps("t = &(a: 1, b: 2) / &g"), Cps("t = [~u, 2*3 v]"), Cps("t = tstr .size (1..3)"),
  Cps("t = bstr .cbor [* a<b>]"), Cps("t = 1.5e3 / -0x1F / 0b11"), Cps("t = h'0a 1F' / b64'QQ=='"), Cps("t = 'a\\'b' / \"c\\n\\u0041\""),
  Cps("a-b.c@$_ = d") \o <<10>> \o Cps("; e f") \o <<10, 9>> \o Cps("g = h"), Cps("t = [(int // tstr), (a: (b / c))]"), Cps("t = {(1..2) => int, 1: a, (\"k\") ^ => b}"),
  Cps("t = [3 int] / [3* int]"), Cps("t={*a=>b,+c:d,?e f}"), Cps("t = uint .lt 5 u = float ... 1.0"), Cps("t = ((a)) / [[b]] / {c: {d: e}}"),
  Cps("t = [a: b, 1*c d, *3e]") >>
\* what may be put in at a place, or in place of a character
NearIns == << <<32>>, <<10>>, <<9>>, <<13>>, <<13, 10>>, <<11>>, <<12>>, <<160>>, <<65279>>, <<0>>, <<8232>>, <<133>>, Cps(";"), Cps(";") \o <<10>>, Cps(","), Cps("/"),
              Cps("="), Cps("-"), Cps("."), Cps("("), Cps(")"), Cps("["), Cps("]"), Cps("{"), Cps("}"), Cps("<"), Cps(">"), Cps("*"), Cps("?"), Cps("+"), Cps(":"),
              Cps("^"), Cps("&"), Cps("~"), Cps("0"), Cps("1"), Cps("a"), Cps("e"), Cps("x"), <<34>>, <<39>>, Cps("\\"), Cps("@"), Cps("$"), Cps("_"), Cps("#"), Cps("|"),
              <<233>>, <<128512>>, Cps("=>"), Cps("//"), Cps(".."), Cps(" .size "), Cps("h'"), Cps("b64'") >>
NearPlace == 52
\* way 1: take out; 2: swap with the next; 3..: put in; then: put in instead
NearWays == 2 + 2 * Len(NearIns)
Near(a, p0, w) ==
  LET x == NearT[a]
      p == 1 + ((p0 - 1) % Len(x))
      pre == SubSeq(x, 1, p - 1)
      post == SubSeq(x, p + 1, Len(x))
  IN  CASE w = 1 -> pre \o post
        [] w = 2 -> IF post = <<>> THEN x \o x ELSE pre \o <<post[1], x[p]>> \o Tail(post)
        [] w \in 3..2 + Len(NearIns) -> pre \o NearIns[w - 2] \o <<x[p]>> \o post
        [] OTHER -> pre \o NearIns[w - 2 - Len(NearIns)] \o post

(* ---- tokens: schemas to validate with -------------------------------------- *)

\* a schema, its tokens separated by spaces, and documents
NearV == <<
  [s |-> "t = [ int , ? tstr , * ( int , tstr ) , any ]",
   d |-> << J("[1,\"a\",2]"), J("[1,2,\"b\",3]"), J("[1,\"a\",1,\"b\",1]"), J("[1]"), J("[]"), J("[\"a\"]"), J("[1,\"a\",1,\"b\"]"),
            J("[1,1,\"a\",1,\"a\",null]"), J("[1,1,1]"), J("[\"a\",1,\"a\"]") >>],
  [s |-> "t = [ ( int // tstr , int ) , + ( int / nil ) ]",
   d |-> << J("[1,1]"), J("[\"a\",1,1]"), J("[\"a\",1]"), J("[1]"), J("[1,null,2,null]"), J("[\"a\",1,null,\"a\"]"), J("[null]"), J("[]"), J("[1,\"a\"]") >>],
  [s |-> "t = [ 2*3 g , ? ( tstr , g ) ] g = ( int , ? nil )",
   d |-> << J("[1,1]"), J("[1,null,1]"), J("[1,1,1,\"a\",1]"), J("[1,1,null,\"a\",1,null]"), J("[1]"), J("[1,1,1,1]"), J("[1,1,\"a\"]"), J("[null,1,1]"), J("[]"), J("[1,1,1,null]") >>],
  [s |-> "t = { a : int , ? b : tstr , * tstr => nil }",
   d |-> << J("{\"a\":1}"), J("{\"a\":1,\"b\":\"x\"}"), J("{\"a\":1,\"b\":null}"), J("{\"a\":1,\"c\":null,\"d\":null}"), J("{}"), J("{\"b\":\"x\"}"),
            J("{\"a\":\"x\"}"), J("{\"a\":1,\"c\":1}"), J("{\"a\":null}") >>],
  [s |-> "t = { ? a : int , g } g = ( b : tstr // c : int , ? d : any )",
   d |-> << J("{\"a\":1,\"b\":\"x\"}"), J("{\"c\":1}"), J("{\"c\":1,\"d\":1}"), J("{\"a\":1,\"c\":1,\"d\":null}"), J("{\"b\":1,\"c\":1}"), J("{\"a\":1}"), J("{}"),
            J("{\"b\":\"x\",\"d\":1}"), J("{\"b\":\"x\",\"c\":1}"), J("{\"a\":\"x\",\"b\":\"x\"}") >>],
  [s |-> "t = { ( a : int // a : tstr , b : int ) , * tstr => any }",
   d |-> << J("{\"a\":1}"), J("{\"a\":\"x\",\"b\":1}"), J("{\"a\":\"x\"}"), J("{\"a\":\"x\",\"b\":\"x\"}"), J("{\"a\":null}"), J("{}"), J("{\"a\":1,\"b\":\"x\",\"c\":1}"), J("{\"b\":1}") >>],
  [s |-> "t = { ? \"a\" => int , ? \"a\" ^ => tstr , + tstr => any }",
   d |-> << J("{\"a\":1}"), J("{\"a\":\"x\"}"), J("{\"a\":null}"), J("{\"a\":null,\"b\":1}"), J("{\"b\":1}"), J("{}"), J("{\"a\":\"x\",\"b\":1}"), J("{\"a\":1,\"b\":1}") >>],
  [s |-> "t = { 1*2 tstr => int , ~ u } u = { ? z : nil }",
   d |-> << J("{\"a\":1}"), J("{\"a\":1,\"b\":2}"), J("{\"a\":1,\"b\":2,\"c\":3}"), J("{\"a\":1,\"z\":null}"), J("{\"z\":null}"), J("{\"z\":1}"), J("{\"a\":1,\"z\":\"x\"}"), J("{}"),
            J("{\"a\":1,\"b\":1,\"z\":1}") >>],
  [s |-> "t = [ ~ u , ~ v ] u = [ * int ] v = [ tstr , w ] w = ( int , int )",
   d |-> << J("[\"a\",1,1]"), J("[1,1,\"a\",1,1]"), J("[1,\"a\",1]"), J("[1]"), J("[]"), J("[\"a\"]"), J("[[1],\"a\",1,1]"), J("[\"a\",1,1,1]"), J("[[1],[\"a\",1,1]]") >>],
  [s |-> "t = p < int , [ tstr ] > p < x , y > = [ x , * y ] / { k : x }",
   d |-> << J("[1]"), J("[1,[\"a\"]]"), J("[1,[\"a\"],[\"b\"]]"), J("{\"k\":1}"), J("{\"k\":[\"a\"]}"), J("[[\"a\"]]"), J("[1,1]"), J("[]"), J("[\"a\"]"), J("1") >>],
  [s |-> "t = q < q < int > > q < x > = [ x , ? r < x > ] r < y > = { k : y } / y",
   d |-> << J("[[1]]"), J("[[1],[1]]"), J("[[1],{\"k\":[1]}]"), J("[[1,1]]"), J("[[1,{\"k\":1}]]"), J("[1]"), J("[1,1]"), J("1"), J("[[1,1],[1,{\"k\":1}]]"), J("[]"), J("[[[1]]]") >>],
  [s |-> "t = a / b / nil a = [ b , * a ] b = int / tstr",
   d |-> << J("1"), J("\"a\""), J("null"), J("[1]"), J("[1,[\"a\"]]"), J("[\"a\",[1,[1]],[1]]"), J("[]"), J("[[1]]"), J("[1,1]"), J("{}"), J("[1,[[1]]]") >>],
  [s |-> "t = &( a : 1 , b : \"x\" , c : [ int ] ) / & g g = ( d : nil , e : 5 )",
   d |-> << J("1"), J("\"x\""), J("[1]"), J("null"), J("5"), J("2"), J("[]"), J("{\"a\":1}"), J("\"a\"") >>],
  [s |-> "t = [ &( a : int , b : tstr ) , * & g ] g = ( x : 1 , 2 )",
   d |-> << J("[1]"), J("[\"a\"]"), J("[1,1,2,1]"), J("[]"), J("[1,3]"), J("[null]"), J("[\"a\",2,2]"), J("[1,\"a\"]") >>],
  [s |-> "t = 1 .. 5 / -3 ... lo / 0.5 .. 1.5 lo = 0",
   d |-> << J("1"), J("5"), J("0"), J("6"), J("-3"), J("-1"), J("-4"), J("0.5"), J("1.5"), J("1.0"), J("1.6"), J("\"a\"") >>],
  [s |-> "t = uint .size 1 / tstr .size ( 1 .. 3 ) / [ bstr .size n ] n = 2",
   d |-> << J("0"), J("255"), J("256"), J("-1"), J("\"\""), J("\"a\""), J("\"abc\""), J("\"abcd\""), C(<<129, 66, 1, 2>>), C(<<129, 65, 1>>), C(<<66, 1, 2>>), J("[]"), J("1.5"), J("5") >>],
  [s |-> "t = int .ge lo / nint .lt -5 / float lo = 10",
   d |-> << J("10"), J("9"), J("11"), J("-5"), J("-6"), J("-4"), J("1.5"), J("\"a\""), J("0") >>],
  [s |-> "t = tstr .regexp \"^[a-c]+$\" / [ * tstr .regexp \"x\" ]",
   d |-> << J("\"a\""), J("\"abc\""), J("\"abd\""), J("\"\""), J("[]"), J("[\"x\",\"axa\"]"), J("[\"x\",\"a\"]"), J("1"), J("\"x\"") >>],
  [s |-> "t = ( bstr .cbor [ int , ? tstr ] ) / { * bstr .cbor int => any }",
   d |-> << C(<<66, 129, 1>>), C(<<68, 130, 1, 97, 97>>), C(<<66, 129, 96>>), C(<<65, 1>>), C(<<65, 255>>), C(<<160>>), C(<<161, 65, 1, 2>>), C(<<161, 65, 96, 2>>),
            C(<<161, 65, 255, 2>>), J("1"), C(<<129, 1>>) >>],
  [s |-> "t = { * int => tstr , * tstr => int , ? true => any }",
   d |-> << C(<<160>>), C(<<161, 1, 97, 97>>), C(<<162, 1, 97, 97, 97, 97, 1>>), C(<<161, 245, 1>>), C(<<161, 244, 1>>), C(<<161, 1, 1>>), C(<<163, 1, 96, 2, 96, 245, 246>>),
            J("{\"a\":1}"), J("{\"a\":\"x\"}"), C(<<161, 249, 60, 0, 96>>) >>],
  [s |-> "t = [ name : tstr , ? age : uint , * extra ] extra = ( k : tstr , v : any )",
   d |-> << J("[\"a\"]"), J("[\"a\",1]"), J("[\"a\",1,\"k\",null]"), J("[\"a\",\"k\",1,\"k\",2]"), J("[]"), J("[1]"), J("[\"a\",-1]"), J("[\"a\",1,\"k\"]"), J("{\"name\":\"a\"}") >>],
  [s |-> "t = person / [ + person ] person = { name : tstr , ? tags : [ * tstr ] , * tstr => int / nil }",
   d |-> << J("{\"name\":\"a\"}"), J("{\"name\":\"a\",\"tags\":[\"x\"],\"z\":1}"), J("[{\"name\":\"a\"},{\"name\":\"b\",\"y\":null}]"), J("[]"), J("{\"name\":1}"),
            J("{\"tags\":[]}"), J("{\"name\":\"a\",\"tags\":1}"), J("{\"name\":\"a\",\"z\":\"x\"}"), J("[{\"name\":\"a\"},1]") >>],
  [s |-> "t = msg msg = [ 0 , req ] / [ 1 , ? resp ] req = { id : uint , ? body : any } resp = nil / { err : tstr // ok : any }",
   d |-> << J("[0,{\"id\":1}]"), J("[0,{\"id\":1,\"body\":[]}]"), J("[1]"), J("[1,null]"), J("[1,{\"ok\":1}]"), J("[1,{\"err\":\"x\"}]"), J("[1,{\"err\":1}]"), J("[0]"), J("[2]"),
            J("[1,{\"err\":1,\"ok\":1}]"), J("[0,{\"id\":-1}]") >>] >>
VTok == << "?", "*", "+", "2*3", "0*0", "*1", "2*", ",", "//", "/", "(", ")", "[", "]", "{", "}", "int", "tstr", "any", "nil", "1", "\"a\"", "t", "u", "k :", "\"k\" =>",
           "tstr =>", "^", ":", "=>", "~", "&", "..", ".size", "<", ">", "b =", "u = [ int ]" >>
RECURSIVE Words(_, _, _)
Words(s, cur, acc) == IF s = <<>> THEN Append(acc, cur)
                      ELSE IF s[1] = 32 THEN Words(Tail(s), <<>>, Append(acc, cur)) ELSE Words(Tail(s), Append(cur, s[1]), acc)
\* way 1: take out; 2: swap with the next; 3: twice; 4..: put in; then: put in instead
VWays == 3 + 2 * Len(VTok)
NearVal(a, p0, w) ==
  LET x == Words(Cps(NearV[a].s), <<>>, <<>>)
      p == 1 + ((p0 - 1) % Len(x))
      pre == SubSeq(x, 1, p - 1)
      post == SubSeq(x, p + 1, Len(x))
      y == CASE w = 1 -> pre \o post
             [] w = 2 -> IF post = <<>> THEN x ELSE pre \o <<post[1], x[p]>> \o Tail(post)
             [] w = 3 -> pre \o <<x[p], x[p]>> \o post
             [] w \in 4..3 + Len(VTok) -> pre \o <<Cps(VTok[w - 3]), x[p]>> \o post
             [] OTHER -> pre \o <<Cps(VTok[w - 3 - Len(VTok)])>> \o post
  IN  [x |-> Join(y, <<32>>), d |-> NearV[a].d]
=============================================================================
