--------------------------------- MODULE Str ---------------------------------
(* Making texts: sequences of code points.                                  *)
EXTENDS Integers, Sequences

Printable == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
CodeOf == [ch \in {SubSeq(Printable, i, i) : i \in 1..Len(Printable)} |->
             31 + CHOOSE i \in 1..Len(Printable) : SubSeq(Printable, i, i) = ch]
\* code points of a string of printable ASCII
Cps(s) == [i \in 1..Len(s) |-> CodeOf[SubSeq(s, i, i)]]

J(s) == [k |-> "json", s |-> Cps(s)]
C(b) == [k |-> "cbor", s |-> b]

SeqMap(xs, f(_)) == [i \in 1..Len(xs) |-> f(xs[i])]
\* f(x, y) for all x in xs, y in ys
Cross(xs, ys, f(_, _)) ==
  [i \in 1..(Len(xs) * Len(ys)) |->
     f(xs[((i - 1) \div Len(ys)) + 1], ys[((i - 1) % Len(ys)) + 1])]

\* the n-th word (from 0) of exactly k letters
RECURSIVE LWord(_, _, _)
LWord(al, n, k) == IF k = 0 THEN <<>> ELSE Append(LWord(al, n \div Len(al), k - 1), al[(n % Len(al)) + 1])
RECURSIVE Pow(_, _), Upto(_, _)
Pow(b, k) == IF k = 0 THEN 1 ELSE b * Pow(b, k - 1)
Upto(b, k) == IF k = 0 THEN 1 ELSE Pow(b, k) + Upto(b, k - 1)       \* words of at most k letters
RECURSIVE WordN(_, _, _)
\* the n-th word (from 1) in the list of all words, shortest first
WordN(al, n, k) == IF n <= Pow(Len(al), k) THEN LWord(al, n - 1, k)
                   ELSE WordN(al, n - Pow(Len(al), k), k + 1)
WordOf(al, n) == WordN(al, n, 0)

\* words over an alphabet of sequences, flattened
RECURSIVE Flat(_)
Flat(ws) == IF ws = <<>> THEN <<>> ELSE ws[1] \o Flat(Tail(ws))

RECURSIVE Rep(_, _)
Rep(s, k) == IF k = 0 THEN <<>> ELSE s \o Rep(s, k - 1)

\* the elements with sep between them
RECURSIVE JoinFrom(_, _, _)
JoinFrom(xs, sep, i) == IF i > Len(xs) THEN <<>> ELSE sep \o xs[i] \o JoinFrom(xs, sep, i + 1)
Join(xs, sep) == IF xs = <<>> THEN <<>> ELSE xs[1] \o JoinFrom(xs, sep, 2)

RECURSIVE Num(_)
Num(i) == IF i < 10 THEN <<48 + i>> ELSE Num(i \div 10) \o <<48 + (i % 10)>>
=============================================================================
