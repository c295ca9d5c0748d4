-------------------------------- MODULE Text --------------------------------
(* Helpers on strings: comparison, spaces, formatting, numbers, hash.        *)
(* There is no state: each call is judged alone.                             *)
EXTENDS Num, Murmur

RECURSIVE Common(_, _)
Common(a, b) == IF a = "" \/ b = "" \/ Ch(a, 1) # Ch(b, 1) THEN 0 ELSE 1 + Common(From(a, 2), From(b, 2))

\* formatting: a list of pieces [k, w, p, s, n] (width, precision, text, number)
RECURSIVE Fill(_)
Fill(n) == IF n <= 0 THEN "" ELSE " " \o Fill(n - 1)
Pad(s, w) == IF w < 0 THEN s \o Fill(0 - w - Len(s)) ELSE Fill(w - Len(s)) \o s
Piece(x) ==
  CASE x.k = "t" -> x.s                                                    \* plain text
    [] x.k = "s" -> Pad(IF x.p >= 0 THEN SubSeq(x.s, 1, Min2(x.p, Len(x.s))) ELSE x.s, x.w)
    [] x.k = "d" -> Pad(ToString(x.n), x.w)
RECURSIVE Format(_)
Format(l) == IF l = <<>> THEN "" ELSE Piece(Head(l)) \o Format(Tail(l))

\* a number as it is printed in base 10: no sign if positive, no leading zero
RECURSIVE Limbs(_)
Pad4(n) == (IF n < 1000 THEN "0" ELSE "") \o (IF n < 100 THEN "0" ELSE "") \o (IF n < 10 THEN "0" ELSE "") \o ToString(n)
Limbs(m) == IF m = <<>> THEN "" ELSE Limbs(Tail(m)) \o (IF Len(m) = 1 THEN ToString(Head(m)) ELSE Pad4(Head(m)))
Show(v) == IF v.mag = <<>> THEN "0" ELSE (IF v.neg THEN "-" ELSE "") \o Limbs(v.mag)

BaseOk(b) == b = 0 \/ b \in 2..36
Call(q) ==
  CASE q.op = "cnt" -> [r |-> Common(q.a, q.b)]
    [] q.op = "sw"  -> [r |-> IF StartsWith(q.a, q.b) THEN 1 ELSE 0]
    [] q.op = "sp"  -> [r |-> IF \A i \in 1..Len(q.a) : Ch(q.a, i) \in Spaces THEN 1 ELSE 0]
    [] q.op = "ll"  -> IF BaseOk(q.base) /\ IntMatch(q.a, q.min, q.max, q.base) THEN [r |-> 0, v |-> Show(ReadNum(q.a, q.base).v)] ELSE [r |-> -1, v |-> ""]
    [] q.op = "ul"  -> IF BaseOk(q.base) /\ UintMatch(q.a, q.min, q.max, q.base) THEN [r |-> 0, v |-> Show(ReadNum(q.a, q.base).v)] ELSE [r |-> -1, v |-> ""]
    [] q.op = "fmt" -> [r |-> Len(Format(q.l)), v |-> Format(q.l)]
    [] q.op = "hash" -> [r |-> Murmur3(q.l, q.seed)]

TBegin(r) == 0
TStep(st, q, obs) == st
TAccept(st, q, obs) ==
  LET c == Call(q) IN
  IF q.op = "fmt" /\ obs.f > 0 THEN obs.r = -1 /\ obs.null = 1          \* no memory
  ELSE /\ obs.r = c.r
       /\ q.op \in {"ll", "ul", "fmt"} => obs.v = c.v
       /\ q.op \in {"ll", "ul"} => (IF c.r = 0 THEN obs.kept = 1 ELSE obs.e = 1)
TExpected(st, q, obs) == Call(q)
=============================================================================
