-------------------------------- MODULE Cond --------------------------------
(* Conditions of "cond" nodes, evaluated on a partially built parse tree.    *)
(* A condition is written: word, integer, or word(arg, ...) where each       *)
(* argument is itself a condition; its syntax tree is [o, s, a]: "w" (word), *)
(* "z" (integer) or "f" (call of function s).                                *)
(* Values: [y |-> "set", p] a set of tree positions (paths from the root),   *)
(* [y |-> "bool", b], [y |-> "int", z] (a magnitude of Num), [y |-> "str",   *)
(* s], [y |-> "err"].                                                        *)
EXTENDS Chars, Num

IdentStart(c) == DigitVal(c) \in 10..35 \/ c = "_"
IdentChar(c) == IdentStart(c) \/ DigitVal(c) < 10 \/ c = "."
RECURSIVE IdentEnd(_, _), IntEnd(_, _)
IdentEnd(s, i) == IF i <= Len(s) /\ IdentChar(Ch(s, i)) THEN IdentEnd(s, i + 1) ELSE i
IntEnd(s, i) == IF i <= Len(s) /\ DigitVal(Ch(s, i)) < 10 THEN IntEnd(s, i + 1) ELSE i

\* tokens [y, s]: y is "w", "z", or the symbol itself
RECURSIVE CondToks(_, _, _)
CondToks(s, i, out) ==
  IF i > Len(s) THEN [ok |-> TRUE, t |-> out]
  ELSE LET c == Ch(s, i) IN
       IF IdentStart(c) THEN
         LET e == IdentEnd(s, i) IN CondToks(s, e, Append(out, [y |-> "w", s |-> SubSeq(s, i, e - 1)]))
       ELSE IF DigitVal(c) < 10 THEN
         LET e == IntEnd(s, i) IN CondToks(s, e, Append(out, [y |-> "z", s |-> SubSeq(s, i, e - 1)]))
       ELSE IF c \in {"(", ")", ","} THEN CondToks(s, i + 1, Append(out, [y |-> c, s |-> c]))
       ELSE IF c \in {" ", "\t"} THEN CondToks(s, i + 1, out)
       ELSE [ok |-> FALSE, t |-> <<>>]

CFail == [ok |-> FALSE, i |-> 0, a |-> <<>>]
IsTok(t, i, y) == i <= Len(t) /\ t[i].y = y
RECURSIVE CArg(_, _), CArgs(_, _, _)
CArg(t, i) ==
  IF IsTok(t, i, "w") /\ IsTok(t, i + 1, "(") THEN
    IF IsTok(t, i + 2, ")") THEN [ok |-> TRUE, i |-> i + 3, a |-> [o |-> "f", s |-> t[i].s, a |-> <<>>]]
    ELSE LET r == CArgs(t, i + 2, <<>>)
         IN IF ~r.ok THEN CFail
            ELSE [ok |-> TRUE, i |-> r.i, a |-> [o |-> "f", s |-> t[i].s, a |-> r.a]]
  ELSE IF IsTok(t, i, "w") \/ IsTok(t, i, "z")
  THEN [ok |-> TRUE, i |-> i + 1, a |-> [o |-> t[i].y, s |-> t[i].s, a |-> <<>>]]
  ELSE CFail
CArgs(t, i, acc) ==
  LET r == CArg(t, i)
  IN IF ~r.ok THEN CFail
     ELSE IF IsTok(t, r.i, ",") THEN CArgs(t, r.i + 1, Append(acc, r.a))
     ELSE IF IsTok(t, r.i, ")") THEN [ok |-> TRUE, i |-> r.i + 1, a |-> Append(acc, r.a)]
     ELSE CFail

CondParse(s) ==
  LET tk == CondToks(s, 1, <<>>)
      r == IF tk.ok /\ tk.t # <<>> THEN CArg(tk.t, 1) ELSE CFail
  IN IF r.ok /\ r.i = Len(tk.t) + 1 THEN [ok |-> TRUE, a |-> r.a]
     ELSE [ok |-> FALSE, a |-> <<>>]

RECURSIVE SubTree(_, _)
SubTree(tr, p) == IF p = <<>> THEN tr ELSE SubTree(tr.k[Head(p)], Tail(p))

\* positions of the nodes with this id in the subtree at p, p included
RECURSIVE FindIds(_, _, _)
FindIds(sub, p, id) ==
  (IF sub.i = id THEN {p} ELSE {})
  \cup UNION {FindIds(sub.k[j], Append(p, j), id) : j \in 1..Len(sub.k)}

VErr == [y |-> "err"]
Truth(x) ==
  CASE x.y = "set" -> x.p # {}
    [] x.y = "bool" -> x.b
    [] x.y = "int" -> x.z # <<>>
    [] x.y = "str" -> x.s # ""

First(S) == CHOOSE i \in S : \A j \in S : i <= j

CmpVals(op, x, y) ==
  IF x.y # y.y \/ op \notin {"eq", "ne", "gt", "lt", "ge", "le"} THEN VErr
  ELSE IF op \notin {"eq", "ne"} /\ x.y # "int" THEN VErr
  ELSE [y |-> "bool", b |->
    CASE op = "eq" -> x = y
      [] op = "ne" -> x # y
      [] op = "gt" -> CmpMag(x.z, y.z) > 0
      [] op = "lt" -> CmpMag(x.z, y.z) < 0
      [] op = "ge" -> CmpMag(x.z, y.z) >= 0
      [] op = "le" -> CmpMag(x.z, y.z) <= 0]

Apply(f, a, tr, cur) ==
  LET n == Len(a)
      set(i) == n >= i /\ a[i].y = "set"
  IN CASE f = "root" -> IF n = 0 THEN [y |-> "set", p |-> {<<>>}] ELSE VErr
       [] f = "current" -> IF n = 0 THEN [y |-> "set", p |-> {cur}] ELSE VErr
       [] f = "bool" -> IF n = 1 THEN [y |-> "bool", b |-> Truth(a[1])] ELSE VErr
       [] f = "or" -> IF n < 2 THEN VErr
            ELSE LET I == {i \in 1..n : Truth(a[i])} IN IF I = {} THEN a[n] ELSE a[First(I)]
       [] f = "and" -> IF n < 2 THEN VErr
            ELSE LET I == {i \in 1..n : ~Truth(a[i])} IN IF I = {} THEN a[n] ELSE a[First(I)]
       [] f = "first_child" -> IF n = 1 /\ set(1)
            THEN [y |-> "set", p |-> {Append(q, 1) : q \in {r \in a[1].p : SubTree(tr, r).k # <<>>}}]
            ELSE VErr
       [] f = "find" -> IF n = 2 /\ set(1) /\ a[2].y = "str"
            THEN [y |-> "set", p |-> UNION {FindIds(SubTree(tr, q), q, a[2].s) : q \in a[1].p}]
            ELSE VErr
       [] f = "cmp" -> IF n = 3 /\ a[1].y = "str" THEN CmpVals(a[1].s, a[2], a[3]) ELSE VErr
       [] f = "count" -> IF n = 1 /\ set(1) THEN [y |-> "int", z |-> MulAdd(<<>>, 1, Cardinality(a[1].p))] ELSE VErr
       [] OTHER -> VErr

RECURSIVE CondEval(_, _, _)
CondEval(c, tr, cur) ==
  CASE c.o = "w" -> [y |-> "str", s |-> c.s]
    [] c.o = "z" ->       \* the prefix decides of the base, as for an integer node
         IF IntMatch(c.s, "-", "-", 0) THEN [y |-> "int", z |-> ReadNum(c.s, 0).v.mag] ELSE VErr
    [] c.o = "f" ->
         LET a == [i \in 1..Len(c.a) |-> CondEval(c.a[i], tr, cur)]
         IN IF \E i \in 1..Len(a) : a[i].y = "err" THEN VErr ELSE Apply(c.s, a, tr, cur)

\* "true", "false" or "err"
CondHolds(c, tr, cur) ==
  LET x == CondEval(c, tr, cur)
  IN IF x.y = "err" THEN "err" ELSE IF Truth(x) THEN "true" ELSE "false"
=============================================================================
