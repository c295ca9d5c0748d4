------------------------------ MODULE NodeRef ------------------------------
(* Lifetime of grammar nodes (abstract view).                               *)
(*                                                                          *)
(* A user holds references (handles) on nodes; a node holds references on   *)
(* its children. Whatever the graph (shared children, loops), a node is     *)
(* alive exactly as long as it can be reached from a handle.                *)
EXTENDS Integers, Sequences, FiniteSets

\* state: h: handles of each node, k: children (sequence) of each node
NR0(n) == [h |-> [i \in 1..n |-> 0], k |-> [i \in 1..n |-> <<>>]]

Kids(s, i) == {s.k[i][j] : j \in 1..Len(s.k[i])}
RECURSIVE ReachFrom(_, _)
ReachFrom(s, R) ==
  LET R2 == R \cup UNION {Kids(s, i) : i \in R}
  IN IF R2 = R THEN R ELSE ReachFrom(s, R2)
Alive(s) == ReachFrom(s, {i \in DOMAIN s.h : s.h[i] > 0})

\* a dead node has no child any more
Prune(s) == [s EXCEPT !.k = [i \in DOMAIN @ |-> IF i \in Alive(s) THEN @[i] ELSE <<>>]]

Create(s, n, c) == [s EXCEPT !.h[n] = 1, !.k[n] = c]
AddChild(s, p, c) == [s EXCEPT !.k[p] = Append(@, c)]
SetChild(s, p, c) == Prune([s EXCEPT !.k[p] = <<c>>])
SetChildren(s, p, c) == Prune([s EXCEPT !.k[p] = c])
Hold(s, n) == [s EXCEPT !.h[n] = @ + 1]
Release(s, n) == Prune([s EXCEPT !.h[n] = @ - 1])

NRStep(s, op) ==
  CASE op.op = "new" -> Create(s, op.n, op.c)
    [] op.op = "add" -> AddChild(s, op.n, op.c[1])
    [] op.op = "addl" -> [s EXCEPT !.k[op.n] = @ \o op.c]
    [] op.op = "set" -> SetChild(s, op.n, op.c[1])
    [] op.op = "setl" -> SetChildren(s, op.n, op.c)
    [] op.op = "hold" -> Hold(s, op.n)
    [] op.op = "nil" -> s        \* one of the children is missing: it fails, and keeps nothing
    [] op.op = "drop" -> Release(s, op.n)

\* what can be observed
NRView(s) == [alive |-> {i \in DOMAIN s.h : i \in Alive(s)},
              kids |-> [i \in DOMAIN s.h |-> s.k[i]]]
=============================================================================
