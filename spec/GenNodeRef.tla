----------------------------- MODULE GenNodeRef -----------------------------
(* Enumerates complete histories of NodeRef: a graph of N nodes is built     *)
(* edge by edge (in a canonical order), then the handles are dropped in any  *)
(* order, possibly with one replacement of the children of a node in the     *)
(* middle. Every history is printed, to be executed by the implementation.   *)
EXTENDS NodeRef, TLC, Json

CONSTANTS N, MaxEdges, Replace
VARIABLES state_, hist, phase, last, repl
vars == <<state_, hist, phase, last, repl>>

Op(o, n, c) == [op |-> o, n |-> n, c |-> c]
Init == /\ state_ = [h |-> [i \in 1..N |-> 1], k |-> [i \in 1..N |-> <<>>]]
        /\ hist = <<>> /\ phase = "build" /\ last = 0 /\ repl = FALSE

\* edges are numbered: (p - 1) * N + c; they are added in increasing order
Link(p, c) ==
  /\ phase = "build" /\ (p - 1) * N + c > last /\ Len(hist) < MaxEdges
  /\ state_' = AddChild(state_, p, c) /\ hist' = Append(hist, Op("add", p, <<c>>))
  /\ last' = (p - 1) * N + c /\ UNCHANGED <<phase, repl>>
DropOne(n) ==
  /\ state_.h[n] > 0
  /\ state_' = Release(state_, n) /\ hist' = Append(hist, Op("drop", n, <<>>))
  /\ phase' = "drop" /\ UNCHANGED <<last, repl>>
\* replace all the children of p
Set(p, c) ==
  /\ Replace /\ ~repl /\ phase = "drop"
  /\ state_.h[p] > 0 /\ \A j \in 1..Len(c) : state_.h[c[j]] > 0
  /\ Len(state_.k[p]) > 0
  /\ state_' = SetChildren(state_, p, c) /\ hist' = Append(hist, Op("setl", p, c))
  /\ repl' = TRUE /\ UNCHANGED <<phase, last>>
Next == \/ \E p, c \in 1..N : Link(p, c)
        \/ \E n \in 1..N : DropOne(n)
        \/ \E p, c \in 1..N : Set(p, <<c>>)
        \/ \E p \in 1..N : Set(p, <<>>)
Spec == Init /\ [][Next]_vars

Done == \A n \in 1..N : state_.h[n] = 0
Emit == Done => PrintT("HIST " \o ToJson(hist))
\* design properties
NothingLeft == Done => Alive(state_) = {}
=============================================================================
