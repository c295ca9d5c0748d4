------------------------------ MODULE GenPnode ------------------------------
(* All the short histories of operations on parse trees, and what must hold  *)
(* in all their states.                                                      *)
EXTENDS Pnode, Json
CONSTANTS Depth, MaxN
VARIABLES state_, hist_
vars == <<state_, hist_>>
Rec0 == [g |-> <<[t |-> "str", id |-> "a", s |-> "a", c |-> <<>>], [t |-> "str", id |-> "b", s |-> "b", c |-> <<>>]>>]
Live == DOMAIN state_.t
Roots == {i \in Live : state_.t[i].par = 0}
Ops ==
  (IF state_.nx <= MaxN THEN {[op |-> "new", n |-> 1 + (state_.nx % 2)]} ELSE {})
  \cup {[op |-> "link", p |-> p, c |-> c] : <<p, c>> \in {x \in Live \X Roots : RootOf(state_.t, x[1]) # x[2]}}
  \cup {[op |-> "unlink", p |-> p] : p \in Live \ Roots}
  \cup {[op |-> "free", p |-> p] : p \in Roots}
  \cup {[op |-> "fc", p |-> p] : p \in {x \in Live : state_.t[x].k # <<>>}}
  \cup {[op |-> "dl", p |-> p] : p \in {x \in Live : state_.t[x].k # <<>>}}
  \cup {[op |-> "dup", p |-> p] : p \in {x \in Live : state_.nx + Len(Desc(state_.t, RootOf(state_.t, x))) - 1 <= MaxN}}
NoObs == [f |-> 0, r |-> 0]
Init == state_ = PBegin(Rec0) /\ hist_ = <<>>
Next == Len(hist_) < Depth /\ \E op \in Ops : state_' = PStep(state_, op, NoObs) /\ hist_' = Append(hist_, op)
Spec == Init /\ [][Next]_vars

\* it is a forest, and links are consistent
Forest == \A i \in Live :
  /\ \A j \in 1..Len(state_.t[i].k) : state_.t[i].k[j] \in Live /\ state_.t[state_.t[i].k[j]].par = i
  /\ state_.t[i].par # 0 => /\ state_.t[i].par \in Live
                       /\ Cardinality({j \in 1..Len(state_.t[state_.t[i].par].k) : state_.t[state_.t[i].par].k[j] = i}) = 1
\* the iteration visits each node below the root once
RECURSIVE Walk(_, _)
Walk(root, i) == IF i = 0 THEN <<>> ELSE <<i>> \o Walk(root, IterNext(state_.t, root, i, TRUE))
IterAll == \A r \in Live : Walk(r, r) = Desc(state_.t, r)
\* sibling links enumerate the children
RECURSIVE Sibs(_)
Sibs(i) == IF i = 0 THEN <<>> ELSE <<i>> \o Sibs(NextSib(state_.t, i))
SibAll == \A i \in Live : Sibs(IF state_.t[i].k = <<>> THEN 0 ELSE state_.t[i].k[1]) = state_.t[i].k
Emit == Len(hist_) = Depth => PrintT("HIST " \o ToJson(hist_))
=============================================================================
