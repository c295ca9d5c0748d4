------------------------------ MODULE GenKeep ------------------------------
(* The orders in which answers are asked, looked at, copied and freed: the   *)
(* shapes of the histories, without the grammars; and, on a small grammar,   *)
(* that no step changes another register.                                    *)
EXTENDS Keep, Json
CONSTANTS Depth, R
VARIABLES state_, hist_
vars == <<state_, hist_>>
G0 == <<[t |-> "or", id |-> "r", c |-> <<2, 3>>],
        [t |-> "str", id |-> "a", s |-> "a", c |-> <<>>],
        [t |-> "str", id |-> "b", s |-> "b", c |-> <<>>]>>
Ans(g, q) == LET p == ParseRoot(g, q.n, Toks(q.v)) IN [r |-> p.r, t |-> p.t]
Used == {i \in 1..R : state_.reg[i].kind = "ans"}
Ops ==
  {[op |-> "KP", r |-> r, n |-> 1, v |-> v] : r \in 1..R, v \in {<<"a">>, <<"b", "c">>}}
  \cup {[op |-> "KL", r |-> r, n |-> 1, v |-> <<"a">>] : r \in 1..R}
  \cup {[op |-> "KV", r |-> r] : r \in Used}
  \cup {[op |-> "KF", r |-> r] : r \in Used}
  \cup {[op |-> "KD", r |-> x[1], b |-> x[2]] : x \in {y \in (1..R) \X Used : y[1] # y[2]}}
  \cup {[op |-> "KA", n |-> 1, c |-> 2]}
Init == state_ = KBegin(G0) /\ hist_ = <<>>
Next == Len(hist_) < Depth /\ \E op \in Ops : state_' = KStep(state_, op, Ans) /\ hist_' = Append(hist_, op)
Spec == Init /\ [][Next]_vars
\* an answer is the one that was given when it was asked
Isolated == [][\A i \in 1..R : (hist_' # hist_ /\ LET op == hist_'[Len(hist_')]
                                                  IN op.op = "KA" \/ op.r # i) => state_'.reg[i] = state_.reg[i]]_vars
Emit == Len(hist_) = Depth => PrintT("HIST " \o ToJson(hist_))
=============================================================================
