---------------------------- MODULE GenCompList ----------------------------
(* All the short histories of the construction of completion lists, and what *)
(* must hold in each of their states.                                        *)
EXTENDS CompList, Json
CONSTANTS Depth, MaxFrames
VARIABLES state_, hist_
vars == <<state_, hist_>>
O(op) == op
Ops(st) ==
  LET in == st.fr # <<>> IN
  (IF in THEN {[op |-> "add", t |-> 2, start |-> "a", full |-> "ab"], [op |-> "add", t |-> 1, start |-> NULL, full |-> NULL],
               [op |-> "leave"], [op |-> "abort"]} ELSE {})
  \cup (IF in /\ Len(st.fr) < MaxFrames THEN {[op |-> "enter", n |-> 2]} ELSE {})
  \cup (IF Len(st.fr) < MaxFrames THEN {[op |-> "sub", reg |-> 1 + Len(st.cs), n |-> 1]} ELSE {})
  \cup (IF in /\ Top(st.cs).g # <<>> THEN {[op |-> "set", w |-> 1, k |-> 1, str |-> "z"]} ELSE {})
  \cup {[op |-> "merge", a |-> 0, b |-> b] : b \in {i \in 1..2 : in /\ st.reg[i].u = 1}}
  \cup {[op |-> "merge", a |-> 2, b |-> 1] : x \in {y \in {0} : st.reg[1].u = 1 /\ st.reg[2].u = 1}}
\* a register cannot be reused while it holds a list
Allowed(st, op) == op.op = "sub" => /\ st.reg[op.reg].u = 0
                                    /\ \A i \in 1..Len(st.fr) : st.fr[i].reg # op.reg
NoObs == [f |-> 0, r |-> 0]
Init == state_ = CLBegin(<<>>) /\ hist_ = <<>>
Next == /\ Len(hist_) < Depth
        /\ \E op \in Ops(state_) : /\ Allowed(state_, op)
                              /\ state_' = CLStep(state_, op, NoObs)
                              /\ hist_' = Append(hist_, op)
Spec == Init /\ [][Next]_vars

Lists == {state_.cs[i] : i \in 1..Len(state_.cs)} \cup {state_.reg[i] : i \in 1..NRegs}
\* a group is never empty, was made by the node at the end of its path
Groups == \A c \in Lists : \A i \in 1..Len(c.g) :
            c.g[i].it # <<>> /\ c.g[i].p[Len(c.g[i].p)] = c.g[i].n
\* counts and typed iterations agree
Counts == \A c \in Lists : c.u = 1 =>
            LET v == View1(c) IN
            /\ v.tc[8] = NItems(c.g) /\ v.tc[1] = 0
            /\ \A m \in 1..7 : Len(v.ty[m]) = v.tc[m + 1]
            /\ v.tc[8] = v.tc[2] + v.tc[3] + v.tc[5]
\* the current group belongs to the node being completed
Current == \A f \in 1..Len(state_.fr) :
   LET d == Cardinality({i \in 1..f : state_.fr[i].sub}) IN
   state_.fr[f].cur # 0 => state_.cs[d].g[state_.fr[f].cur].n = state_.fr[f].n
Emit == Len(hist_) = Depth => PrintT("HIST " \o ToJson(hist_))
=============================================================================
