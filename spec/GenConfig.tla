----------------------------- MODULE GenConfig -----------------------------
(* The short histories of operations on configurations.                      *)
EXTENDS Config, Json
CONSTANTS Depth
VARIABLES state_, hist_
vars == <<state_, hist_>>
Base == [op |-> "", a |-> 1, p |-> <<>>, b |-> 1, q |-> <<>>]
Op(k, a, p, b) == [Base EXCEPT !.op = k, !.a = a, !.p = p, !.b = b]
K(x) == [k |-> x, i |-> 0]
I(x) == [k |-> "", i |-> x]
Paths == {<<>>, <<K("a")>>, <<I(1)>>}
Vals == {Val("d", "", <<>>), Val("l", "", <<>>), Val("u", "1", <<>>), Val("s", "x", <<>>)}
Here(st, a, p) == ~IsNil(At(st.reg[a], p))
Ops(st) ==
  {Op("new", a, <<>>, 1) @@ [v |-> v] : a \in {i \in 1..2 : IsNil(st.reg[i])}, v \in Vals}
  \cup {Op("set", a, p, 3 - a) @@ [key |-> "a"] : a \in 1..2, p \in Paths}
  \cup {Op("add", a, p, 3 - a) : a \in 1..2, p \in Paths}
  \cup {Op("del", a, <<>>, 1) @@ [key |-> "a"] : a \in 1..2}
  \cup {Op("rm", a, <<>>, 1) @@ [n |-> 1] : a \in 1..2}
  \cup {Op("dup", a, p, 3 - a) : a \in 1..2, p \in Paths}
  \cup {[Op("cmp", 1, <<>>, 2) EXCEPT !.q = p] : p \in Paths}
  \cup {Op("free", a, <<>>, 1) : a \in 1..2}
\* histories in which each operation has something to work on
Useful(st, op) ==
  CASE op.op = "new" -> TRUE
    [] op.op = "set" -> Here(st, op.a, op.p) /\ ~IsNil(st.reg[op.b]) /\ At(st.reg[op.a], op.p).t = "d"
    [] op.op = "add" -> Here(st, op.a, op.p) /\ ~IsNil(st.reg[op.b]) /\ At(st.reg[op.a], op.p).t \in {"l", "s"}
    [] op.op = "del" -> Here(st, op.a, <<K("a")>>)
    [] op.op = "rm" -> Here(st, op.a, <<I(1)>>)
    [] op.op = "dup" -> Here(st, op.a, op.p) /\ IsNil(st.reg[op.b])
    [] op.op = "cmp" -> Here(st, 1, <<>>) /\ Here(st, 2, op.q)
    [] op.op = "free" -> Here(st, op.a, <<>>)
NoObs == [f |-> 0, r |-> 0]
Init == state_ = CFBegin(<<>>) /\ hist_ = <<>>
Next == /\ Len(hist_) < Depth
        /\ \E op \in Ops(state_) : Useful(state_, op) /\ state_' = CFStep(state_, op, NoObs) /\ hist_' = Append(hist_, op)
Spec == Init /\ [][Next]_vars

RECURSIVE Keys(_)
\* keys are distinct at all the levels; a value is equal to itself
Keys(v) == /\ v.t = "d" => \A i, j \in 1..Len(v.k) : v.k[i].k = v.k[j].k => i = j
           /\ \A i \in 1..Len(v.k) : Keys(v.k[i].v)
WellFormed == \A i \in 1..CFRegs : Keys(state_.reg[i]) /\ Same(state_.reg[i], state_.reg[i])
\* equality is symmetric
Symmetric == Same(state_.reg[1], state_.reg[2]) = Same(state_.reg[2], state_.reg[1])
Emit == Len(hist_) = Depth => PrintT("HIST " \o ToJson(hist_))
=============================================================================
