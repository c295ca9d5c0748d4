----------------------------- MODULE GenRuntime -----------------------------
(* The sorted list of the init functions: all the orders of registration of  *)
(* a few of them, and the calls that walking the list makes.                 *)
EXTENDS Runtime, Json
CONSTANTS MaxEnts, Prios
VARIABLES state_, list_, hist_
vars == <<state_, list_, hist_>>
\* a new entry comes before the first one whose priority is not lower
RECURSIVE Put(_, _)
Put(l, e) == IF l = <<>> THEN <<e>> ELSE IF e.prio > Head(l).prio THEN <<Head(l)>> \o Put(Tail(l), e) ELSE <<e>> \o l
RECURSIVE Walk(_), Back(_)
Walk(l) == IF l = <<>> THEN <<>> ELSE IF Head(l).init = 0 THEN Walk(Tail(l))
           ELSE IF Head(l).init = 2 THEN <<Head(l).k>> ELSE <<Head(l).k>> \o Walk(Tail(l))
Back(l) == IF l = <<>> THEN <<>> ELSE Back(Tail(l)) \o (IF Head(l).exit = 1 THEN <<Head(l).k>> ELSE <<>>)
Init == state_ = RtBegin(<<>>) /\ list_ = <<>> /\ hist_ = <<>>
Next == Len(hist_) < MaxEnts /\ \E p \in Prios, i \in 0..2, x \in 0..1 :
          LET op == [op |-> "IR", k |-> Len(hist_), prio |-> p, init |-> i, exit |-> x]
          IN /\ state_' = RtStep(state_, op, [o |-> "rt"])
             /\ list_' = Put(list_, [k |-> op.k, prio |-> p, init |-> i, exit |-> x])
             /\ hist_' = Append(hist_, op)
Spec == Init /\ [][Next]_vars
Fails == \E i \in 1..Len(list_) : list_[i].init = 2
InitOk == InitAllowed(state_, Walk(list_), ~Fails, FALSE)
ExitOk == ExitAllowed([state_ EXCEPT !.order = Walk(list_)], Back(list_))
Emit == hist_ # <<>> => PrintT("HIST " \o ToJson(hist_))
=============================================================================
