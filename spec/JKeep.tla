------------------------------- MODULE JKeep -------------------------------
EXTENDS Keep, GrammarView, Trace
KeBegin(r) == KBegin(r.g)
KeStep(st, op, obs) == KStep(st, op, Exp1)
KeAccept(st, op, obs) ==
  /\ obs.same = 1
  /\ IF op.op = "KA" THEN TRUE
     ELSE LET x == st.reg[op.r]
          IN IF x.kind = "none" THEN obs.v.o = "none"
             ELSE obs.v.o # "none" /\ Seen1(x.q, obs.v) = x.a
KeExpected(st, op, obs) == IF op.op = "KA" THEN [r |-> "added"] ELSE [want |-> st.reg[op.r]]
=============================================================================
