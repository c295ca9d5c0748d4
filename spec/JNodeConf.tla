----------------------------- MODULE JNodeConf -----------------------------
EXTENDS NodeConf, GrammarView, Trace
\* can a node that has no configuration be reached from n?
RECURSIVE Reach(_, _, _)
Reach(g, todo, seen) ==
  IF todo = {} THEN seen
  ELSE LET more == UNION {SetOf(g[n].c) : n \in todo}
       IN Reach(g, more \ (seen \cup todo), seen \cup todo)
Lacking(g, n) == \E m \in Reach(g, {n}, {}) : Unset(g[m])
NCAccept(st, op, obs) ==
  IF op.op \in {"P", "L"} THEN \/ op.op = "L" /\ Lacking(st.g, op.n)
                              \/ Exp1(st.g, op) = Seen1(op, obs)
  ELSE /\ obs.r = st.r
       /\ Same(st.cf[op.n], obs.cf)
       /\ st.g[op.n].t # "cmd" => obs.kids = st.g[op.n].c
       /\ obs.over = 0   \* a node has no child beyond the last one
       /\ obs.r = -1 => obs.e = 1
NCExpected(st, op, obs) ==
  IF op.op \in {"P", "L"} THEN [want |-> Exp1(st.g, op)]
  ELSE [r |-> st.r, cf |-> st.cf[op.n], c |-> st.g[op.n].c]
=============================================================================
