------------------------------- MODULE JYaml -------------------------------
EXTENDS Yaml, GrammarView, Trace
Attrs(l) == Val("d", "", [i \in 1..Len(l) |-> [k |-> l[i].k, v |-> Val("s", l[i].v, <<>>)]])
YAccept(st, op, obs) ==
  IF op.op \in {"P", "L"}
  THEN IF op.n > Len(st.g) THEN obs.o = "null" ELSE Exp1(st.g, op) = Seen1(op, obs)
  ELSE /\ obs.r = IF st.ok THEN 0 ELSE -1
       /\ Len(obs.g) = Len(st.g)
       /\ \A i \in 1..Len(st.g) : /\ obs.g[i].t = st.g[i].t /\ obs.g[i].id = st.g[i].id
                                  /\ Same(st.cf[i], obs.g[i].cf)
                                  /\ Same(st.at[i], Attrs(obs.g[i].at))
YExpected(st, op, obs) ==
  IF op.op \in {"P", "L"} THEN [want |-> IF op.n > Len(st.g) THEN [r |-> "null"] ELSE Exp1(st.g, op)]
  ELSE st
=============================================================================
