------------------------------- MODULE JEdit -------------------------------
EXTENDS Edit, Trace
EdAccept(st, op, obs) ==
  /\ obs.r = st.r
  /\ st.up => /\ obs.ret = st.ret /\ obs.helps = st.helps /\ obs.p = st.p
              /\ obs.hist = st.disk
              /\ obs.nd = st.n /\ obs.ms = st.ms
              \* on a terminal, the prompt comes first, then what was asked for
              /\ (op.op \in {"EG", "EQ"} /\ op.tty = 1) =>
                   /\ StartsWith(obs.out, st.prompt)
                   /\ ShownIn(obs.out, st.shown)
                   /\ (\A i \in 1..Len(op.k) : Len(op.k[i]) = 1 /\ op.k[i] # "?") =>
                        obs.out = st.prompt \o FlatStr(op.k) \o "\n"
              /\ ~st.read => obs.line = st.line /\ obs.pos = st.pos /\ obs.out = st.out
              /\ op.op = "ET" => obs.r \in {CC_REFRESH, CC_ERROR, CC_REDISPLAY}
EdExpected(st, op, obs) == [x \in (DOMAIN st) \ {"g"} |-> st[x]]
=============================================================================
