------------------------------- MODULE JFile -------------------------------
(* Completion of file names: a history of changes of a directory and of      *)
(* requests on a grammar.                                                    *)
EXTENDS GrammarView, Trace
FiBegin(r) == [g |-> r.g, fs |-> {}, late |-> FALSE, ok |-> TRUE, isErr |-> FALSE, want |-> <<>>]

WithFs(g, fs) == [i \in 1..Len(g) |-> IF g[i].t = "file" THEN [fs |-> fs] @@ g[i] ELSE g[i]]

SameItems(file, e, o) ==
  /\ Len(e) = Len(o)
  /\ IF file THEN \A i \in 1..Len(e) : Cardinality({j \in 1..Len(o) : o[j] \in FileAllowed(e[i])}) = 1 ELSE e = o
Same(g, q, e, o) ==
  IF q.op # "L" \/ e.r # "ok" \/ o.r # "ok" THEN e = o
  ELSE /\ Len(e.g) = Len(o.g)
       /\ \A i \in 1..Len(e.g) :
            /\ e.g[i].n = o.g[i].n /\ e.g[i].i = o.g[i].i
            /\ SameItems(e.g[i].n # 0 /\ g[e.g[i].n].t = "file", e.g[i].it, o.g[i].it)

IsErr(q, o) == IF q.op = "L" THEN o.c.r = "err" ELSE o.r = "err"
FiStep(st, op, obs) ==
  IF op.op \in {"FM", "FU"} THEN IF obs.r = 0 THEN [st EXCEPT !.fs = FsStep(@, op)] ELSE st
  ELSE IF op.op = "FT" THEN st
  ELSE IF op.op = "FE" THEN [st EXCEPT !.late = TRUE]
  \* an error while reading the directory is reported
  ELSE IF op.op = "FR" THEN [st EXCEPT !.late = FALSE, !.ok = IF obs.r > 0 THEN st.isErr ELSE @]
  ELSE LET g == WithFs(st.g, st.fs)
       IN IF op.op = "OQ"
          THEN LET e == Exp1(g, op.q)
               IN [st EXCEPT !.want = e,
                             !.ok = /\ obs.leak = 0 /\ obs.mute = 0 /\ obs.same = 1
                                    /\ Same(st.g, op.q, e, Seen1(op.q, obs.first))
                                    /\ \A i \in 1..Len(obs.all) : IsErr(op.q, obs.all[i]) \/ Same(st.g, op.q, e, Seen1(op.q, obs.all[i]))]
          ELSE LET e == Exp1(g, op)
               IN [st EXCEPT !.want = e, !.isErr = IsErr(op, obs), !.ok = Same(st.g, op, e, Seen1(op, obs))]
FiAccept(st, op, obs) == st.late \/ st.ok
FiExpected(st, op, obs) == [fs |-> st.fs, want |-> st.want]
=============================================================================
