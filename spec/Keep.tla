-------------------------------- MODULE Keep --------------------------------
(* Requests on a grammar that is shared and can grow, with answers that are  *)
(* kept in registers: an answer depends only on the grammar and on the input *)
(* of the request, and remains what it was until it is freed, whatever       *)
(* happens to the other ones, to the input and to the grammar.               *)
(*  KP, KL: request whose answer goes in register r  KV: look at an answer   *)
(*  KD: copy of a parse tree   KF: free   KA: add child c to node n          *)
EXTENDS Grammar
KRegs == 1..4
KNone == [kind |-> "none"]
KBegin(g) == [g |-> g, reg |-> [i \in KRegs |-> KNone]]
\* Answer(g, q): what request q gives
KStep(st, op, Answer(_, _)) ==
  CASE op.op \in {"KP", "KL"} ->
         LET q == [op |-> IF op.op = "KP" THEN "P" ELSE "L", n |-> op.n, v |-> op.v]
         IN [st EXCEPT !.reg[op.r] = [kind |-> "ans", q |-> q, a |-> Answer(st.g, q)]]
    [] op.op = "KD" -> LET x == st.reg[op.b]
                       IN [st EXCEPT !.reg[op.r] = IF x.kind = "ans" /\ x.q.op = "P" /\ x.a.r # "err" THEN x ELSE KNone]
    [] op.op = "KF" -> [st EXCEPT !.reg[op.r] = KNone]
    [] op.op = "KA" -> [st EXCEPT !.g[op.n].c = Append(@, op.c)]
    [] op.op = "KV" -> st
=============================================================================
