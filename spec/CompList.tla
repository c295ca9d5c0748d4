------------------------------ MODULE CompList ------------------------------
(* Lists of completions. A completion is a walk in the grammar: each node    *)
(* that is entered has its own group, created when it proposes its first     *)
(* item, that remembers the path from the root. A list can be built apart    *)
(* and merged into another one.                                              *)
EXTENDS Chars

NRegs == 4
NULL == "-"
\* a: attributes that were given to the list, m: those of the lists that were
\* merged into it
CLNone == [u |-> 0, g |-> <<>>, a |-> {}, m |-> {}]
\* fr: nodes being completed [sub, n, cur, reg]; cs: lists being built; reg:
\* finished lists
CLBegin(r) == [fr |-> <<>>, cs |-> <<>>, reg |-> [i \in 1..NRegs |-> CLNone], r |-> 0]

Top(s) == s[Len(s)]
Pop(s) == SubSeq(s, 1, Len(s) - 1)
Bits(m) == {b \in {1, 2, 4} : (m \div b) % 2 = 1}

RECURSIVE PathOf(_)
PathOf(fr) == IF Top(fr).sub THEN <<Top(fr).n>> ELSE Append(PathOf(Pop(fr)), Top(fr).n)

CLItem(t, start, full) ==
  [t |-> t, s |-> full,
   c |-> IF start # NULL /\ StartsWith(full, start) THEN From(full, Len(start) + 1) ELSE NULL,
   d |-> full]
AddOk(t, full) == (t = 1 /\ full = NULL) \/ (t \in {2, 4} /\ full # NULL)

SetR(st, r) == [st EXCEPT !.r = r]
NItems(g) == SumSeq([i \in 1..Len(g) |-> Len(g[i].it)])
\* group and position of the kth item
RECURSIVE ItemAt(_, _, _)
ItemAt(g, k, i) == IF k <= Len(g[i].it) THEN <<i, k>> ELSE ItemAt(g, k - Len(g[i].it), i + 1)

DoAdd(st, op) ==
  IF ~AddOk(op.t, op.full) THEN SetR(st, -1)
  ELSE LET f == Top(st.fr)
           g == Top(st.cs).g
           new == f.cur = 0
           i == IF new THEN Len(g) + 1 ELSE f.cur
           it == CLItem(op.t, op.start, op.full)
       IN [st EXCEPT !.r = 0,
             !.fr[Len(st.fr)].cur = i,
             !.cs[Len(st.cs)].g = IF new THEN Append(g, [n |-> f.n, p |-> PathOf(st.fr), it |-> <<it>>])
                                  ELSE [g EXCEPT ![i].it = Append(@, it)]]
DoSet(st, op) ==
  LET g == Top(st.cs).g IN
  IF op.k > NItems(g) \/ op.str = NULL THEN SetR(st, -1)
  ELSE LET x == ItemAt(g, op.k, 1)
           old == g[x[1]].it[x[2]]
           new == CASE op.w = 0 -> [old EXCEPT !.s = op.str]
                    [] op.w = 1 -> [old EXCEPT !.c = op.str]
                    [] op.w = 2 -> [old EXCEPT !.d = op.str]
       IN IF old.t = 1 THEN SetR(st, -1)
          ELSE [st EXCEPT !.r = 0, !.cs[Len(st.cs)].g[x[1]].it[x[2]] = new]
DoLeave(st, ok) ==
  LET f == Top(st.fr) IN
  IF ~f.sub THEN [st EXCEPT !.r = IF ok THEN 0 ELSE -1, !.fr = Pop(st.fr)]
  ELSE [st EXCEPT !.r = IF ok THEN 0 ELSE -1, !.fr = Pop(st.fr), !.cs = Pop(st.cs),
                  !.reg[f.reg] = IF ok THEN Top(st.cs) ELSE CLNone]
DoMerge(st, op) ==
  LET src == st.reg[op.b] IN
  IF src.u = 0 \/ (op.a > 0 /\ st.reg[op.a].u = 0) THEN SetR(st, -3)
  ELSE IF op.a = 0 THEN [st EXCEPT !.r = 0, !.reg[op.b] = CLNone, !.cs[Len(st.cs)].g = @ \o src.g,
                                      !.cs[Len(st.cs)].m = @ \cup src.a \cup src.m]
  ELSE [st EXCEPT !.r = 0, !.reg = [@ EXCEPT ![op.b] = CLNone, ![op.a].g = @ \o src.g, ![op.a].m = @ \cup src.a \cup src.m]]

\* an operation that fails for lack of memory has no effect, except that the
\* source of a merge is freed
CLStep(st, op, obs) ==
  IF op.op \in {"add", "set", "merge", "attr"} /\ obs.f > 0 /\ obs.r = -1
  THEN IF op.op = "merge" THEN [st EXCEPT !.r = -1, !.reg[op.b] = CLNone] ELSE SetR(st, -1)
  ELSE CASE op.op = "add" -> DoAdd(st, op)
         [] op.op = "set" -> DoSet(st, op)
         [] op.op = "attr" -> [st EXCEPT !.r = 0, !.cs[Len(st.cs)].a = @ \cup {op.k}]
         [] op.op = "enter" -> [st EXCEPT !.r = 0, !.fr = Append(@, [sub |-> FALSE, n |-> op.n, cur |-> 0, reg |-> 0])]
         [] op.op = "sub" -> [st EXCEPT !.r = 0, !.cs = Append(@, [CLNone EXCEPT !.u = 1]),
                                !.fr = Append(@, [sub |-> TRUE, n |-> op.n, cur |-> 0, reg |-> op.reg])]
         [] op.op = "leave" -> DoLeave(st, TRUE)
         [] op.op = "abort" -> DoLeave(st, FALSE)
         [] op.op = "merge" -> DoMerge(st, op)
         [] op.op = "free" -> [st EXCEPT !.r = 0, !.reg[op.a] = CLNone]

\* what can be read from a list
Types(g) == FlatSeq([i \in 1..Len(g) |-> [j \in 1..Len(g[i].it) |-> g[i].it[j].t]])
View1(c) ==
  IF c.u = 0 THEN [u |-> 0, g |-> <<>>, tc |-> <<>>, ty |-> <<>>]
  ELSE LET ts == Types(c.g)
           idx == [i \in 1..Len(ts) |-> i]
       IN [u |-> 1, g |-> c.g,
           tc |-> [m \in 1..8 |-> LET in(t) == t \in Bits(m - 1) IN Len(SelectSeq(ts, in))],
           ty |-> [m \in 1..7 |-> LET in(i) == ts[i] \in Bits(m) IN SelectSeq(idx, in)]]
CLView(st) ==
  [r |-> st.r,
   cg |-> IF st.fr # <<>> /\ Top(st.fr).cur # 0 THEN 1 ELSE 0,
   cur |-> View1(IF st.cs = <<>> THEN CLNone ELSE Top(st.cs)),
   regs |-> [i \in 1..NRegs |-> View1(st.reg[i])]]
Shown1(o) == [x \in (DOMAIN o) \ {"a"} |-> o[x]]
AttrsOk(c, o) == LET s == {o.a[i] : i \in 1..Len(o.a)} IN c.a \subseteq s /\ s \subseteq (c.a \cup c.m)
CLAccept(st, op, obs) ==
  /\ CLView(st) = [r |-> obs.r, cg |-> obs.cg, cur |-> Shown1(obs.cur), regs |-> [i \in 1..NRegs |-> Shown1(obs.regs[i])]]
  /\ AttrsOk(IF st.cs = <<>> THEN CLNone ELSE Top(st.cs), obs.cur)
  /\ \A i \in 1..NRegs : AttrsOk(st.reg[i], obs.regs[i])
  /\ (obs.r = -1 /\ op.op # "add") => obs.e = 1
CLExpected(st, op, obs) == CLView(st)
=============================================================================
