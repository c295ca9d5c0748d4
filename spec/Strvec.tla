------------------------------- MODULE Strvec -------------------------------
(* Vectors of strings with attributes, as values: copies are independent of  *)
(* each other, and an attribute lives as long as an element holds it.        *)
EXTENDS Chars

CONSTANT NSlots
\* an element: [s: string, a: identifier of its attributes, 0 if none]
SVElt(str, a) == [s |-> str, a |-> a]
SVNone == [u |-> 0, v |-> <<>>]
SVBegin(r) == [slot |-> [i \in 1..NSlots |-> SVNone], r |-> 0]

SVPut(st, i, v) == [st EXCEPT !.slot[i] = [u |-> 1, v |-> v], !.r = 0]
SVErr(st) == [st EXCEPT !.r = -1]

\* indexes of operations start at 0; -1 stands for the largest size_t
InVec(v, idx) == idx >= 0 /\ idx < Len(v)

Count(v, e) == Cardinality({i \in 1..Len(v) : v[i] = e})
IsPermutation(v, w) ==
  Len(v) = Len(w) /\ \A i \in 1..Len(v) : Count(v, v[i]) = Count(w, v[i])
\* order of a sort mode
SortLe(mode, x, y) ==
  CASE mode = "l" -> Len(x) <= Len(y)
    [] mode = "r" -> StrLe(y, x)
    [] OTHER -> StrLe(x, y)
IsSorted(mode, v) == \A i \in 1..(Len(v) - 1) : SortLe(mode, v[i].s, v[i + 1].s)

\* st after the operation; obs is only used where the result is not unique
SVDo(st, op, obs) ==
  LET v == IF op.op \in {"new", "from"} THEN <<>> ELSE st.slot[op.i].v IN
  CASE op.op = "new"  -> SVPut(st, op.i, <<>>)
    [] op.op = "from" -> SVPut(st, op.i, [j \in 1..Len(op.l) |-> SVElt(op.l[j], 0)])
    [] op.op = "add"  -> IF op.null THEN SVErr(st)
                         ELSE SVPut(st, op.i, Append(v, SVElt(op.s, 0)))
    [] op.op = "set"  -> IF op.null \/ ~InVec(v, op.idx) THEN SVErr(st)
                         ELSE SVPut(st, op.i, [v EXCEPT ![op.idx + 1] = SVElt(op.s, 0)])
    [] op.op = "del"  -> IF v = <<>> THEN SVErr(st)
                         ELSE SVPut(st, op.i, SubSeq(v, 1, Len(v) - 1))
    [] op.op = "dup"  -> SVPut(st, op.j, v)
    [] op.op = "ndup" -> IF op.off < 0 \/ op.len < 0 \/ op.off + op.len > Len(v) THEN SVErr(st)
                         ELSE SVPut(st, op.j, SubSeq(v, op.off + 1, op.off + op.len))
    [] op.op = "free" -> [st EXCEPT !.slot[op.i] = SVNone, !.r = 0]
    [] op.op = "attr" -> IF ~InVec(v, op.idx) THEN SVErr(st)
                         ELSE SVPut(st, op.i, [v EXCEPT ![op.idx + 1].a = op.a])
    [] op.op = "cmp"  -> [st EXCEPT !.r =
                            IF [j \in 1..Len(v) |-> v[j].s]
                               = LET w == st.slot[op.j].v IN [j \in 1..Len(w) |-> w[j].s]
                            THEN 0 ELSE 1]
    [] op.op = "sort" -> IF /\ obs.S[op.i].u = 1
                            /\ IsPermutation(v, obs.S[op.i].v)
                            /\ IsSorted(op.mode, obs.S[op.i].v)
                         THEN SVPut(st, op.i, obs.S[op.i].v)
                         ELSE [st EXCEPT !.r = -99]

\* an operation may fail for lack of memory: nothing is changed then
SVStep(st, op, obs) ==
  IF ~Possible(st.slot, op) THEN [st EXCEPT !.r = -3]
  ELSE IF obs.f > 0 /\ obs.r = -1 THEN SVErr(st) ELSE SVDo(st, op, obs)

SVLive(st) == UNION {{st.slot[i].v[j].a : j \in 1..Len(st.slot[i].v)} : i \in 1..NSlots} \ {0}
SVView(st) == [r |-> st.r, S |-> st.slot, live |-> SVLive(st)]
SVAccept(st, op, obs) ==
  /\ obs.r = st.r
  /\ (obs.r = -1) => obs.e = 1
  /\ obs.S = st.slot
  /\ SetOf(obs.live) = SVLive(st)
SVExpected(st, op, obs) == SVView(st)
=============================================================================
