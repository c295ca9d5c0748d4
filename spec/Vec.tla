-------------------------------- MODULE Vec --------------------------------
(* Vectors of fixed-size elements. sz is the size of the elements, 0 for     *)
(* objects that have a copy and a destroy function: each element of each     *)
(* vector is then one reference to an object. 100: they have a copy function *)
(* only, 101: a destroy function only; the calls are counted.                *)
EXTENDS Chars

CONSTANT NSlots
VNone == [u |-> 0, sz |-> 1, v |-> <<>>]
VBegin(r) == [slot |-> [i \in 1..NSlots |-> VNone], r |-> 0, cp |-> 0, fr |-> 0]
VPut(st, i, sz, v) == [st EXCEPT !.slot[i] = [u |-> 1, sz |-> sz, v |-> v], !.r = 0]
VErr(st) == [st EXCEPT !.r = -1]
Width(w) == CASE w = "1" -> 1 [] w = "2" -> 2 [] w = "4" -> 4 [] w = "8" -> 8 [] w = "p" -> 8
\* an element that is given by reference has no size of its own
Fits(w, sz) == w \in {"o", "b"} \/ Width(w) = sz
Copied(st, x, n) == [st EXCEPT !.cp = IF x.sz = 100 THEN @ + n ELSE @]

VDo(st, op) ==
  LET x == st.slot[op.i] v == x.v IN
  CASE op.op = "new"  -> IF op.sz < 0 THEN VErr(st) ELSE VPut(st, op.i, op.sz, <<>>)
    [] op.op = "add"  -> IF ~Fits(op.w, x.sz) THEN VErr(st) ELSE VPut(st, op.i, x.sz, Append(v, op.val))
    [] op.op = "get"  -> [st EXCEPT !.r = IF op.idx >= 0 /\ op.idx < Len(v) THEN 0 ELSE -1]
    [] op.op = "dup"  -> VPut(Copied(st, x, Len(v)), op.j, x.sz, v)
    [] op.op = "ndup" -> IF op.off < 0 \/ op.len < 0 \/ op.off + op.len > Len(v) THEN VErr(st)
                         ELSE VPut(Copied(st, x, op.len), op.j, x.sz, SubSeq(v, op.off + 1, op.off + op.len))
    [] op.op = "free" -> [st EXCEPT !.slot[op.i] = VNone, !.r = 0, !.fr = IF x.sz = 101 THEN @ + Len(v) ELSE @]
VStep(st, op, obs) == IF ~Possible(st.slot, op) THEN [st EXCEPT !.r = -3]
  ELSE IF obs.f > 0 /\ obs.r = -1 THEN VErr(st) ELSE VDo(st, op)

Refs(st, id) ==
  SumSeq([i \in 1..NSlots |-> IF st.slot[i].sz # 0 THEN 0
            ELSE Cardinality({j \in 1..Len(st.slot[i].v) : st.slot[i].v[j] = id})])
VIds(st) == UNION {SetOf(st.slot[i].v) : i \in {n \in 1..NSlots : st.slot[n].sz = 0}}
VAccept(st, op, obs) ==
  /\ obs.n = <<st.cp, st.fr>>
  /\ obs.r = st.r /\ (obs.r = -1 => obs.e = 1)
  /\ \A i \in 1..NSlots : obs.S[i].u = st.slot[i].u /\ obs.S[i].v = st.slot[i].v
  /\ {<<ToString(obs.live[n][1]), obs.live[n][2]>> : n \in 1..Len(obs.live)} = {<<id, Refs(st, id)>> : id \in VIds(st)}
VExpected(st, op, obs) == [r |-> st.r, n |-> <<st.cp, st.fr>>, S |-> st.slot]
=============================================================================
