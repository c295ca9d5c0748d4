-------------------------------- MODULE Dict --------------------------------
(* Hash tables and dictionaries: finite maps from keys to values. A copy is  *)
(* independent, but shares the values: a value is destroyed when no table    *)
(* holds it any more.                                                        *)
EXTENDS Chars

CONSTANT NSlots
DNone == [u |-> 0, m |-> <<>>]
\* own: values that have a destructor
DBegin(r) == [slot |-> [i \in 1..NSlots |-> DNone], own |-> {}, r |-> 0, v |-> 0, e |-> 0]

MapDel(m, k) == [x \in DOMAIN m \ {k} |-> m[x]]
MapSet(m, k, v) == [x \in DOMAIN m \cup {k} |-> IF x = k THEN v ELSE m[x]]

DRes(st, r, v, e) == [st EXCEPT !.r = r, !.v = v, !.e = e]
DPut(st, i, m) == DRes([st EXCEPT !.slot[i] = [u |-> 1, m |-> m]], 0, 0, 0)
DErr(st) == DRes(st, -1, 0, 1)

DDo(st, op) ==
  LET m == st.slot[op.i].m IN
  CASE op.op = "new"  -> DPut(st, op.i, <<>>)
    [] op.op = "set"  -> IF op.bad \/ st.slot[op.i].u = 0 THEN DErr(st)
                         ELSE LET s1 == DPut(st, op.i, MapSet(m, op.k, op.v))
                              IN [s1 EXCEPT !.own = IF op.own = 1 /\ op.v # 0 THEN @ \cup {op.v} ELSE @]
    [] op.op = "get"  -> IF ~op.bad /\ op.k \in DOMAIN m THEN DRes(st, 0, m[op.k], 0) ELSE DRes(st, 0, 0, 1)
    [] op.op = "has"  -> DRes(st, IF ~op.bad /\ op.k \in DOMAIN m THEN 1 ELSE 0, 0, 0)
    [] op.op = "del"  -> IF op.bad \/ op.k \notin DOMAIN m THEN DErr(st)
                         ELSE DPut(st, op.i, MapDel(m, op.k))
    [] op.op = "dup"  -> DPut(st, op.j, m)
    [] op.op = "free" -> DRes([st EXCEPT !.slot[op.i] = DNone], 0, 0, 0)

\* an operation may fail for lack of memory: nothing is changed then
DStep(st, op, obs) == IF ~Possible(st.slot, op) THEN [st EXCEPT !.r = -3, !.v = 0, !.e = 0]
  ELSE IF obs.f > 0 /\ obs.r = -1 THEN DErr(st) ELSE DDo(st, op)

DVals(st) == UNION {{st.slot[i].m[k] : k \in DOMAIN st.slot[i].m} : i \in 1..NSlots}
DLive(st) == DVals(st) \cap st.own
Pairs(m) == {<<k, m[k]>> : k \in DOMAIN m}
DAccept(st, op, obs) ==
  /\ obs.r = st.r /\ obs.v = st.v /\ obs.e = st.e
  /\ obs.w = 1 =>
       /\ SetOf(obs.live) = DLive(st)
       /\ \A i \in 1..NSlots :
            LET x == obs.S[i] m == st.slot[i].m IN
            /\ x.u = st.slot[i].u
            /\ x.n = Cardinality(DOMAIN m) /\ Len(x.v) = x.n
            /\ {<<x.v[j].k, x.v[j].v>> : j \in 1..Len(x.v)} = Pairs(m)
DExpected(st, op, obs) == [r |-> st.r, v |-> st.v, e |-> st.e, live |-> DLive(st),
                           S |-> [i \in 1..NSlots |-> Pairs(st.slot[i].m)]]
=============================================================================
