------------------------------- MODULE Config -------------------------------
(* Configurations: values [t, s, k], t being b (boolean), i, u (integers),   *)
(* s (string), n (node), l (list), d (dictionary) or nil; s the text of a    *)
(* scalar, k the elements [k, v] of a list or dictionary. The order of the   *)
(* elements of a dictionary does not matter, its keys are distinct.          *)
EXTENDS Chars

Val(t, s, k) == [t |-> t, s |-> s, k |-> k]
NIL == Val("nil", "", <<>>)
IsNil(v) == v.t = "nil"

\* position of a key, 0 if it is not there
KeyAt(v, key) ==
  LET I == {i \in 1..Len(v.k) : v.k[i].k = key} IN IF I = {} THEN 0 ELSE CHOOSE i \in I : TRUE
DGet(v, key) == LET i == KeyAt(v, key) IN IF i = 0 THEN NIL ELSE v.k[i].v
DSet(v, key, x) ==
  LET i == KeyAt(v, key)
  IN [v EXCEPT !.k = IF i = 0 THEN Append(@, [k |-> key, v |-> x]) ELSE [@ EXCEPT ![i].v = x]]

RECURSIVE Same(_, _)
Same(a, b) ==
  /\ a.t = b.t /\ a.s = b.s /\ Len(a.k) = Len(b.k)
  /\ IF a.t = "d" THEN \A i \in 1..Len(a.k) : LET j == KeyAt(b, a.k[i].k)
                                              IN j # 0 /\ Same(a.k[i].v, b.k[j].v)
     ELSE \A i \in 1..Len(a.k) : Same(a.k[i].v, b.k[i].v)

-----------------------------------------------------------------------------
(* Schemas: sequences of elements [key, t, has, sub]: key ("-" when there is *)
(* none), type, whether there is a subschema, the subschema.                 *)
NOKEY == "-"
Scalars == {"b", "i", "u", "s", "n"}
Reserved == {"id", "attrs", "help", "type"}

RECURSIVE SchemaOk(_, _)
SchemaOk(sc, kind) ==
  /\ IF kind = "l" THEN sc[1].key = NOKEY ELSE \A i \in 1..Len(sc) : sc[i].key # NOKEY
  /\ \A i \in 1..Len(sc) :
       /\ sc[i].key \notin Reserved
       /\ \A j \in (i + 1)..Len(sc) : sc[i].key # sc[j].key
       /\ CASE sc[i].t \in Scalars -> ~sc[i].has
            [] sc[i].t = "l" -> sc[i].has /\ Len(sc[i].sub) = 1 /\ SchemaOk(sc[i].sub, "l")
            [] sc[i].t = "d" -> sc[i].has /\ Len(sc[i].sub) > 0 /\ SchemaOk(sc[i].sub, "d")
            [] OTHER -> FALSE

\* does a value agree with an element of a schema, a dictionary with a schema
RECURSIVE Fits(_, _), FitsDict(_, _)
Fits(v, e) ==
  /\ v.t = e.t
  /\ CASE v.t = "l" -> \A i \in 1..Len(v.k) : Fits(v.k[i].v, e.sub[1])
       [] v.t = "d" -> FitsDict(v, e.sub)
       [] OTHER -> TRUE
FitsDict(v, sc) ==
  \A i \in 1..Len(v.k) : \E j \in 1..Len(sc) : sc[j].key = v.k[i].k /\ Fits(v.k[i].v, sc[j])

-----------------------------------------------------------------------------
(* Registers that hold values, and what the functions do to them. A path is  *)
(* a sequence of steps [k, i]: a key, or (i > 0) an index.                   *)
CFRegs == 4
CFBegin(r) == [reg |-> [i \in 1..CFRegs |-> NIL], r |-> 0, x |-> 0]

RECURSIVE At(_, _), Put(_, _, _)
At(v, p) ==
  IF p = <<>> \/ IsNil(v) THEN v
  ELSE LET h == Head(p) IN
       IF h.i > 0 THEN IF v.t = "l" /\ h.i <= Len(v.k) THEN At(v.k[h.i].v, Tail(p)) ELSE NIL
       ELSE IF v.t = "d" THEN At(DGet(v, h.k), Tail(p)) ELSE NIL
\* replace what is at the path p, that exists
Put(v, p, x) ==
  IF p = <<>> THEN x
  ELSE LET h == Head(p)
           i == IF h.i > 0 THEN h.i ELSE KeyAt(v, h.k)
       IN [v EXCEPT !.k[i].v = Put(@, Tail(p), x)]

SetR(st, r) == [st EXCEPT !.r = r]
Change(st, op, x) == [st EXCEPT !.r = 0, !.reg[op.a] = Put(@, op.p, x)]
SKIP == -9

CFDo(st, op) ==
  LET v == At(st.reg[op.a], op.p)
      b == st.reg[op.b]
      eaten == [st EXCEPT !.reg[op.b] = NIL]
  IN CASE op.op \in {"lit", "new"} ->
            IF ~IsNil(st.reg[op.a]) THEN SetR(st, SKIP)
            ELSE [st EXCEPT !.r = 0, !.reg[op.a] = op.v]
       [] op.op = "set" ->
            IF v.t # "d" \/ IsNil(b) THEN SetR(eaten, -1) ELSE Change(eaten, op, DSet(v, op.key, b))
       [] op.op = "add" ->
            IF v.t # "l" \/ IsNil(b) THEN SetR(eaten, -1)
            ELSE Change(eaten, op, [v EXCEPT !.k = Append(@, [k |-> "", v |-> b])])
       [] op.op = "del" ->
            IF v.t # "d" \/ KeyAt(v, op.key) = 0 THEN SetR(st, -1)
            ELSE Change(st, op, [v EXCEPT !.k = RemoveAt(@, KeyAt(v, op.key))])
       [] op.op = "rm" ->
            IF v.t # "l" THEN SetR(st, -1)
            ELSE IF op.n > Len(v.k) THEN SetR(st, SKIP)
            ELSE Change(st, op, [v EXCEPT !.k = RemoveAt(@, op.n)])
       [] op.op = "dup" ->
            IF ~IsNil(st.reg[op.b]) THEN SetR(st, SKIP)
            ELSE IF IsNil(v) THEN SetR(st, -1) ELSE [st EXCEPT !.r = 0, !.reg[op.b] = v]
       [] op.op = "cmp" ->
            LET w == At(st.reg[op.b], op.q)
            IN SetR(st, IF ~IsNil(v) /\ ~IsNil(w) /\ Same(v, w) THEN 0 ELSE -1)
       [] op.op = "cnt" -> SetR(st, IF IsNil(v) THEN SKIP ELSE IF v.t \in {"l", "d"} THEN Len(v.k) ELSE -1)
       [] op.op = "get" -> SetR(st, IF v.t = "d" /\ KeyAt(v, op.key) # 0 THEN 0 ELSE -1)
       [] op.op = "val" ->
            SetR(st, IF IsNil(v) THEN SKIP ELSE IF v.t = "d" /\ FitsDict(v, op.sc) THEN 0 ELSE -1)
       [] op.op = "sch" -> SetR(st, IF SchemaOk(op.sc, "d") THEN 0 ELSE -1)
       [] op.op = "rsv" -> SetR(st, IF op.key \in Reserved THEN 1 ELSE 0)
       [] op.op = "free" -> [st EXCEPT !.r = 0, !.reg[op.a] = NIL]

\* lack of memory: nothing changes, but the value that was given is consumed
CFStep(st, op, obs) ==
  IF obs.f > 0 /\ obs.r = -1
  THEN IF op.op \in {"set", "add"} THEN [st EXCEPT !.r = -1, !.reg[op.b] = NIL] ELSE SetR(st, -1)
  ELSE CFDo(st, op)

CFAccept(st, op, obs) ==
  /\ obs.r = st.r
  /\ \A i \in 1..CFRegs : Same(st.reg[i], obs.regs[i])
  /\ (obs.r = -1 /\ op.op # "cmp") => obs.e = 1
  \* in a valid schema, a key finds its own element
  /\ (op.op \in {"sch", "val"} /\ (op.op = "sch" => st.r = 0)) =>
        obs.x = [i \in 1..Len(op.sc) |-> i]
CFExpected(st, op, obs) == [r |-> st.r, regs |-> st.reg]
=============================================================================
