----------------------------- MODULE HtableAlgo -----------------------------
(* How hash tables are implemented: counted elements, shared between copies, *)
(* each linked in a bucket and in the list of its table; the array of        *)
(* buckets grows by a factor. It must be indistinguishable from Dict,        *)
(* whatever the hash function.                                               *)
EXTENDS Dict, Json

CONSTANTS Keys, Hashes, Factor, MaxElts, Hist, Depth

VARIABLES st, tab, elt, freed, hash, hist, ret
vars == <<st, tab, elt, freed, hash, hist, ret>>
\* tab: slot -> [size, list, b: bucket -> sequence]; elt: [ref, k, v]
Slots == 1..NSlots
Empty == [size |-> 0, list |-> <<>>, b |-> <<>>]
NoTab == [size |-> -1, list |-> <<>>, b |-> <<>>]
Init == /\ st = DBegin(0) /\ tab = [i \in Slots |-> NoTab] /\ elt = <<>> /\ freed = {}
        /\ hash \in [Keys -> Hashes] /\ hist = <<>> /\ ret = [r |-> 0, v |-> 0, e |-> 0]

Live == {i \in Slots : tab[i].size >= 0}
Bucket(t, k) == (hash[k] % t.size) + 1
Lookup(t, k, e) ==
  IF t.size = 0 THEN 0
  ELSE LET b == t.b[Bucket(t, k)]
           hit == {n \in 1..Len(b) : e[b[n]].k = k}
       IN IF hit = {} THEN 0 ELSE b[CHOOSE n \in hit : \A m \in hit : n <= m]
Without(s, x) == LET keep(y) == y # x IN SelectSeq(s, keep)
Unlink(t, x, e) ==
  [t EXCEPT !.list = Without(@, x), !.b[Bucket(t, e[x].k)] = Without(@, x)]
Put(p, x) == LET r == p.e[x].ref - 1 IN
  [e |-> [p.e EXCEPT ![x].ref = r], f |-> IF r = 0 THEN p.f \cup {p.e[x].v} ELSE p.f]
RECURSIVE PutAll(_, _)
PutAll(p, v) == IF v = <<>> THEN p ELSE PutAll(Put(p, Head(v)), Tail(v))
RECURSIVE Rehash(_, _, _)
Rehash(t, l, e) == IF l = <<>> THEN t
                   ELSE Rehash([t EXCEPT !.b[Bucket(t, e[Head(l)].k)] = Append(@, Head(l))], Tail(l), e)
Grow(t, e) ==
  IF Len(t.list) < t.size THEN t
  ELSE LET n == IF t.size = 0 THEN Factor ELSE t.size * Factor
       IN Rehash([size |-> n, list |-> t.list, b |-> [j \in 1..n |-> <<>>]], t.list, e)
\* link element x (not yet in t): [t, e, f]
SetIn(t, x, e, f) ==
  LET old == Lookup(t, e[x].k, e)
      t1 == IF old = 0 THEN t ELSE Unlink(t, old, e)
      p == IF old = 0 THEN [e |-> e, f |-> f] ELSE Put([e |-> e, f |-> f], old)
      t2 == Grow(t1, p.e)
  IN [t |-> [t2 EXCEPT !.list = Append(@, x), !.b[Bucket(t2, e[x].k)] = Append(@, x)],
      e |-> p.e, f |-> p.f]

Do(op, t2, e2, f2, r) ==
  /\ Len(hist) < Depth
  /\ st' = DDo(st, op) /\ tab' = t2 /\ elt' = e2 /\ freed' = f2 /\ ret' = r
  /\ hist' = IF Hist THEN Append(hist, op) ELSE hist
  /\ UNCHANGED hash
R(r, v, e) == [r |-> r, v |-> v, e |-> e]

New(i) == i \notin Live /\ Do([op |-> "new", i |-> i], [tab EXCEPT ![i] = Empty], elt, freed, R(0, 0, 0))
Set(i, k) ==
  /\ i \in Live /\ Len(elt) < MaxElts
  /\ LET x == Len(elt) + 1
         q == SetIn(tab[i], x, Append(elt, [ref |-> 1, k |-> k, v |-> x]), freed)
     IN Do([op |-> "set", i |-> i, k |-> k, v |-> x, own |-> 1, bad |-> FALSE],
           [tab EXCEPT ![i] = q.t], q.e, q.f, R(0, 0, 0))
Get(i, k) ==
  /\ i \in Live
  /\ LET x == Lookup(tab[i], k, elt) IN
     Do([op |-> "get", i |-> i, k |-> k, bad |-> FALSE], tab, elt, freed,
        IF x = 0 THEN R(0, 0, 1) ELSE R(0, elt[x].v, 0))
Del(i, k) ==
  /\ i \in Live
  /\ LET x == Lookup(tab[i], k, elt)
         op == [op |-> "del", i |-> i, k |-> k, bad |-> FALSE]
     IN IF x = 0 THEN Do(op, tab, elt, freed, R(-1, 0, 1))
        ELSE LET p == Put([e |-> elt, f |-> freed], x)
             IN Do(op, [tab EXCEPT ![i] = Unlink(@, x, elt)], p.e, p.f, R(0, 0, 0))
RECURSIVE DupInto(_, _, _)
DupInto(t, l, e) ==
  IF l = <<>> THEN [t |-> t, e |-> e]
  ELSE LET q == SetIn(t, Head(l), [e EXCEPT ![Head(l)].ref = @ + 1], {})
       IN DupInto(q.t, Tail(l), q.e)
Dup(i, j) == /\ i \in Live /\ j \notin Live
             /\ LET q == DupInto(Empty, tab[i].list, elt) IN
                Do([op |-> "dup", i |-> i, j |-> j], [tab EXCEPT ![j] = q.t], q.e, freed, R(0, 0, 0))
Free(i) == /\ i \in Live
           /\ LET p == PutAll([e |-> elt, f |-> freed], tab[i].list) IN
              Do([op |-> "free", i |-> i], [tab EXCEPT ![i] = NoTab], p.e, p.f, R(0, 0, 0))
Next == \E i \in Slots :
          \/ New(i) \/ Free(i)
          \/ \E k \in Keys : Set(i, k) \/ Get(i, k) \/ Del(i, k)
          \/ \E j \in Slots \ {i} : Dup(i, j)
Spec == Init /\ [][Next]_vars

Refines ==
  /\ ret.r = st.r /\ ret.v = st.v /\ ret.e = st.e
  /\ \A i \in Slots :
       /\ (st.slot[i].u = 1) <=> (i \in Live)
       /\ {<<elt[tab[i].list[n]].k, elt[tab[i].list[n]].v>> : n \in 1..Len(tab[i].list)} = Pairs(st.slot[i].m)
       /\ Len(tab[i].list) = Cardinality(DOMAIN st.slot[i].m)
BucketsOk == \A i \in Live : tab[i].size > 0 =>
  /\ SumSeq([b \in 1..tab[i].size |-> Len(tab[i].b[b])]) = Len(tab[i].list)
  /\ \A n \in 1..Len(tab[i].list) :
       LET x == tab[i].list[n] IN elt[x].ref > 0 /\ x \in SetOf(tab[i].b[Bucket(tab[i], elt[x].k)])
Owned == freed = (1..Len(elt)) \ DVals(st)
Emit == (Hist /\ Len(hist) = Depth) => PrintT("HIST " \o ToJson(hist))
=============================================================================
