----------------------------- MODULE StrvecAlgo -----------------------------
(* How vectors of strings are implemented: the elements are shared between   *)
(* copies and counted; setting the attributes of a shared element makes a    *)
(* private copy first. It must be indistinguishable from Strvec. With Hist,  *)
(* every history of Depth operations is printed, to be executed for real.    *)
EXTENDS Strvec, Json

CONSTANTS Strs, MaxLen, MaxElts, MaxAttr, Hist, Depth

VARIABLES st,       \* the abstract vectors (Strvec)
          vec,      \* slot -> 0 or sequence of elements
          elt,      \* element -> [ref, s, a]; ref = 0: freed
          freed,    \* attributes that were freed
          nattr, hist
vars == <<st, vec, elt, freed, nattr, hist>>

Slots == 1..NSlots
NoVec == <<-1>>
Init == /\ st = SVBegin(0) /\ vec = [i \in Slots |-> NoVec] /\ elt = <<>>
        /\ freed = {} /\ nattr = 0 /\ hist = <<>>

NewElt(e, str, a) == Append(e, [ref |-> 1, s |-> str, a |-> a])
\* release one reference: [e, f]
Put(p, x) == LET e == p.e r == e[x].ref - 1 IN
  [e |-> [e EXCEPT ![x].ref = r],
   f |-> IF r = 0 /\ e[x].a # 0 THEN p.f \cup {e[x].a} ELSE p.f]
RECURSIVE PutAll(_, _)
PutAll(p, v) == IF v = <<>> THEN p ELSE PutAll(Put(p, Head(v)), Tail(v))
RECURSIVE RefAll(_, _)
RefAll(e, v) == IF v = <<>> THEN e ELSE RefAll([e EXCEPT ![Head(v)].ref = @ + 1], Tail(v))

Live == {i \in Slots : vec[i] # NoVec}
Do(op, v2, e2, f2) ==
  /\ Len(hist) < Depth
  /\ st' = SVDo(st, op, [S |-> <<>>])
  /\ vec' = v2 /\ elt' = e2 /\ freed' = f2
  /\ hist' = IF Hist THEN Append(hist, op) ELSE hist

New(i) == /\ i \notin Live
          /\ Do([op |-> "new", i |-> i], [vec EXCEPT ![i] = <<>>], elt, freed)
          /\ UNCHANGED nattr
Add(i, x) == /\ i \in Live /\ Len(vec[i]) < MaxLen /\ Len(elt) < MaxElts
             /\ Do([op |-> "add", i |-> i, s |-> x, null |-> FALSE],
                   [vec EXCEPT ![i] = Append(@, Len(elt) + 1)], NewElt(elt, x, 0), freed)
             /\ UNCHANGED nattr
Set(i, n, x) ==
  /\ i \in Live /\ n <= Len(vec[i]) /\ Len(elt) < MaxElts
  /\ LET p == Put([e |-> NewElt(elt, x, 0), f |-> freed], vec[i][n]) IN
     Do([op |-> "set", i |-> i, idx |-> n - 1, s |-> x, null |-> FALSE],
        [vec EXCEPT ![i][n] = Len(elt) + 1], p.e, p.f)
  /\ UNCHANGED nattr
Del(i) == /\ i \in Live /\ vec[i] # <<>>
          /\ LET p == Put([e |-> elt, f |-> freed], vec[i][Len(vec[i])]) IN
             Do([op |-> "del", i |-> i], [vec EXCEPT ![i] = SubSeq(@, 1, Len(@) - 1)], p.e, p.f)
          /\ UNCHANGED nattr
Ndup(i, j, off, len) ==
  /\ i \in Live /\ j \notin Live /\ off + len <= Len(vec[i])
  /\ LET v == SubSeq(vec[i], off + 1, off + len) IN
     Do([op |-> "ndup", i |-> i, j |-> j, off |-> off, len |-> len],
        [vec EXCEPT ![j] = v], RefAll(elt, v), freed)
  /\ UNCHANGED nattr
Free(i) == /\ i \in Live
           /\ LET p == PutAll([e |-> elt, f |-> freed], vec[i]) IN
              Do([op |-> "free", i |-> i], [vec EXCEPT ![i] = NoVec], p.e, p.f)
           /\ UNCHANGED nattr
Attr(i, n) ==
  /\ i \in Live /\ n <= Len(vec[i]) /\ nattr < MaxAttr /\ Len(elt) < MaxElts
  /\ nattr' = nattr + 1
  /\ LET x == vec[i][n]
         op == [op |-> "attr", i |-> i, idx |-> n - 1, a |-> nattr + 1]
     IN IF elt[x].ref > 1
        THEN Do(op, [vec EXCEPT ![i][n] = Len(elt) + 1],
                NewElt([elt EXCEPT ![x].ref = @ - 1], elt[x].s, nattr + 1), freed)
        ELSE Do(op, vec, [elt EXCEPT ![x].a = nattr + 1],
                IF elt[x].a # 0 THEN freed \cup {elt[x].a} ELSE freed)
Next == \E i \in Slots :
          \/ New(i) \/ Del(i) \/ Free(i)
          \/ \E x \in Strs : Add(i, x) \/ (\E n \in 1..MaxLen : Set(i, n, x))
          \/ \E n \in 1..MaxLen : Attr(i, n)
          \/ \E j \in Slots \ {i} : \E off, len \in 0..MaxLen : Ndup(i, j, off, len)
Spec == Init /\ [][Next]_vars

\* the implementation is a refinement
Refines ==
  \A i \in Slots :
    st.slot[i] = IF vec[i] = NoVec THEN SVNone
                 ELSE [u |-> 1, v |-> [n \in 1..Len(vec[i]) |-> SVElt(elt[vec[i][n]].s, elt[vec[i][n]].a)]]
NoUseAfterFree == \A i \in Live : \A n \in 1..Len(vec[i]) : elt[vec[i][n]].ref > 0
Counted == \A x \in 1..Len(elt) :
  elt[x].ref = Cardinality({<<i, n>> \in Live \X (1..MaxLen) : n <= Len(vec[i]) /\ vec[i][n] = x})
AttrOwned == freed = (1..nattr) \ SVLive(st)
Emit == (Hist /\ Len(hist) = Depth) => PrintT("HIST " \o ToJson(hist))
=============================================================================
