------------------------------ MODULE JNodeRef ------------------------------
(* Conformance of recorded histories with NodeRef: after each operation, the *)
(* nodes that are alive and their children are the ones of the model.        *)
EXTENDS NodeRef, Json, IOUtils, TLC

Rec == ndJsonDeserialize(IOEnv.OBS)
NChunks == 64

VARIABLES chunk_, rec_, step_, state_
vars == <<chunk_, rec_, step_, state_>>

Start(i) == /\ rec_' = i /\ step_' = 0 /\ state_' = NR0(Rec[i].n)
Init == /\ chunk_ \in 1..NChunks /\ rec_ = chunk_ /\ rec_ <= Len(Rec) /\ step_ = 0
        /\ state_ = NR0(Rec[chunk_].n)
Next == /\ chunk_' = chunk_
        /\ IF step_ < Len(Rec[rec_].q)
           THEN rec_' = rec_ /\ step_' = step_ + 1 /\ state_' = NRStep(state_, Rec[rec_].q[step_ + 1])
           ELSE rec_ + NChunks <= Len(Rec) /\ Start(rec_ + NChunks)
Spec == Init /\ [][Next]_vars

\* the nodes created so far
SetOf(x) == {x[i] : i \in 1..Len(x)}
Same(kind, x, y) == IF kind \in {"cmd", "expr"} THEN SetOf(x) = SetOf(y) \ {0} ELSE x = y
Conforms ==
  step_ = 0 \/
  LET r == Rec[rec_] o == r.o[step_] v == NRView(state_)
  IN IF /\ SetOf(o.alive) = v.alive
        /\ Len(o.kids) <= r.n
        /\ \A i \in 1..Len(o.kids) : Same(r.kind[i], v.kids[i], o.kids[i])
     THEN TRUE
     ELSE PrintT("BAD " \o ToJson([id |-> r.id, step |-> step_, expected |-> v]))
=============================================================================
