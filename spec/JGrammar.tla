------------------------------ MODULE JGrammar ------------------------------
(* Conformance: each recorded case holds a grammar and a list of parse and   *)
(* completion requests with what the implementation answered. Every answer   *)
(* must be the one that the Grammar module defines.                          *)
EXTENDS GrammarView

Rec == ndJsonDeserialize(IOEnv.OBS)
NChunks == 64

VARIABLES chunk_, rec_
vars == <<chunk_, rec_>>
Init == /\ chunk_ \in 1..NChunks
        /\ rec_ = chunk_
        /\ rec_ <= Len(Rec)
Next == rec_ + NChunks <= Len(Rec) /\ rec_' = rec_ + NChunks /\ chunk_' = chunk_

Conforms ==
  LET r == Rec[rec_]
      bad == {i \in 1..Len(r.q) : Exp1(r.g, r.q[i]) # Seen1(r.q[i], r.o[i])}
  IN IF bad = {} THEN TRUE
     ELSE LET i == CHOOSE x \in bad : \A y \in bad : x <= y
          IN PrintT("BAD " \o ToJson([id |-> r.id, q |-> i, expected |-> Exp1(r.g, r.q[i])]))
Spec == Init /\ [][Next]_vars
=============================================================================
