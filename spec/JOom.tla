-------------------------------- MODULE JOom --------------------------------
(* Memory that runs out: each operation was tried with every allocation that *)
(* it makes failing in turn. Its outcome is the one of the Grammar module,   *)
(* or an error that changes nothing and loses nothing:                       *)
(*  ON: creation of node n      OA: change of the grammar                    *)
(*  OQ: request q, with the answer without failure and the other ones        *)
EXTENDS GrammarView

Rec == ndJsonDeserialize(IOEnv.OBS)
NChunks == 64

IsError(q, o) == CASE q.op = "P" -> o.r = "err"
                   [] q.op = "L" -> o.c.r = "err"
                   [] q.op = "EV" -> o.r \in {"err", "noparse"} /\ o.lost = 0
                   [] OTHER -> FALSE
Allowed(g, q, o) ==
  /\ o.mute = 0
  \* a node may keep the room it made for its operators until it is freed: what
  \* a change really loses is seen when the whole grammar is freed
  /\ q.op # "OA" => o.leak = 0
  /\ CASE q.op = "ON" -> Len(o.all) = 1 /\ (o.ok = 1) = NodeOk(g[q.n])
       [] q.op = "OA" -> o.same = 1 /\ o.ok = 1
       [] q.op = "OQ" ->
            /\ o.same = 1
            /\ LET e == Exp1(g, q.q)
               IN /\ Seen1(q.q, o.first) = e
                  /\ \A i \in 1..Len(o.all) : IsError(q.q, o.all[i]) \/ Seen1(q.q, o.all[i]) = e
Should(g, q) == IF q.op = "OQ" THEN Exp1(g, q.q) ELSE [r |-> "the same thing or an error"]

VARIABLES chunk_, rec_
vars == <<chunk_, rec_>>
Init == /\ chunk_ \in 1..NChunks
        /\ rec_ = chunk_
        /\ rec_ <= Len(Rec)
Next == rec_ + NChunks <= Len(Rec) /\ rec_' = rec_ + NChunks /\ chunk_' = chunk_

Conforms ==
  LET r == Rec[rec_]
      bad == {i \in 1..Len(r.q) : ~Allowed(r.g, r.q[i], r.o[i])}
  IN IF bad = {} THEN TRUE
     ELSE LET i == CHOOSE x \in bad : \A y \in bad : x <= y
          IN PrintT("BAD " \o ToJson([id |-> r.id, q |-> i, expected |-> Should(r.g, r.q[i])]))
Spec == Init /\ [][Next]_vars
=============================================================================
