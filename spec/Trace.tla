------------------------------- MODULE Trace -------------------------------
(* Conformance of recorded histories: each record of the file OBS is a       *)
(* history of operations q with what was observed after each of them, o.     *)
(* The model makes the same steps; every observation must be one it allows.  *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

CONSTANTS Begin(_),         \* record -> initial state of the model
          Step(_, _, _),    \* state, operation, observation -> next state
          Accept(_, _, _),  \* next state, operation, observation -> allowed?
          Expected(_, _, _) \* what is reported when it is not

Rec == ndJsonDeserialize(IOEnv.OBS)
NChunks == 64

\* (names that no operator uses for its parameters: TLC would not evaluate the
\* constants in advance)
VARIABLES chunk_, rec_, step_, state_
vars == <<chunk_, rec_, step_, state_>>

Init == /\ chunk_ \in 1..NChunks /\ rec_ = chunk_ /\ rec_ <= Len(Rec) /\ step_ = 0
        /\ state_ = <<"ok", Begin(Rec[chunk_])>>
Advance(q, o) ==
  IF state_[1] = "bad" THEN state_
  ELSE LET t == TLCEval(Step(state_[2], q, o))
       IN IF Accept(t, q, o) THEN <<"ok", t>>
          ELSE <<"bad", [id |-> Rec[rec_].id, step |-> step_ + 1, expected |-> Expected(t, q, o)]>>
Next == /\ chunk_' = chunk_
        /\ IF step_ < Len(Rec[rec_].q)
           THEN rec_' = rec_ /\ step_' = step_ + 1 /\ state_' = Advance(Rec[rec_].q[step_ + 1], Rec[rec_].o[step_ + 1])
           ELSE /\ rec_ + NChunks <= Len(Rec)
                /\ rec_' = rec_ + NChunks /\ step_' = 0 /\ state_' = <<"ok", Begin(Rec[rec_ + NChunks])>>
Spec == Init /\ [][Next]_vars

Conforms == state_[1] = "ok" \/ PrintT("BAD " \o ToJson(state_[2]))
=============================================================================
