-------------------------------- MODULE JLex --------------------------------
(* Conformance of the shell lexer: every recorded call gives the words, the  *)
(* missing quote and the error that ShLex defines.                           *)
EXTENDS ShLex, Json, IOUtils

Rec == ndJsonDeserialize(IOEnv.OBS)
NChunks == 64

LongWord(t) == \E i \in 1..Len(t) : Len(t[i]) >= BUFMAX - 1
\* q: flags f (1: strict, 2: trailing space, 4: the quote is not wanted), s, null
Allowed(q, o) ==
  IF q.null THEN o.e = "EINVAL" /\ o.q = "n"
  ELSE LET x == Lex(q.s, q.f % 2 = 1, (q.f \div 2) % 2 = 1)
           quote == IF q.f \div 4 = 1 \/ ~x.un THEN "n" ELSE IF x.q = "" THEN "0" ELSE x.q
       IN \* an implementation may limit the length of a word, then it must tell
          \/ (LongWord(Lex(q.s, FALSE, FALSE).toks) /\ o.e = "ENOBUFS" /\ o.t = <<>>)
          \/ (o.e = x.e /\ o.t = x.toks /\ o.q = quote)

VARIABLES chunk_, rec_
vars == <<chunk_, rec_>>
Init == chunk_ \in 1..NChunks /\ rec_ = chunk_ /\ rec_ <= Len(Rec)
Next == rec_ + NChunks <= Len(Rec) /\ rec_' = rec_ + NChunks /\ chunk_' = chunk_
Spec == Init /\ [][Next]_vars
Conforms ==
  LET r == Rec[rec_] bad == {i \in 1..Len(r.q) : ~Allowed(r.q[i], r.o[i])}
  IN bad = {} \/ LET i == CHOOSE x \in bad : \A y \in bad : x <= y
                 IN PrintT("BAD " \o ToJson([id |-> r.id, q |-> i,
                      expected |-> Lex(r.q[i].s, r.q[i].f % 2 = 1, (r.q[i].f \div 2) % 2 = 1)]))
=============================================================================
