---------------------------- MODULE ShLexDesign ----------------------------
(* The lexer of ShLex, fed with one character at a time with any string, and *)
(* the properties a user relies on.                                          *)
EXTENDS ShLex

CONSTANTS MaxLen
Alphabet == {"a", " ", "'", "\"", "\\", "#", "\n"}
VARIABLES text, state_
vars == <<text, state_>>
Init == text = "" /\ state_ = LexInit
Type(c) == Len(text) < MaxLen /\ text' = text \o c /\ state_' = LexStep(state_, c)
Next == \E c \in Alphabet : Type(c)
Spec == Init /\ [][Next]_vars

\* a word in single quotes, whatever it holds
RECURSIVE Esc(_)
Esc(w) == IF w = "" THEN "" ELSE (IF Ch(w, 1) = "'" THEN "'\\''" ELSE Ch(w, 1)) \o Esc(From(w, 2))
Quote(w) == "'" \o Esc(w) \o "'"
\* or with backslashes
RECURSIVE Bs(_)
Bs(w) == IF w = "" THEN "" ELSE "\\" \o Ch(w, 1) \o Bs(From(w, 2))

Run(str) == LexRun(LexInit, str, 1)
\* any string can be quoted so that it is read back as one word
QuotingWorks ==
  /\ Lex(Quote(text), TRUE, FALSE).toks = <<text>>
  /\ text # "" => Lex(Bs(text), TRUE, FALSE).toks = <<text>>
  /\ Lex("x " \o Quote(text) \o " y", TRUE, FALSE).toks = <<"x", text, "y">>
\* finished words do not depend on what follows
Prefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Monotone == [][Prefix(state_.out, state_'.out)]_vars
\* strict mode fails exactly when something is not terminated; otherwise both
\* modes agree
StrictAgrees ==
  LET a == LexEnd(state_, TRUE, FALSE) b == LexEnd(state_, FALSE, FALSE)
  IN (a.e # "" <=> b.un) /\ (a.e = "" => a.toks = b.toks) /\ b.e = ""
\* a missing quote can be added: it terminates the string
ClosingWorks ==
  LET b == LexEnd(state_, FALSE, FALSE)
  IN b.q # "" => LET t == IF state_.st = "escq" THEN LexStep(state_, "a") ELSE state_
                     e == LexEnd(LexStep(t, b.q), TRUE, FALSE)
                 IN e.e = "" /\ Len(e.toks) = Len(b.toks)
\* the trailing space flag adds an empty word, or nothing
TrailAgrees ==
  LET a == LexEnd(state_, FALSE, TRUE).toks b == LexEnd(state_, FALSE, FALSE).toks
  IN a = b \/ a = Append(b, "")
=============================================================================
