------------------------------- MODULE ShLex -------------------------------
(* Shell-like lexing of a string: one transition per character.             *)
(*                                                                          *)
(* The state of the lexer is [st, tok, q, ts, out] where st is the lexer    *)
(* mode, tok the current word, q the quote that is open, ts whether the     *)
(* last thing seen is an unquoted space (or nothing), out the finished      *)
(* words.                                                                   *)
EXTENDS Chars

BUFMAX == 8192     \* a word has less than BUFSIZ characters

LexInit == [st |-> "start", tok |-> "", q |-> "", ts |-> TRUE, out |-> <<>>]

LexStep(s, c) ==
  CASE s.st = "start" ->
         LET s1 == [s EXCEPT !.ts = c \in Spaces] IN
         CASE c \in Spaces -> s1
           [] c = "#"  -> [s1 EXCEPT !.st = "comment"]
           [] c = "\"" -> [s1 EXCEPT !.st = "dquote", !.q = c]
           [] c = "'"  -> [s1 EXCEPT !.st = "squote", !.q = c]
           [] c = "\\" -> [s1 EXCEPT !.st = "esc"]
           [] OTHER    -> [s1 EXCEPT !.st = "word", !.tok = c]
    [] s.st = "word" ->
         CASE c \in Spaces -> [st |-> "start", tok |-> "", q |-> "",
                               ts |-> TRUE, out |-> Append(s.out, s.tok)]
           [] c = "\"" -> [s EXCEPT !.st = "dquote", !.q = c]
           [] c = "'"  -> [s EXCEPT !.st = "squote", !.q = c]
           [] c = "\\" -> [s EXCEPT !.st = "esc"]
           [] OTHER    -> [s EXCEPT !.tok = @ \o c]
    [] s.st = "esc"  -> [s EXCEPT !.st = "word", !.tok = @ \o c]
    [] s.st = "escq" -> [s EXCEPT !.st = "dquote", !.tok = @ \o c]
    [] s.st = "dquote" ->
         CASE c = "\"" -> [s EXCEPT !.st = "word", !.q = ""]
           [] c = "\\" -> [s EXCEPT !.st = "escq"]
           [] OTHER    -> [s EXCEPT !.tok = @ \o c]
    [] s.st = "squote" ->
         IF c = "'" THEN [s EXCEPT !.st = "word", !.q = ""]
                    ELSE [s EXCEPT !.tok = @ \o c]
    [] s.st = "comment" ->
         IF c \in {"\n", "\r"} THEN [s EXCEPT !.st = "start"] ELSE s

\* Several steps at once on ordinary characters inside a word (this is only
\* to evaluate faster: LexStep appends each of them to the word).
Special == Spaces \cup {"#", "\"", "'", "\\"}
PlainEnd(str, i) ==
  LET P == {n \in i..Len(str) : Ch(str, n) \in Special}
  IN IF P = {} THEN Len(str) ELSE (CHOOSE n \in P : \A m \in P : n <= m) - 1
RECURSIVE LexRun(_, _, _)
LexRun(s, str, i) ==
  IF i > Len(str) THEN s
  ELSE IF s.st \in {"word", "dquote", "squote"} /\ Ch(str, i) \notin Special
  THEN LET n == PlainEnd(str, i) IN LexRun([s EXCEPT !.tok = @ \o SubSeq(str, i, n)], str, n + 1)
  ELSE LexRun(LexStep(s, Ch(str, i)), str, i + 1)

\* Final state -> result. e: "" or the error; toks: words; q: missing quote
\* (only meaningful when unterminated), un: something is not terminated.
LexEnd(s, strict, trailsp) ==
  LET un == s.st \in {"esc", "escq", "dquote", "squote"}
      inw == un \/ s.st = "word"
  IN IF un /\ strict THEN [e |-> "EBADMSG", toks |-> <<>>, q |-> s.q, un |-> un]
     ELSE [e |-> "", q |-> IF un THEN s.q ELSE "", un |-> un,
           toks |-> IF inw THEN Append(s.out, s.tok)
                    ELSE IF trailsp /\ s.ts THEN Append(s.out, "")
                    ELSE s.out]

Lex(str, strict, trailsp) == LexEnd(LexRun(LexInit, str, 1), strict, trailsp)
=============================================================================
