------------------------------- MODULE Regex -------------------------------
(* Regular expressions as syntax trees; matching by sets of end positions.  *)
(*  [o |-> "c", s]        one of the characters of s                        *)
(*  [o |-> "n", s]        any character not in s                            *)
(*  [o |-> "."]           any character                                     *)
(*  [o |-> "cat", k]      concatenation       [o |-> "alt", k] alternation  *)
(*  [o |-> "^"]  [o |-> "$"]   start and end of the string                 *)
(*  [o |-> "*", k]  [o |-> "+", k]  [o |-> "?", k]   repetitions            *)
EXTENDS Chars

InStr(c, s) == \E i \in 1..Len(s) : Ch(s, i) = c

\* end positions (index of the next character) of the matches of r in str
\* that start at one of the positions P
RECURSIVE Ends(_, _, _), CatEnds(_, _, _, _), StarEnds(_, _, _)
Ends(r, str, P) ==
  CASE r.o = "c" -> {p + 1 : p \in {q \in P : q <= Len(str) /\ InStr(Ch(str, q), r.s)}}
    [] r.o = "n" -> {p + 1 : p \in {q \in P : q <= Len(str) /\ ~InStr(Ch(str, q), r.s)}}
    [] r.o = "." -> {p + 1 : p \in {q \in P : q <= Len(str)}}
    [] r.o = "^" -> P \cap {1}
    [] r.o = "$" -> P \cap {Len(str) + 1}
    [] r.o = "cat" -> CatEnds(r.k, str, P, 1)
    [] r.o = "alt" -> UNION {Ends(r.k[i], str, P) : i \in 1..Len(r.k)}
    [] r.o = "*" -> StarEnds(r.k[1], str, P)
    [] r.o = "+" -> StarEnds(r.k[1], str, Ends(r.k[1], str, P))
    [] r.o = "?" -> P \cup Ends(r.k[1], str, P)
CatEnds(k, str, P, i) ==
  IF i > Len(k) \/ P = {} THEN P ELSE CatEnds(k, str, Ends(k[i], str, P), i + 1)
StarEnds(r, str, P) ==
  LET Q == P \cup Ends(r, str, P) IN IF Q = P THEN P ELSE StarEnds(r, str, Q)

FullMatch(r, str) == (Len(str) + 1) \in Ends(r, str, {1})

\* length of the longest match at the start of str: 0 if none or empty
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
Longest(r, str) ==
  LET E == Ends(r, str, {1}) IN IF E = {} THEN 0 ELSE MaxOf(E) - 1

\* Tokenization: at each position the first pattern with a non-empty match
\* wins, with its longest match. Patterns: [re, keep, attr]. What is before
\* the position is not seen by the pattern: "^" matches there.
RECURSIVE ReLex(_, _, _)
ReLex(pats, str, out) ==
  IF str = "" THEN [e |-> FALSE, toks |-> out]
  ELSE LET I == {i \in 1..Len(pats) : Longest(pats[i].re, str) > 0}
       IN IF I = {} THEN [e |-> TRUE, toks |-> <<>>]
          ELSE LET i == CHOOSE x \in I : \A y \in I : x <= y
                   n == Longest(pats[i].re, str)
                   out2 == IF pats[i].keep = 1
                           THEN Append(out, [s |-> SubSeq(str, 1, n), a |-> pats[i].attr])
                           ELSE out
               IN ReLex(pats, SubSeq(str, n + 1, Len(str)), out2)
=============================================================================
