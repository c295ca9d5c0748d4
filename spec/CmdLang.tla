------------------------------ MODULE CmdLang ------------------------------
(* The command string language of "cmd" nodes.                              *)
(*   words [a-zA-Z0-9_-]+, symbols + * | , ( ) [ ], blanks are dropped      *)
(* Binding, tightest first: suffixes "*" and "+", then ",", then "|", then  *)
(* juxtaposition; everything groups from the left, and a left operand that  *)
(* is itself of the same kind is extended instead of being nested.          *)
EXTENDS Chars

WordChar(c) == DigitVal(c) < 99 \/ c \in {"_", "-"}
Symbols == {"+", "*", "|", ",", "(", ")", "[", "]"}
Blanks == {" ", "\t"}

RECURSIVE WordEnd(_, _)
WordEnd(s, i) == IF i <= Len(s) /\ WordChar(Ch(s, i)) THEN WordEnd(s, i + 1) ELSE i

RECURSIVE CmdToks(_, _, _)
CmdToks(s, i, out) ==
  IF i > Len(s) THEN [ok |-> TRUE, t |-> out]
  ELSE LET c == Ch(s, i) IN
       IF WordChar(c) THEN
         LET e == WordEnd(s, i) IN CmdToks(s, e, Append(out, [w |-> TRUE, s |-> SubSeq(s, i, e - 1)]))
       ELSE IF c \in Symbols THEN CmdToks(s, i + 1, Append(out, [w |-> FALSE, s |-> c]))
       ELSE IF c \in Blanks THEN CmdToks(s, i + 1, out)
       ELSE [ok |-> FALSE, t |-> <<>>]

IsSym(t, i, c) == i <= Len(t) /\ ~t[i].w /\ t[i].s = c

Ast(o, s, k) == [o |-> o, s |-> s, k |-> k]
Join(o, a, b) == IF a.o = o THEN Ast(o, "", Append(a.k, b)) ELSE Ast(o, "", <<a, b>>)

\* every parser returns [ok, i, a]: success, next token, syntax tree
Fail == [ok |-> FALSE, i |-> 0, a |-> <<>>]
RECURSIVE PSeq(_, _), POr(_, _), PSub(_, _), PTerm(_, _)
RECURSIVE PSeqL(_, _, _), POrL(_, _, _), PSubL(_, _, _), PTermL(_, _, _)

PTerm(t, i) ==
  IF i > Len(t) THEN Fail
  ELSE IF t[i].w THEN PTermL(t, i + 1, Ast("id", t[i].s, <<>>))
  ELSE IF t[i].s \in {"(", "["} THEN
    LET close == IF t[i].s = "(" THEN ")" ELSE "]"
        r == PSeq(t, i + 1)
    IN IF ~r.ok \/ ~IsSym(t, r.i, close) THEN Fail
       ELSE PTermL(t, r.i + 1, IF close = ")" THEN r.a ELSE Ast("option", "", <<r.a>>))
  ELSE Fail
PTermL(t, i, a) ==
  IF IsSym(t, i, "*") THEN PTermL(t, i + 1, Ast("many", "0", <<a>>))
  ELSE IF IsSym(t, i, "+") THEN PTermL(t, i + 1, Ast("many", "1", <<a>>))
  ELSE [ok |-> TRUE, i |-> i, a |-> a]

PSub(t, i) == LET r == PTerm(t, i) IN IF r.ok THEN PSubL(t, r.i, r.a) ELSE Fail
PSubL(t, i, a) ==
  LET r == IF IsSym(t, i, ",") THEN PTerm(t, i + 1) ELSE Fail
  IN IF r.ok THEN PSubL(t, r.i, Join("subset", a, r.a)) ELSE [ok |-> TRUE, i |-> i, a |-> a]

POr(t, i) == LET r == PSub(t, i) IN IF r.ok THEN POrL(t, r.i, r.a) ELSE Fail
POrL(t, i, a) ==
  LET r == IF IsSym(t, i, "|") THEN PSub(t, i + 1) ELSE Fail
  IN IF r.ok THEN POrL(t, r.i, Join("or", a, r.a)) ELSE [ok |-> TRUE, i |-> i, a |-> a]

PSeq(t, i) == LET r == POr(t, i) IN IF r.ok THEN PSeqL(t, r.i, r.a) ELSE Fail
PSeqL(t, i, a) ==
  LET r == POr(t, i)
  IN IF r.ok THEN PSeqL(t, r.i, Join("seq", a, r.a)) ELSE [ok |-> TRUE, i |-> i, a |-> a]

\* the syntax tree of a command string
CmdParse(s) ==
  LET tk == CmdToks(s, 1, <<>>)
      r == IF tk.ok /\ tk.t # <<>> THEN PSeq(tk.t, 1) ELSE Fail
  IN IF r.ok /\ r.i = Len(tk.t) + 1 THEN [ok |-> TRUE, a |-> r.a]
     ELSE [ok |-> FALSE, a |-> <<>>]
=============================================================================
