------------------------------- MODULE Chars -------------------------------
(* Helpers on strings and sequences.                                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Ch(s, i) == SubSeq(s, i, i)              \* 1-character substring
From(s, i) == SubSeq(s, i, Len(s))       \* suffix starting at i (1-based)
StartsWith(s, p) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p

Spaces == {" ", "\t", "\n", "\f", "\r"}
DigitChars == "0123456789abcdefghijklmnopqrstuvwxyz"
UpperChars == "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ"

\* value of a digit character, 99 if it is not a digit nor a letter
DigitTable ==
  [c \in {Ch(DigitChars, i) : i \in 1..36} \cup {Ch(UpperChars, i) : i \in 1..36} |->
     (CHOOSE i \in 1..36 : Ch(DigitChars, i) = c \/ Ch(UpperChars, i) = c) - 1]
DigitVal(c) == IF c \in DOMAIN DigitTable THEN DigitTable[c] ELSE 99

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))

RECURSIVE FlatSeq(_)
FlatSeq(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o FlatSeq(Tail(s))

\* order of the characters (printable ASCII) and of the strings, as in strcmp
Ascii == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
OrdTable == [c \in {Ch(Ascii, i) : i \in 1..95} |-> CHOOSE i \in 1..95 : Ch(Ascii, i) = c]
RECURSIVE StrLe(_, _)
StrLe(x, y) ==
  IF x = "" THEN TRUE
  ELSE IF y = "" THEN FALSE
  ELSE IF Ch(x, 1) # Ch(y, 1) THEN OrdTable[Ch(x, 1)] < OrdTable[Ch(y, 1)]
  ELSE StrLe(From(x, 2), From(y, 2))

\* operations on slots: is this one possible? (a history may go on after an
\* operation that failed for lack of memory)
Possible(slot, op) ==
  IF op.op \in {"new", "from"} THEN slot[op.i].u = 0
  ELSE /\ slot[op.i].u = 1
       /\ op.op \in {"dup", "ndup"} => slot[op.j].u = 0
       /\ op.op = "cmp" => slot[op.j].u = 1

RemoveAt(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
SetOf(s) == {s[i] : i \in 1..Len(s)}
=============================================================================
