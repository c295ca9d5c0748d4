-------------------------------- MODULE Num --------------------------------
(* 64-bit integers as written by users: parsing, ranges.                    *)
(* TLC integers are 32 bits wide: magnitudes are little-endian sequences of *)
(* limbs in base 10000, without leading zeros; a number is [neg, mag].      *)
EXTENDS Chars

LIMB == 10000

RECURSIVE Strip(_)
Strip(m) == IF m # <<>> /\ m[Len(m)] = 0 THEN Strip(SubSeq(m, 1, Len(m) - 1)) ELSE m

\* m * b + d
RECURSIVE MulAdd(_, _, _)
MulAdd(m, b, d) ==
  IF m = <<>> THEN IF d = 0 THEN <<>> ELSE <<d % LIMB>> \o MulAdd(<<>>, b, d \div LIMB)
  ELSE LET x == Head(m) * b + d
       IN <<x % LIMB>> \o MulAdd(Tail(m), b, x \div LIMB)

RECURSIVE CmpMag(_, _)
CmpMag(a, b) ==
  IF Len(a) # Len(b) THEN IF Len(a) < Len(b) THEN -1 ELSE 1
  ELSE IF a = <<>> THEN 0
  ELSE LET x == a[Len(a)] y == b[Len(b)]
       IN IF x # y THEN IF x < y THEN -1 ELSE 1
          ELSE CmpMag(SubSeq(a, 1, Len(a) - 1), SubSeq(b, 1, Len(b) - 1))

Cmp(x, y) ==
  IF x.mag = <<>> /\ y.mag = <<>> THEN 0
  ELSE IF x.neg # y.neg THEN IF x.neg THEN -1 ELSE 1
  ELSE IF x.neg THEN CmpMag(y.mag, x.mag) ELSE CmpMag(x.mag, y.mag)

\* value of the digits s[i..] in the given base; i of the first non digit
RECURSIVE Digits(_, _, _, _)
Digits(s, i, base, m) ==
  IF i > Len(s) \/ DigitVal(Ch(s, i)) >= base THEN [i |-> i, m |-> Strip(m)]
  ELSE Digits(s, i + 1, base, MulAdd(m, base, DigitVal(Ch(s, i))))

Dec(s) ==   \* a decimal literal, with an optional minus sign
  IF Ch(s, 1) = "-" THEN [neg |-> TRUE, mag |-> Digits(s, 2, 10, <<>>).m]
  ELSE [neg |-> FALSE, mag |-> Digits(s, 1, 10, <<>>).m]

I64MIN == Dec("-9223372036854775808")
I64MAX == Dec("9223372036854775807")
U64MAX == Dec("18446744073709551615")
ZERO == [neg |-> FALSE, mag |-> <<>>]

RECURSIVE SkipSp(_, _)
SkipSp(s, i) == IF i <= Len(s) /\ Ch(s, i) \in Spaces THEN SkipSp(s, i + 1) ELSE i

\* Read a number: optional spaces, optional sign, optional prefix, digits.
\* ok is false when the string is not exactly one number.
ReadNum(s, base) ==
  LET i0 == SkipSp(s, 1)
      sign == IF i0 <= Len(s) /\ Ch(s, i0) \in {"+", "-"} THEN Ch(s, i0) ELSE ""
      i1 == i0 + Len(sign)
      hexp == /\ base \in {0, 16} /\ i1 + 2 <= Len(s) /\ Ch(s, i1) = "0"
              /\ Ch(s, i1 + 1) \in {"x", "X"} /\ DigitVal(Ch(s, i1 + 2)) < 16
      octp == base = 0 /\ i1 <= Len(s) /\ Ch(s, i1) = "0"
      b == IF hexp THEN 16 ELSE IF base # 0 THEN base ELSE IF octp THEN 8 ELSE 10
      start == IF hexp THEN i1 + 2 ELSE i1
      d == Digits(s, start, b, <<>>)
  IN [ok |-> d.i > start /\ d.i > Len(s),
      minus |-> sign = "-",
      v |-> [neg |-> sign = "-", mag |-> d.m]]

\* bounds: decimal strings, "-" when absent. A base is 0 or 2..36.
IntMatch(s, min, max, base) ==
  LET r == ReadNum(s, base)
      lo == IF min = "-" THEN I64MIN ELSE Dec(min)
      hi == IF max = "-" THEN I64MAX ELSE Dec(max)
  IN /\ r.ok /\ Cmp(r.v, I64MIN) >= 0 /\ Cmp(r.v, I64MAX) <= 0
     /\ Cmp(r.v, lo) >= 0 /\ Cmp(r.v, hi) <= 0

UintMatch(s, min, max, base) ==
  LET r == ReadNum(s, base)
      lo == IF min = "-" THEN ZERO ELSE Dec(min)
      hi == IF max = "-" THEN U64MAX ELSE Dec(max)
  IN /\ r.ok /\ ~r.minus /\ Cmp(r.v, U64MAX) <= 0
     /\ Cmp(r.v, lo) >= 0 /\ Cmp(r.v, hi) <= 0

\* the number, when it matches (the sign of zero does not matter)
NumVal(s, base) ==
  LET r == ReadNum(s, base) IN [neg |-> r.v.neg /\ r.v.mag # <<>>, mag |-> r.v.mag]

\* the bounds are accepted by the configuration
BoundsOk(min, max) == min = "-" \/ max = "-" \/ Cmp(Dec(min), Dec(max)) <= 0
=============================================================================
