------------------------------- MODULE Murmur -------------------------------
(* MurmurHash3, x86, 32 bits, as published. A word is a sequence of 4 bytes, *)
(* the least significant first (TLC integers are too small for the products).*)
EXTENDS Integers, Sequences, Bitwise

Word(a, b, c, d) == <<d, c, b, a>>       \* written as in hexadecimal
XorW(x, y) == [i \in 1..4 |-> x[i] ^^ y[i]]
\* propagation of the carries, modulo 2^32
Carry(s) == LET c1 == s[1] \div 256
                c2 == (s[2] + c1) \div 256
                c3 == (s[3] + c2) \div 256
            IN <<s[1] % 256, (s[2] + c1) % 256, (s[3] + c2) % 256, (s[4] + c3) % 256>>
AddW(x, y) == Carry([i \in 1..4 |-> x[i] + y[i]])
MulW(x, y) == Carry(<<x[1] * y[1], x[1] * y[2] + x[2] * y[1],
                      x[1] * y[3] + x[2] * y[2] + x[3] * y[1],
                      x[1] * y[4] + x[2] * y[3] + x[3] * y[2] + x[4] * y[1]>>)
\* shift to the right, rotation to the left
ByteAt(x, i) == IF i > 4 THEN 0 ELSE x[i]
ShrW(x, n) == LET q == n \div 8 s == n % 8
              IN [i \in 1..4 |-> (ByteAt(x, i + q) \div 2^s) + ((ByteAt(x, i + q + 1) % 2^s) * 2^(8 - s))]
ShlW(x, n) == LET q == n \div 8 s == n % 8
                  LowAt(i) == IF i < 1 THEN 0 ELSE x[i]
              IN [i \in 1..4 |-> ((LowAt(i - q) * 2^s) % 256) + (LowAt(i - q - 1) \div 2^(8 - s))]
RotlW(x, n) == AddW(ShlW(x, n), ShrW(x, 32 - n))

MixKey(h, k) == XorW(h, MulW(RotlW(MulW(k, Word(204, 158, 45, 81)), 15), Word(27, 135, 53, 147)))
MixHash(h) == AddW(MulW(RotlW(h, 13), Word(0, 0, 0, 5)), Word(230, 84, 107, 100))
Final(h) == LET a == MulW(XorW(h, ShrW(h, 16)), Word(133, 235, 202, 107))
                b == MulW(XorW(a, ShrW(a, 13)), Word(194, 178, 174, 53))
            IN XorW(b, ShrW(b, 16))
RECURSIVE Body(_, _)
Body(h, s) ==
  IF Len(s) >= 4 THEN Body(MixHash(MixKey(h, SubSeq(s, 1, 4))), SubSeq(s, 5, Len(s)))
  ELSE IF s = <<>> THEN h
  ELSE MixKey(h, [i \in 1..4 |-> IF i <= Len(s) THEN s[i] ELSE 0])
\* hash of a sequence of bytes (shorter than 65536)
Murmur3(s, seed) == Final(XorW(Body(seed, s), <<Len(s) % 256, Len(s) \div 256, 0, 0>>))
=============================================================================
