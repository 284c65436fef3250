------------------------------- MODULE Words -------------------------------
(* Bytes, byte strings and machine words.  A word is a sequence of 16-bit    *)
(* limbs, most significant first (two limbs: 32 bits, four limbs: 64 bits),  *)
(* because TLC's own integers end at 2^31.  TLCEval(x) is x; it makes TLC    *)
(* build the value once instead of keeping the expression.                   *)
EXTENDS Integers, Sequences, FiniteSets, Bitwise, TLC

\* F(v), with v evaluated before F is entered (TLC would otherwise carry the expression for v into a recursion)
With(v, F(_)) == IF v = <<>> THEN F(v) ELSE F(v)

Byte == 0..255
Zeros(n) == [i \in 1..n |-> 0]
Fill(n, b) == [i \in 1..n |-> b]
XorS(s, t) == TLCEval([i \in 1..Len(s) |-> s[i] ^^ t[i]])
Take(s, n) == SubSeq(s, 1, IF n < Len(s) THEN n ELSE Len(s))
Drop(s, n) == SubSeq(s, n + 1, Len(s))
LastN(s, n) == SubSeq(s, Len(s) - n + 1, Len(s))
Block(s, n, i) == SubSeq(s, (i - 1) * n + 1, i * n)          \* i-th block of n
MinI(a, b) == IF a < b THEN a ELSE b

\* big-endian increment modulo 256^Len
RECURSIVE IncBE(_)
IncBE(s) ==
  IF s = <<>> THEN <<>>
  ELSE IF s[Len(s)] = 255 THEN Append(IncBE(SubSeq(s, 1, Len(s) - 1)), 0)
  ELSE [s EXCEPT ![Len(s)] = @ + 1]
\* big-endian addition of a natural number
RECURSIVE AddBE(_, _)
AddBE(s, n) ==
  IF s = <<>> \/ n = 0 THEN s
  ELSE LET v == s[Len(s)] + (n % 256) IN
       Append(AddBE(SubSeq(s, 1, Len(s) - 1), n \div 256 + v \div 256), v % 256)
\* n as w big-endian bytes
RECURSIVE NatBE(_, _)
NatBE(n, w) == IF w = 0 THEN <<>> ELSE Append(NatBE(n \div 256, w - 1), n % 256)

XorW(x, y) == TLCEval([i \in DOMAIN x |-> x[i] ^^ y[i]])
AndW(x, y) == TLCEval([i \in DOMAIN x |-> x[i] & y[i]])
OrW(x, y) == TLCEval([i \in DOMAIN x |-> x[i] | y[i]])
NotW(x) == TLCEval([i \in DOMAIN x |-> 65535 - x[i]])
RECURSIVE AddC(_, _, _)
AddC(x, y, c) ==
  IF x = <<>> THEN <<>>
  ELSE LET n == Len(x) v == x[n] + y[n] + c IN
       Append(AddC(SubSeq(x, 1, n - 1), SubSeq(y, 1, n - 1), v \div 65536), v % 65536)
AddW(x, y) == AddC(x, y, 0)
P2(n) == 2 ^ n
Limb(x, i) == IF i < 1 THEN 0 ELSE x[i]
ShrW(x, r) ==
  LET q == r \div 16 b == r % 16 IN
  TLCEval([i \in DOMAIN x |-> (Limb(x, i - q) \div P2(b)) + ((Limb(x, i - q - 1) % P2(b)) * P2(16 - b))])
ShlW(x, r) ==
  LET q == r \div 16 b == r % 16
      L(i) == IF i > Len(x) THEN 0 ELSE x[i] IN
  TLCEval([i \in DOMAIN x |-> ((L(i + q) % P2(16 - b)) * P2(b)) + (L(i + q + 1) \div P2(16 - b))])
RotR(x, r) == OrW(ShrW(x, r), ShlW(x, 16 * Len(x) - r))
RotL(x, r) == OrW(ShlW(x, r), ShrW(x, 16 * Len(x) - r))

\* bytes (big-endian, little-endian) <-> word
WordBE(s) == TLCEval([i \in 1..(Len(s) \div 2) |-> s[2 * i - 1] * 256 + s[2 * i]])
RevSeq(s) == TLCEval([i \in 1..Len(s) |-> s[Len(s) + 1 - i]])
WordLE(s) == WordBE(RevSeq(s))
BytesBE(x) == TLCEval([i \in 1..(2 * Len(x)) |-> IF i % 2 = 1 THEN x[(i + 1) \div 2] \div 256 ELSE x[i \div 2] % 256])
BytesLE(x) == RevSeq(BytesBE(x))
RECURSIVE Concat(_)
Concat(ss) ==
  IF Len(ss) > 16 THEN LET h == Len(ss) \div 2 IN Concat(SubSeq(ss, 1, h)) \o Concat(SubSeq(ss, h + 1, Len(ss)))
  ELSE IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))
=============================================================================
