------------------------------ MODULE Streams ------------------------------
(* Stream ciphers, generators and the remaining byte-wise algorithms:        *)
(* ARC4, Trivium, the AES counter generator, LFSR113, CRCs, base64, affine   *)
(* and Hill ciphers, memxor.  java/Streams.java overrides Arc4Key, Arc4Run,  *)
(* TrivRun and CrcRun; StreamsSelf compares.                                 *)
EXTENDS Cipher

(* ---- ARC4: state <<x, y, s>>, s indexed from 0 via +1 ---- *)
SwapS(s, i, j) == [s EXCEPT ![i + 1] = s[j + 1], ![j + 1] = s[i + 1]]
RECURSIVE Ksa(_, _, _, _)
Ksa(key, s, i, j) ==
  IF i = 256 THEN s
  ELSE LET j1 == (j + s[i + 1] + key[(i % Len(key)) + 1]) % 256 IN
       Ksa(key, TLCEval(SwapS(s, i, j1)), i + 1, TLCEval(j1))
Arc4Key(key) == <<0, 0, Ksa(key, TLCEval([i \in 1..256 |-> i - 1]), 0, 0)>>
RECURSIVE Arc4Steps(_, _, _)
Arc4Steps(st, n, out) ==
  IF n = 0 THEN <<st, out>>
  ELSE LET x == (st[1] + 1) % 256
           y == (st[2] + st[3][x + 1]) % 256
           s == SwapS(st[3], x, y) IN
       Arc4Steps(TLCEval(<<x, y, s>>), n - 1, TLCEval(Append(out, s[((s[x + 1] + s[y + 1]) % 256) + 1])))
\* <<new state, n key stream bytes>>
Arc4Run(st, n) == Arc4Steps(st, n, <<>>)

(* ---- Trivium: three registers of bits, newest first ---- *)
X2(a, b) == (a + b) % 2
TStep(A, B, C) ==
  LET t1 == X2(A[66], A[93]) t2 == X2(B[69], B[84]) t3 == X2(C[66], C[111]) IN
  <<X2(X2(t1, t2), t3),
    <<X2(X2(t3, C[109] * C[110]), A[69])>> \o SubSeq(A, 1, 92),
    <<X2(X2(t1, A[91] * A[92]), B[78])>> \o SubSeq(B, 1, 83),
    <<X2(X2(t2, B[82] * B[83]), C[87])>> \o SubSeq(C, 1, 110)>>
RECURSIVE TSteps(_, _, _)
TSteps(st, n, out) ==
  IF n = 0 THEN <<st, out>>
  ELSE LET r == TLCEval(TStep(st[1], st[2], st[3])) IN
       TSteps(<<r[2], r[3], r[4]>>, n - 1, TLCEval(Append(out, r[1])))
\* key and IV: bit i of byte j is key bit 8j+i+1 (as the library and its eSTREAM vectors load them)
LoadBits(s, n) == [i \in 1..n |-> IF i > 8 * Len(s) THEN 0 ELSE (s[((i - 1) \div 8) + 1] \div P2((i - 1) % 8)) % 2]
TrivInit(key, iv) ==
  TSteps(<<LoadBits(key, 93), LoadBits(iv, 84), [i \in 1..111 |-> IF i > 108 THEN 1 ELSE 0]>>, 1152, <<>>)[1]
\* 32 key stream bits make a word, the first one its most significant bit; words are stored little-endian
TrivBytes(b) == [i \in 1..(Len(b) \div 8) |->
   LET g == (i - 1) \div 4
       v(k) == b[32 * g + 32 - 8 * ((i - 1) % 4) - k] IN
   v(0) + 2 * v(1) + 4 * v(2) + 8 * v(3) + 16 * v(4) + 32 * v(5) + 64 * v(6) + 128 * v(7)]
\* n key stream bytes from byte position pos on
TrivRun(key, iv, pos, n) ==
  LET r == TSteps(TrivInit(key, iv), 32 * ((pos + n + 3) \div 4), <<>>)[2] IN
  TLCEval(SubSeq(TrivBytes(r), pos + 1, pos + n))

(* ---- AES counter generator: key and first counter from the seed ---- *)
PrngKey(seed) == LET s == Take(seed, 16) IN s \o Zeros(16 - Len(s))
PrngCtr(seed) == LET s == SubSeq(seed, 17, MinI(32, Len(seed))) IN s \o Zeros(16 - Len(s))
\* n bytes of the stream from byte position pos on
PrngRun(seed, pos, n) ==
  LET k == PrngKey(seed) c == PrngCtr(seed)
      b0 == pos \div 16
      b1 == (pos + n - 1) \div 16
      all == Concat(TLCEval([i \in 1..(b1 - b0 + 1) |-> AesEnc(k, AddBE(c, b0 + i - 1))])) IN
  IF n = 0 THEN <<>> ELSE SubSeq(all, pos - 16 * b0 + 1, pos - 16 * b0 + n)

(* ---- LFSR113 (L'Ecuyer): four 32-bit components ---- *)
DefaultSeed == <<15070, 26801>>        \* 987654321
RECURSIVE SeedFold(_, _, _)
SeedFold(z, seed, i) ==
  IF Len(seed) > 512 THEN With(TLCEval(SeedFold(z, Take(seed, 512), 1)), LAMBDA y : SeedFold(y, Drop(seed, 512), 1))
  ELSE IF i > Len(seed) THEN z
  ELSE SeedFold(TLCEval([z EXCEPT ![((i - 1) % 16) + 1] = @ ^^ seed[i]]), seed, i + 1)
\* components not above 1, 7, 15 and 127 are replaced (little-endian machine order)
LfsrInit(seed) ==
  LET b == SeedFold(Zeros(16), seed, 1)
      min == <<1, 7, 15, 127>> IN
  TLCEval([i \in 1..4 |-> LET w == WordLE(Block(b, 4, i)) IN
                  IF w[1] = 0 /\ w[2] <= min[i] THEN DefaultSeed ELSE w])
Tausw(z, q, p, mask, s) == LET b == ShrW(XorW(ShlW(z, q), z), p) IN XorW(ShlW(AndW(z, mask), s), b)
LfsrStep(z) == TLCEval(<<Tausw(z[1], 6, 13, <<65535, 65534>>, 18), Tausw(z[2], 2, 27, <<65535, 65528>>, 2),
                         Tausw(z[3], 13, 21, <<65535, 65520>>, 7), Tausw(z[4], 3, 12, <<65535, 65408>>, 13)>>)
LfsrOut(z) == BytesBE(XorW(XorW(z[1], z[2]), XorW(z[3], z[4])))
\* a request takes whole words and drops what is left of the last
RECURSIVE LfsrRun(_, _, _)
LfsrRun(z, n, out) ==
  IF n > 256 THEN LET h == (n \div 8) * 4 IN
                  With(TLCEval(LfsrRun(z, h, <<>>)), LAMBDA a :
                  With(TLCEval(LfsrRun(a[1], n - h, <<>>)), LAMBDA b : <<b[1], out \o a[2] \o b[2]>>))
  ELSE IF n <= 0 THEN <<z, out>>
  ELSE LET z1 == LfsrStep(z) IN LfsrRun(z1, n - 4, TLCEval(out \o Take(LfsrOut(z1), n)))

(* ---- CRC: reflected, bit by bit; register of one or two 16-bit limbs ---- *)
CrcPoly(v) == CASE v = "ccitt" -> <<33800>> [] v = "ibm" -> <<40961>> [] v = "dnp" -> <<42684>>
                [] v = "eth" -> <<60856, 33568>>
CrcStart(v) == CASE v = "ccitt" -> <<65535>> [] v = "ibm" -> <<65535>> [] v = "dnp" -> <<0>> [] v = "eth" -> <<65535, 65535>>
CrcBit(r, poly) == LET s == ShrW(r, 1) IN IF r[Len(r)] % 2 = 1 THEN XorW(s, poly) ELSE s
RECURSIVE CrcBits(_, _, _)
CrcBits(r, poly, n) == IF n = 0 THEN r ELSE CrcBits(TLCEval(CrcBit(r, poly)), poly, n - 1)
RECURSIVE CrcRun(_, _, _)
CrcRun(v, r, m) ==
  IF m = <<>> THEN r
  ELSE CrcRun(v, CrcBits([r EXCEPT ![Len(r)] = @ ^^ Head(m)], CrcPoly(v), 8), Tail(m))

\* 1: the output is complemented, 2: its bytes are swapped
CrcFlags(v) == CASE v = "ccitt" -> 3 [] v = "dnp" -> 3 [] v = "eth" -> 1 [] v = "ibm" -> 0
CrcOut(r, f) ==
  LET b == BytesBE(r)
      c == IF f % 2 = 1 THEN [i \in 1..Len(b) |-> 255 - b[i]] ELSE b IN
  IF (f \div 2) % 2 = 1 THEN [i \in 1..Len(c) |-> c[Len(c) + 1 - i]] ELSE c

(* ---- base64 ---- *)
Alphabet == <<65,66,67,68,69,70,71,72,73,74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,
              97,98,99,100,101,102,103,104,105,106,107,108,109,110,111,112,113,114,115,116,117,118,119,120,121,122,
              48,49,50,51,52,53,54,55,56,57,43,47>>
B64Group(g) ==       \* one to three bytes
  LET b(i) == IF i <= Len(g) THEN g[i] ELSE 0
      n == b(1) * 65536 + b(2) * 256 + b(3)
      c(k) == Alphabet[((n \div (64 ^ (3 - k))) % 64) + 1] IN
  <<c(0), c(1), IF Len(g) > 1 THEN c(2) ELSE 61, IF Len(g) > 2 THEN c(3) ELSE 61>>
RECURSIVE B64Enc(_)
B64Enc(m) == IF Len(m) > 300 THEN LET h == (Len(m) \div 6) * 3 IN B64Enc(Take(m, h)) \o B64Enc(Drop(m, h))
             ELSE IF m = <<>> THEN <<>> ELSE B64Group(Take(m, 3)) \o B64Enc(Drop(m, 3))
InAlphabet(ch) == \E i \in 1..64 : Alphabet[i] = ch
B64Val(ch) == (CHOOSE i \in 1..64 : Alphabet[i] = ch) - 1      \* ch in the alphabet
\* padding only in the last one or two places
B64Pads(t) == IF t = <<>> \/ t[Len(t)] # 61 THEN 0 ELSE IF t[Len(t) - 1] # 61 THEN 1 ELSE 2
B64Valid(t) == /\ Len(t) % 4 = 0
               /\ LET p == B64Pads(t) IN \A i \in 1..(Len(t) - p) : InAlphabet(t[i])
RECURSIVE B64Dec(_)
B64Dec(t) ==      \* of a valid text
  IF Len(t) > 400 THEN LET h == (Len(t) \div 8) * 4 IN B64Dec(Take(t, h)) \o B64Dec(Drop(t, h))
  ELSE IF t = <<>> THEN <<>>
  ELSE LET v(i) == IF t[i] = 61 THEN 0 ELSE B64Val(t[i])
           n == v(1) * 262144 + v(2) * 4096 + v(3) * 64 + v(4)
           all == <<n \div 65536, (n \div 256) % 256, n % 256>>
           k == IF t[3] = 61 THEN 1 ELSE IF t[4] = 61 THEN 2 ELSE 3 IN
       SubSeq(all, 1, k) \o B64Dec(Drop(t, 4))

(* ---- affine and Hill ---- *)
AffMax == 32
AffKey(k) == Take(k, AffMax)
AffOk(ka) == Len(ka) > 0 /\ \A i \in 1..Len(AffKey(ka)) : ka[i] % 2 = 1
KI(k, i) == LET t == AffKey(k) IN t[((i - 1) % Len(t)) + 1]
AffEnc(ka, kb, m) == TLCEval([i \in 1..Len(m) |-> (m[i] * KI(ka, i) + KI(kb, i)) % 256])
InvMod256(a) == CHOOSE x \in 0..255 : (a * x) % 256 = 1
AffDec(ka, kb, m) ==
  LET inv == TLCEval([i \in 1..Len(AffKey(ka)) |-> InvMod256(ka[i])]) IN
  TLCEval([i \in 1..Len(m) |-> ((m[i] + 256 - KI(kb, i)) * KI(inv, i)) % 256])

\* the largest square number of key bytes, at most 100
HillN(len) == CHOOSE n \in 0..10 : n * n <= len /\ (n = 10 \/ (n + 1) * (n + 1) > len)
HillMul(key, n, v) == TLCEval([i \in 1..n |->
   LET S[j \in 0..n] == IF j = 0 THEN 0 ELSE (S[j - 1] + key[(i - 1) * n + j] * v[j]) % 256 IN S[n]])
\* the data is extended with zeros to whole blocks
RECURSIVE HillRun(_, _, _)
HillRun(key, n, m) ==
  IF Len(m) > 512 THEN LET h == (Len(m) \div (2 * n)) * n IN HillRun(key, n, Take(m, h)) \o HillRun(key, n, Drop(m, h))
  ELSE IF m = <<>> THEN <<>>
  ELSE LET b == Take(m, n) IN HillMul(key, n, b \o Zeros(n - Len(b))) \o HillRun(key, n, Drop(m, n))
\* b is the inverse of a modulo 256
HillInverse(a, b, n) ==
  \A i \in 1..n : HillMul(a, n, [j \in 1..n |-> b[(j - 1) * n + i]]) = [j \in 1..n |-> IF i = j THEN 1 ELSE 0]
\* the determinant modulo 2, by elimination: a key is usable iff it is odd
RECURSIVE Odd(_, _)
Odd(rows, n) ==       \* rows of bits
  IF n = 0 THEN TRUE
  ELSE LET piv == {i \in 1..Len(rows) : rows[i][1] = 1} IN
       IF piv = {} THEN FALSE
       ELSE LET p == CHOOSE i \in piv : TRUE
                rest == SelectSeq([i \in 1..Len(rows) |-> IF i = p THEN <<>>
                           ELSE IF rows[i][1] = 1 THEN [j \in 1..(n - 1) |-> X2(rows[i][j + 1], rows[p][j + 1])]
                           ELSE [j \in 1..(n - 1) |-> rows[i][j + 1]]], LAMBDA r : TRUE)
                kept == TLCEval(SubSeq(rest, 1, p - 1) \o SubSeq(rest, p + 1, Len(rest))) IN
            Odd(kept, n - 1)
HillUsable(key, n) == Odd([i \in 1..n |-> [j \in 1..n |-> key[(i - 1) * n + j] % 2]], n)

(* ---- memxor on an arena; offsets from 0 ---- *)
XorAt(mem, d, s1, s2, n) ==
  TLCEval([i \in 1..Len(mem) |-> IF i > d /\ i <= d + n THEN mem[s1 + i - d] ^^ mem[s2 + i - d] ELSE mem[i]])
=============================================================================
