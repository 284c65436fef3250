------------------------------- MODULE Cipher -------------------------------
(* Block ciphers as functions of key and block: AES (FIPS 197), DES and      *)
(* three-key triple DES (FIPS 46-3), and two toy ciphers which stand for     *)
(* "any cipher plugged in" (the harness plugs the same toys into the real    *)
(* modes).  java/Cipher.java overrides AesEnc .. TdesDec; CipherSelf         *)
(* compares.                                                                  *)
EXTENDS Words

(* ---- AES: arithmetic of GF(2^8) modulo x^8+x^4+x^3+x+1 ---- *)
XTime(a) == IF a >= 128 THEN ((2 * a) % 256) ^^ 27 ELSE 2 * a
RECURSIVE GMul(_, _)
GMul(a, b) == IF b = 0 THEN 0 ELSE (IF b % 2 = 1 THEN a ELSE 0) ^^ GMul(XTime(a), b \div 2)
RECURSIVE GPow(_, _)
GPow(a, n) == IF n = 0 THEN 1
              ELSE LET h == GPow(GMul(a, a), n \div 2) IN IF n % 2 = 1 THEN GMul(a, h) ELSE h
RotB(a, n) == ((a * P2(n)) % 256) + (a \div P2(8 - n))
SubByte(x) == LET i == GPow(x, 254) IN ((i ^^ RotB(i, 1)) ^^ (RotB(i, 2) ^^ RotB(i, 3))) ^^ (RotB(i, 4) ^^ 99)
\* the tables of SubByte and its inverse, indexed from 1 (CipherSelf checks that they are)
SBox == <<
   99,124,119,123,242,107,111,197,48,1,103,43,254,215,171,118,202,130,201,125,250,89,71,240,173,212,162,175,156,164,114,192,
   183,253,147,38,54,63,247,204,52,165,229,241,113,216,49,21,4,199,35,195,24,150,5,154,7,18,128,226,235,39,178,117,
   9,131,44,26,27,110,90,160,82,59,214,179,41,227,47,132,83,209,0,237,32,252,177,91,106,203,190,57,74,76,88,207,
   208,239,170,251,67,77,51,133,69,249,2,127,80,60,159,168,81,163,64,143,146,157,56,245,188,182,218,33,16,255,243,210,
   205,12,19,236,95,151,68,23,196,167,126,61,100,93,25,115,96,129,79,220,34,42,144,136,70,238,184,20,222,94,11,219,
   224,50,58,10,73,6,36,92,194,211,172,98,145,149,228,121,231,200,55,109,141,213,78,169,108,86,244,234,101,122,174,8,
   186,120,37,46,28,166,180,198,232,221,116,31,75,189,139,138,112,62,181,102,72,3,246,14,97,53,87,185,134,193,29,158,
   225,248,152,17,105,217,142,148,155,30,135,233,206,85,40,223,140,161,137,13,191,230,66,104,65,153,45,15,176,84,187,22 >>
InvSBox == <<
   82,9,106,213,48,54,165,56,191,64,163,158,129,243,215,251,124,227,57,130,155,47,255,135,52,142,67,68,196,222,233,203,
   84,123,148,50,166,194,35,61,238,76,149,11,66,250,195,78,8,46,161,102,40,217,36,178,118,91,162,73,109,139,209,37,
   114,248,246,100,134,104,152,22,212,164,92,204,93,101,182,146,108,112,72,80,253,237,185,218,94,21,70,87,167,141,157,132,
   144,216,171,0,140,188,211,10,247,228,88,5,184,179,69,6,208,44,30,143,202,63,15,2,193,175,189,3,1,19,138,107,
   58,145,17,65,79,103,220,234,151,242,207,206,240,180,230,115,150,172,116,34,231,173,53,133,226,249,55,232,28,117,223,110,
   71,241,26,113,29,41,197,137,111,183,98,14,170,24,190,27,252,86,62,75,198,210,121,32,154,219,192,254,120,205,90,244,
   31,221,168,51,136,7,199,49,177,18,16,89,39,128,236,95,96,81,127,169,25,181,74,13,45,229,122,159,147,201,156,239,
   160,224,59,77,174,42,245,176,200,235,187,60,131,83,153,97,23,43,4,126,186,119,214,38,225,105,20,99,85,33,12,125 >>

\* the key schedule: a sequence of four-byte words
RECURSIVE RCon(_)
RCon(i) == IF i = 1 THEN 1 ELSE XTime(RCon(i - 1))
SubWord(w) == TLCEval([i \in 1..4 |-> SBox[w[i] + 1]])
RotWord(w) == <<w[2], w[3], w[4], w[1]>>
RECURSIVE Expand(_, _)
Expand(w, nk) ==
  IF Len(w) = 4 * (nk + 7) THEN w
  ELSE LET i == Len(w)
           t == w[i]
           u == IF i % nk = 0 THEN XorS(SubWord(RotWord(t)), <<RCon(i \div nk), 0, 0, 0>>)
                ELSE IF nk > 6 /\ i % nk = 4 THEN SubWord(t) ELSE t IN
       Expand(Append(w, XorS(w[i + 1 - nk], u)), nk)
AesKeys(key) == Expand([i \in 1..(Len(key) \div 4) |-> Block(key, 4, i)], Len(key) \div 4)
RoundKey(w, r) == w[4 * r + 1] \o w[4 * r + 2] \o w[4 * r + 3] \o w[4 * r + 4]
\* byte 4c+r (from 0) is row r, column c
ShiftRows(s) == TLCEval([i \in 1..16 |-> LET r == (i - 1) % 4 c == (i - 1) \div 4 IN s[4 * ((c + r) % 4) + r + 1]])
InvShiftRows(s) == TLCEval([i \in 1..16 |-> LET r == (i - 1) % 4 c == (i - 1) \div 4 IN s[4 * ((c + 4 - r) % 4) + r + 1]])
MixWith(s, m) ==
  TLCEval([i \in 1..16 |-> LET r == (i - 1) % 4 c == (i - 1) \div 4
                               T(k) == GMul(s[4 * c + k + 1], m[((k + 4 - r) % 4) + 1]) IN
                           (T(0) ^^ T(1)) ^^ (T(2) ^^ T(3))])
SubBytes(s, box) == TLCEval([i \in 1..16 |-> box[s[i] + 1]])
RECURSIVE EncRounds(_, _, _, _)
EncRounds(s, w, r, nr) ==
  LET t == ShiftRows(SubBytes(s, SBox)) IN
  IF r = nr THEN XorS(t, RoundKey(w, r))
  ELSE EncRounds(XorS(MixWith(t, <<2, 3, 1, 1>>), RoundKey(w, r)), w, r + 1, nr)
RECURSIVE DecRounds(_, _, _)
DecRounds(s, w, r) ==
  LET t == XorS(SubBytes(InvShiftRows(s), InvSBox), RoundKey(w, r)) IN
  IF r = 0 THEN t ELSE DecRounds(MixWith(t, <<14, 11, 13, 9>>), w, r - 1)
AesEnc(key, b) == LET w == AesKeys(key) IN EncRounds(XorS(b, RoundKey(w, 0)), w, 1, Len(key) \div 4 + 6)
AesDec(key, b) == LET w == AesKeys(key) nr == Len(key) \div 4 + 6 IN DecRounds(XorS(b, RoundKey(w, nr)), w, nr - 1)

(* ---- DES ---- *)
IP == <<58,50,42,34,26,18,10,2,60,52,44,36,28,20,12,4,62,54,46,38,30,22,14,6,64,56,48,40,32,24,16,8,
        57,49,41,33,25,17,9,1,59,51,43,35,27,19,11,3,61,53,45,37,29,21,13,5,63,55,47,39,31,23,15,7>>
FP == TLCEval([i \in 1..64 |-> CHOOSE j \in 1..64 : IP[j] = i])
PC1 == <<57,49,41,33,25,17,9,1,58,50,42,34,26,18,10,2,59,51,43,35,27,19,11,3,60,52,44,36,
         63,55,47,39,31,23,15,7,62,54,46,38,30,22,14,6,61,53,45,37,29,21,13,5,28,20,12,4>>
PC2 == <<14,17,11,24,1,5,3,28,15,6,21,10,23,19,12,4,26,8,16,7,27,20,13,2,
         41,52,31,37,47,55,30,40,51,45,33,48,44,49,39,56,34,53,46,42,50,36,29,32>>
EX == <<32,1,2,3,4,5,4,5,6,7,8,9,8,9,10,11,12,13,12,13,14,15,16,17,
        16,17,18,19,20,21,20,21,22,23,24,25,24,25,26,27,28,29,28,29,30,31,32,1>>
PP == <<16,7,20,21,29,12,28,17,1,15,23,26,5,18,31,10,2,8,24,14,32,27,3,9,19,13,30,6,22,11,4,25>>
\* rows of sixteen
SB == <<
  <<14,4,13,1,2,15,11,8,3,10,6,12,5,9,0,7,0,15,7,4,14,2,13,1,10,6,12,11,9,5,3,8,4,1,14,8,13,6,2,11,15,12,9,7,3,10,5,0,15,12,8,2,4,9,1,7,5,11,3,14,10,0,6,13>>,
  <<15,1,8,14,6,11,3,4,9,7,2,13,12,0,5,10,3,13,4,7,15,2,8,14,12,0,1,10,6,9,11,5,0,14,7,11,10,4,13,1,5,8,12,6,9,3,2,15,13,8,10,1,3,15,4,2,11,6,7,12,0,5,14,9>>,
  <<10,0,9,14,6,3,15,5,1,13,12,7,11,4,2,8,13,7,0,9,3,4,6,10,2,8,5,14,12,11,15,1,13,6,4,9,8,15,3,0,11,1,2,12,5,10,14,7,1,10,13,0,6,9,8,7,4,15,14,3,11,5,2,12>>,
  <<7,13,14,3,0,6,9,10,1,2,8,5,11,12,4,15,13,8,11,5,6,15,0,3,4,7,2,12,1,10,14,9,10,6,9,0,12,11,7,13,15,1,3,14,5,2,8,4,3,15,0,6,10,1,13,8,9,4,5,11,12,7,2,14>>,
  <<2,12,4,1,7,10,11,6,8,5,3,15,13,0,14,9,14,11,2,12,4,7,13,1,5,0,15,10,3,9,8,6,4,2,1,11,10,13,7,8,15,9,12,5,6,3,0,14,11,8,12,7,1,14,2,13,6,15,0,9,10,4,5,3>>,
  <<12,1,10,15,9,2,6,8,0,13,3,4,14,7,5,11,10,15,4,2,7,12,9,5,6,1,13,14,0,11,3,8,9,14,15,5,2,8,12,3,7,0,4,10,1,13,11,6,4,3,2,12,9,5,15,10,11,14,1,7,6,0,8,13>>,
  <<4,11,2,14,15,0,8,13,3,12,9,7,5,10,6,1,13,0,11,7,4,9,1,10,14,3,5,12,2,15,8,6,1,4,11,13,12,3,7,14,10,15,6,8,0,5,9,2,6,11,13,8,1,4,10,7,9,5,0,15,14,2,3,12>>,
  <<13,2,8,4,6,15,11,1,10,9,3,14,5,0,12,7,1,15,13,8,10,3,7,4,12,5,6,11,0,14,9,2,7,11,4,1,9,12,14,2,0,6,10,13,15,3,5,8,2,1,14,7,4,10,8,13,15,12,9,0,3,5,6,11>> >>

ToBits(s) == TLCEval([i \in 1..(8 * Len(s)) |-> (s[(i + 7) \div 8] \div P2(7 - ((i - 1) % 8))) % 2])
FromBits(b) == TLCEval([i \in 1..(Len(b) \div 8) |->
   LET v(k) == b[8 * (i - 1) + k] IN
   128 * v(1) + 64 * v(2) + 32 * v(3) + 16 * v(4) + 8 * v(5) + 4 * v(6) + 2 * v(7) + v(8)])
Perm(b, t) == TLCEval([i \in 1..Len(t) |-> b[t[i]]])
RotLS(s, n) == SubSeq(s, n + 1, Len(s)) \o SubSeq(s, 1, n)
KShift(r) == IF r \in {1, 2, 9, 16} THEN 1 ELSE 2
RECURSIVE DesKeys(_, _, _)
DesKeys(c, d, r) ==
  IF r > 16 THEN <<>>
  ELSE LET c1 == RotLS(c, KShift(r)) d1 == RotLS(d, KShift(r)) IN <<Perm(c1 \o d1, PC2)>> \o DesKeys(c1, d1, r + 1)
SOut(i, x) == LET v == SB[i][16 * (2 * x[1] + x[6]) + 8 * x[2] + 4 * x[3] + 2 * x[4] + x[5] + 1] IN
              <<v \div 8, (v \div 4) % 2, (v \div 2) % 2, v % 2>>
FDes(r, k) == LET x == XorS(Perm(r, EX), k) IN Perm(Concat([i \in 1..8 |-> SOut(i, Block(x, 6, i))]), PP)
RECURSIVE Feistel(_, _, _)
Feistel(l, r, ks) == IF ks = <<>> THEN r \o l ELSE Feistel(r, XorS(l, FDes(r, Head(ks))), Tail(ks))
DesKeySched(key) == LET p == Perm(ToBits(key), PC1) IN DesKeys(SubSeq(p, 1, 28), SubSeq(p, 29, 56), 1)
DesOp(ks, b) == LET x == Perm(ToBits(b), IP) IN FromBits(Perm(Feistel(SubSeq(x, 1, 32), SubSeq(x, 33, 64), ks), FP))
DesEnc(key, b) == DesOp(DesKeySched(key), b)
DesDec(key, b) == DesOp(RevSeq(DesKeySched(key)), b)
K3(key, i) == Block(key, 8, i)
TdesEnc(key, b) == DesEnc(K3(key, 3), DesDec(K3(key, 2), DesEnc(K3(key, 1), b)))
TdesDec(key, b) == DesDec(K3(key, 1), DesEnc(K3(key, 2), DesDec(K3(key, 3), b)))

(* ---- toy ciphers: invertible, every input byte reaches later output bytes ---- *)
KB(key, i) == key[((i - 1) % Len(key)) + 1]
RECURSIVE ToyAcc(_, _, _)
ToyAcc(key, b, i) ==
  IF i = 0 THEN <<>>
  ELSE LET p == ToyAcc(key, b, i - 1)
           prev == IF i = 1 THEN 0 ELSE p[i - 1] IN
       Append(p, ((b[i] ^^ KB(key, i)) + prev + i) % 256)
ToyEnc(key, b) == LET t == ToyAcc(key, b, Len(b)) IN
                  TLCEval([i \in 1..Len(b) |-> (5 * t[(i % Len(b)) + 1] + 3) % 256])
ToyDec(key, c) ==
  LET n == Len(c)
      \* 205 = 1/5 modulo 256
      t == TLCEval([i \in 1..n |-> (205 * (c[((i + n - 2) % n) + 1] + 253)) % 256]) IN
  TLCEval([i \in 1..n |-> ((t[i] + 512 - i - (IF i = 1 THEN 0 ELSE t[i - 1])) % 256) ^^ KB(key, i)])

(* ---- by name ---- *)
BlockLen(c) == CASE c = "aes" -> 16 [] c = "des" -> 8 [] c = "toy8" -> 8 [] c = "toy16" -> 16 [] c = "tiny" -> 2
E(c, k, b) == CASE c = "aes" -> AesEnc(k, b)
                [] c = "des" -> IF Len(k) = 24 THEN TdesEnc(k, b) ELSE DesEnc(k, b)
                [] OTHER -> ToyEnc(k, b)
D(c, k, b) == CASE c = "aes" -> AesDec(k, b)
                [] c = "des" -> IF Len(k) = 24 THEN TdesDec(k, b) ELSE DesDec(k, b)
                [] OTHER -> ToyDec(k, b)
\* a whole number of blocks, each on its own
EBlocks(c, k, m) == Concat([i \in 1..(Len(m) \div BlockLen(c)) |-> E(c, k, Block(m, BlockLen(c), i))])
DBlocks(c, k, m) == Concat([i \in 1..(Len(m) \div BlockLen(c)) |-> D(c, k, Block(m, BlockLen(c), i))])
=============================================================================
