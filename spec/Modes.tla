------------------------------- MODULE Modes -------------------------------
(* SP 800-38A modes, SP 800-38D GCM, SP 800-38B CMAC, RFC 2104 HMAC and      *)
(* RFC 3394 key wrap over the block ciphers of Cipher and hashes of Hash.    *)
(* The modes are step functions: from the chaining value and a piece of data *)
(* to the new chaining value and the output, so that "however the data is    *)
(* split" is a statement about composing them (ModesMC checks it).           *)
EXTENDS Cipher, Hash

\* all return <<new chaining value, output>>; long data goes in two halves (which ModesMC shows to be the same)
\* so that the recursion stays shallow
Long(m) == Len(m) > 512
Half(m, n) == (Len(m) \div (2 * n)) * n
RECURSIVE CbcEnc(_, _, _, _)
CbcEnc(c, k, v, m) ==
  LET n == BlockLen(c) IN
  IF Long(m) THEN With(TLCEval(CbcEnc(c, k, v, Take(m, Half(m, n)))), LAMBDA a :
                  With(TLCEval(CbcEnc(c, k, a[1], Drop(m, Half(m, n)))), LAMBDA b : <<b[1], a[2] \o b[2]>>))
  ELSE IF Len(m) < n THEN <<v, <<>>>>
  ELSE LET y == E(c, k, XorS(Take(m, n), v))
           r == CbcEnc(c, k, y, Drop(m, n)) IN <<r[1], y \o r[2]>>
RECURSIVE CbcDec(_, _, _, _)
CbcDec(c, k, v, m) ==
  LET n == BlockLen(c) IN
  IF Long(m) THEN With(TLCEval(CbcDec(c, k, v, Take(m, Half(m, n)))), LAMBDA a :
                  With(TLCEval(CbcDec(c, k, a[1], Drop(m, Half(m, n)))), LAMBDA b : <<b[1], a[2] \o b[2]>>))
  ELSE IF Len(m) < n THEN <<v, <<>>>>
  ELSE LET x == Take(m, n)
           r == CbcDec(c, k, x, Drop(m, n)) IN <<r[1], XorS(D(c, k, x), v) \o r[2]>>
\* a last partial block uses up a whole counter value
RECURSIVE Ctr(_, _, _, _)
Ctr(c, k, v, m) ==
  LET n == BlockLen(c) IN
  IF Long(m) THEN With(TLCEval(Ctr(c, k, v, Take(m, Half(m, n)))), LAMBDA a :
                  With(TLCEval(Ctr(c, k, a[1], Drop(m, Half(m, n)))), LAMBDA b : <<b[1], a[2] \o b[2]>>))
  ELSE IF m = <<>> THEN <<v, <<>>>>
  ELSE LET y == XorS(Take(m, n), E(c, k, v))
           r == Ctr(c, k, IncBE(v), Drop(m, n)) IN <<r[1], y \o r[2]>>
RECURSIVE CfbEnc(_, _, _, _)
CfbEnc(c, k, v, m) ==
  LET n == BlockLen(c) IN
  IF Long(m) THEN With(TLCEval(CfbEnc(c, k, v, Take(m, Half(m, n)))), LAMBDA a :
                  With(TLCEval(CfbEnc(c, k, a[1], Drop(m, Half(m, n)))), LAMBDA b : <<b[1], a[2] \o b[2]>>))
  ELSE IF m = <<>> THEN <<v, <<>>>>
  ELSE LET y == XorS(Take(m, n), E(c, k, v))
           r == CfbEnc(c, k, y, Drop(m, n)) IN <<r[1], y \o r[2]>>
RECURSIVE CfbDec(_, _, _, _)
CfbDec(c, k, v, m) ==
  LET n == BlockLen(c) IN
  IF Long(m) THEN With(TLCEval(CfbDec(c, k, v, Take(m, Half(m, n)))), LAMBDA a :
                  With(TLCEval(CfbDec(c, k, a[1], Drop(m, Half(m, n)))), LAMBDA b : <<b[1], a[2] \o b[2]>>))
  ELSE IF m = <<>> THEN <<v, <<>>>>
  ELSE LET x == Take(m, n)
           r == CfbDec(c, k, x, Drop(m, n)) IN <<r[1], XorS(x, E(c, k, v)) \o r[2]>>
RECURSIVE Cfb8Enc(_, _, _, _)
Cfb8Enc(c, k, v, m) ==
  IF Long(m) THEN With(TLCEval(Cfb8Enc(c, k, v, Take(m, Half(m, 1)))), LAMBDA a :
                  With(TLCEval(Cfb8Enc(c, k, a[1], Drop(m, Half(m, 1)))), LAMBDA b : <<b[1], a[2] \o b[2]>>))
  ELSE IF m = <<>> THEN <<v, <<>>>>
  ELSE LET y == m[1] ^^ E(c, k, v)[1]
           r == Cfb8Enc(c, k, Append(Tail(v), y), Tail(m)) IN <<r[1], <<y>> \o r[2]>>
RECURSIVE Cfb8Dec(_, _, _, _)
Cfb8Dec(c, k, v, m) ==
  IF Long(m) THEN With(TLCEval(Cfb8Dec(c, k, v, Take(m, Half(m, 1)))), LAMBDA a :
                  With(TLCEval(Cfb8Dec(c, k, a[1], Drop(m, Half(m, 1)))), LAMBDA b : <<b[1], a[2] \o b[2]>>))
  ELSE IF m = <<>> THEN <<v, <<>>>>
  ELSE LET r == Cfb8Dec(c, k, Append(Tail(v), m[1]), Tail(m)) IN <<r[1], <<m[1] ^^ E(c, k, v)[1]>> \o r[2]>>
\* a chaining value of another length than the block marks the end of a stream (after a partial block)
ModeEnc(mode, c, k, v, m) ==
  CASE mode = "cbc" -> CbcEnc(c, k, v, m) [] mode = "ctr" -> Ctr(c, k, v, m)
    [] mode = "cfb" -> CfbEnc(c, k, v, m) [] mode = "cfb8" -> Cfb8Enc(c, k, v, m)
ModeDec(mode, c, k, v, m) ==
  CASE mode = "cbc" -> CbcDec(c, k, v, m) [] mode = "ctr" -> Ctr(c, k, v, m)
    [] mode = "cfb" -> CfbDec(c, k, v, m) [] mode = "cfb8" -> Cfb8Dec(c, k, v, m)

(* ---- GCM ---- *)
Shr1(s) == TLCEval([i \in 1..16 |-> (s[i] \div 2) + (IF i > 1 /\ s[i - 1] % 2 = 1 THEN 128 ELSE 0)])
GDbl(v) == LET t == Shr1(v) IN IF v[16] % 2 = 1 THEN [t EXCEPT ![1] = @ ^^ 225] ELSE t
RECURSIVE GfAcc(_, _, _, _)
GfAcc(x, v, i, z) ==
  IF i = 128 THEN z
  ELSE GfAcc(x, TLCEval(GDbl(v)), i + 1,
             TLCEval(IF (x[(i \div 8) + 1] \div P2(7 - (i % 8))) % 2 = 1 THEN XorS(z, v) ELSE z))
GfMul(x, y) == GfAcc(x, y, 0, Zeros(16))
Pad16(s) == s \o Zeros((16 - (Len(s) % 16)) % 16)
RECURSIVE GHash(_, _, _)
GHash(h, y, s) ==      \* s a whole number of blocks
  IF Long(s) THEN With(TLCEval(GHash(h, y, Take(s, Half(s, 16)))), LAMBDA z : GHash(h, z, Drop(s, Half(s, 16))))
  ELSE IF s = <<>> THEN y ELSE With(GfMul(XorS(y, Take(s, 16)), h), LAMBDA z : GHash(h, z, Drop(s, 16)))
\* bytes as bits in a 64-bit field; hi counts 2^20 bytes
Len64(n) == NatBE(n \div 32, 7) \o <<(n % 32) * 8>>
GcmJ0(c, k, iv) ==
  LET h == E(c, k, Zeros(16)) IN
  IF Len(iv) = 12 THEN iv \o <<0, 0, 0, 1>>
  ELSE GHash(h, Zeros(16), Pad16(iv) \o Zeros(8) \o Len64(Len(iv)))
Inc32(v) == Take(v, 12) \o IncBE(Drop(v, 12))
RECURSIVE Gctr(_, _, _, _)
Gctr(c, k, v, m) ==
  IF Long(m) THEN With(TLCEval(Gctr(c, k, v, Take(m, Half(m, 16)))), LAMBDA a :
                  With(TLCEval(Gctr(c, k, a[1], Drop(m, Half(m, 16)))), LAMBDA b : <<b[1], a[2] \o b[2]>>))
  ELSE IF m = <<>> THEN <<v, <<>>>>
  ELSE LET y == XorS(Take(m, 16), E(c, k, v))
           r == Gctr(c, k, Inc32(v), Drop(m, 16)) IN <<r[1], y \o r[2]>>
\* a counter block n * 2^16 steps on
Add32(v, n) == LET h == ((v[13] * 256) + v[14] + n) % 65536 IN [v EXCEPT ![13] = h \div 256, ![14] = h % 256]
\* the additional data starts with z * 2^20 zero bytes, the ciphertext with y * 2^20 (then there is no other
\* additional data); they leave the hash at zero
GcmTag(c, k, iv, z, aad, y, ct) ==
  LET h == E(c, k, Zeros(16))
      s == GHash(h, Zeros(16), Pad16(aad) \o Pad16(ct) \o Len64(z * 1048576 + Len(aad)) \o Len64(y * 1048576 + Len(ct))) IN
  XorS(s, E(c, k, GcmJ0(c, k, iv)))

(* ---- CMAC ---- *)
Shl1(s) == TLCEval([i \in 1..Len(s) |-> ((2 * s[i]) % 256) + (IF i < Len(s) THEN s[i + 1] \div 128 ELSE 0)])
CDbl(s) == LET t == Shl1(s) IN IF s[1] >= 128 THEN [t EXCEPT ![Len(s)] = @ ^^ 135] ELSE t
RECURSIVE CbcMac(_, _, _, _)
CbcMac(c, k, v, m) ==
  IF Long(m) THEN With(TLCEval(CbcMac(c, k, v, Take(m, Half(m, 16)))), LAMBDA z : CbcMac(c, k, z, Drop(m, Half(m, 16))))
  ELSE IF m = <<>> THEN v ELSE With(E(c, k, XorS(v, Take(m, 16))), LAMBDA z : CbcMac(c, k, z, Drop(m, 16)))
Cmac(c, k, m) ==
  LET k1 == CDbl(E(c, k, Zeros(16)))
      k2 == CDbl(k1)
      full == Len(m) > 0 /\ Len(m) % 16 = 0
      cut == IF full THEN Len(m) - 16 ELSE Len(m) - (Len(m) % 16)
      last == IF full THEN XorS(Drop(m, cut), k1) ELSE XorS(Drop(m, cut) \o <<128>> \o Zeros(15 - (Len(m) % 16)), k2) IN
  CbcMac(c, k, Zeros(16), Take(m, cut) \o last)

(* ---- HMAC; "toy" stands for any hash plugged in, "toyn" for one with neither init nor clear ---- *)
RECURSIVE ToySum(_, _, _, _)
ToySum(m, i, a, b) ==
  IF i = 1 /\ Long(m) THEN With(ToySum(Take(m, 512), 1, a, b), LAMBDA s : ToySum(Drop(m, 512), 1, s[1], s[2]))
  ELSE IF i > Len(m) THEN <<a, b>> ELSE ToySum(m, i + 1, TLCEval((a + m[i] + 1) % 251), TLCEval((b + a + m[i]) % 241))
ToyHash(m) == LET s == ToySum(m, 1, 7, 11) IN <<s[1], s[2], Len(m) % 256, s[1] ^^ s[2], (Len(m) \div 256) % 256>>
H(alg, m) == CASE alg = "md5" -> Md5(m) [] alg = "sha1" -> Sha1(m) [] alg = "sha256" -> Sha256(m)
               [] alg = "sha384" -> Sha384(m) [] alg = "sha512" -> Sha512(m) [] alg \in {"toy", "toyn"} -> ToyHash(m)
Hmac(alg, key, m) ==
  LET k0 == IF Len(key) > 64 THEN H(alg, key) ELSE key
      kp == k0 \o Zeros(64 - Len(k0)) IN
  H(alg, XorS(kp, Fill(64, 92)) \o H(alg, XorS(kp, Fill(64, 54)) \o m))

(* ---- key wrap ---- *)
XorT(a, t) == XorS(a, NatBE(t, 8))
\* one pass over the blocks r, which stand at steps t, t + 1, ...: <<integrity register, new blocks>>
RECURSIVE WrapPass(_, _, _, _)
WrapPass(k, a, r, t) ==
  IF Len(r) > 1 THEN LET h == Len(r) \div 2 IN
                     With(TLCEval(WrapPass(k, a, SubSeq(r, 1, h), t)), LAMBDA x :
                     With(TLCEval(WrapPass(k, x[1], SubSeq(r, h + 1, Len(r)), t + h)), LAMBDA y : <<y[1], x[2] \o y[2]>>))
  ELSE LET b == AesEnc(k, a \o r[1]) IN <<XorT(Take(b, 8), t), <<Drop(b, 8)>>>>
RECURSIVE WrapFrom(_, _, _, _)
WrapFrom(k, a, r, j) ==
  IF j = 6 THEN a \o Concat(r)
  ELSE With(TLCEval(WrapPass(k, a, r, (j * Len(r)) + 1)), LAMBDA x : WrapFrom(k, x[1], x[2], j + 1))
Blocks8(m) == TLCEval([i \in 1..(Len(m) \div 8) |-> Block(m, 8, i)])
Wrap(k, m) == WrapFrom(k, Fill(8, 166), Blocks8(m), 0)
RECURSIVE UnwrapPass(_, _, _, _)
UnwrapPass(k, a, r, t) ==      \* from the last block to the first
  IF Len(r) > 1 THEN LET h == Len(r) \div 2 IN
                     With(TLCEval(UnwrapPass(k, a, SubSeq(r, h + 1, Len(r)), t + h)), LAMBDA y :
                     With(TLCEval(UnwrapPass(k, y[1], SubSeq(r, 1, h), t)), LAMBDA x : <<x[1], x[2] \o y[2]>>))
  ELSE LET b == AesDec(k, XorT(a, t) \o r[1]) IN <<Take(b, 8), <<Drop(b, 8)>>>>
RECURSIVE UnwrapFrom(_, _, _, _)
UnwrapFrom(k, a, r, j) ==
  IF j = 0 THEN <<a, Concat(r)>>
  ELSE With(TLCEval(UnwrapPass(k, a, r, ((j - 1) * Len(r)) + 1)), LAMBDA x : UnwrapFrom(k, x[1], x[2], j - 1))
\* <<integrity value, key data>>
Unwrap(k, c) == UnwrapFrom(k, Take(c, 8), Blocks8(Drop(c, 8)), 6)
WrapLenOk(n) == n >= 16 /\ n % 8 = 0
=============================================================================
