------------------------------- MODULE PkMath -------------------------------
(* What the public key schemes compute: pure definitions over BigNum and Ecc.  *)
EXTENDS Ecc

MinI(x, y) == IF x < y THEN x ELSE y
InRange(x, n) == ~BIsNeg(x) /\ x # BZero /\ BLt(x, n)

(* ---- how a digest (bytes) becomes a number: its leftmost bits, as many as n has ---- *)
DigestInt(m, n) ==
  LET bits == BBits(n)
      len == MinI(Len(m), (bits + 7) \div 8)
      z == BFromBE(SubSeq(m, 1, len))
  IN IF 8 * len > bits THEN BShr(z, 8 * len - bits) ELSE z

(* ---- DSA: key k = [p, q, g, x, y] ---- *)
DsaAccepts(k, r, s, m) ==
  /\ InRange(r, k.q) /\ InRange(s, k.q)
  /\ LET w == BInv(s, k.q)
         u1 == BMod(BMul(DigestInt(m, k.q), w), k.q)
         u2 == BMod(BMul(r, w), k.q)
     IN BMod(BMod(BMul(BModExp(k.g, u1, k.p), BModExp(k.y, u2, k.p)), k.p), k.q) = r
\* the nonce behind a signature of the key's owner
DsaNonce(k, r, s, m) == BMod(BMul(BInv(s, k.q), BAdd(DigestInt(m, k.q), BMul(k.x, r))), k.q)
\* the signature for nonce n
DsaSig(k, n, m) ==
  LET r == BMod(BModExp(k.g, n, k.p), k.q) IN
  <<r, BMod(BMul(BInv(n, k.q), BAdd(DigestInt(m, k.q), BMul(k.x, r))), k.q)>>
DsaKeyOK(k) ==
  /\ BIsPrime(k.p) /\ BIsPrime(k.q) /\ BMod(BSub(k.p, BOne), k.q) = BZero
  /\ BLt(BOne, k.g) /\ BLt(k.g, k.p) /\ BModExp(k.g, k.q, k.p) = BOne
  /\ InRange(k.x, k.q) /\ k.y = BModExp(k.g, k.x, k.p)

(* ---- ElGamal: key k = [p, g, y, x] ---- *)
EgFits(k, m) == Len(m) <= BBytes(k.p)
EgAccepts(k, r, s, m) ==
  /\ EgFits(k, m)
  /\ InRange(r, k.p) /\ InRange(s, BSub(k.p, BOne))
  /\ BMod(BMul(BModExp(k.y, r, k.p), BModExp(r, s, k.p)), k.p) = BModExp(k.g, BFromBE(m), k.p)
EgSig(k, n, m) ==
  LET p1 == BSub(k.p, BOne)
      r == BModExp(k.g, n, k.p)
  IN <<r, BMod(BMul(BInv(n, p1), BSub(BFromBE(m), BMul(k.x, r))), p1)>>

(* ---- ECDSA: key k = [p, a, b, gx, gy, n, d, q] ---- *)
Gen(c) == Aff(c.gx, c.gy)
EdAccepts(k, r, s, m) ==
  /\ InRange(r, k.n) /\ InRange(s, k.n)
  /\ LET w == BInv(s, k.n)
         u1 == BMod(BMul(DigestInt(m, k.n), w), k.n)
         u2 == BMod(BMul(r, w), k.n)
         X == EAdd(k, EMul(k, u1, Gen(k)), EMul(k, u2, k.q))
     IN X # Inf /\ BMod(X[2], k.n) = r
EdNonce(k, r, s, m) == BMod(BMul(BInv(s, k.n), BAdd(DigestInt(m, k.n), BMul(k.d, r))), k.n)
EdSig(k, t, m) ==
  LET X == EMul(k, t, Gen(k))
      r == BMod(X[2], k.n)
  IN <<r, BMod(BMul(BInv(t, k.n), BAdd(DigestInt(m, k.n), BMul(k.d, r))), k.n)>>
\* what the owner's signature with the recovered nonce t must satisfy; equivalent to EdAccepts for a
\* matching key pair, at half the cost
EdSignedBy(k, r, s, m) ==
  /\ InRange(r, k.n) /\ InRange(s, k.n)
  /\ LET X == EMul(k, EdNonce(k, r, s, m), Gen(k)) IN X # Inf /\ BMod(X[2], k.n) = r
\* s = 0 when the nonce's r component cancels the digest; such nonces are drawn again
Degenerate(sig) == sig[1] = BZero \/ sig[2] = BZero

(* ---- RSA: key k = [pad, n, e, d] ---- *)
KLen(k) == BBytes(k.n)
Zeros(n) == [i \in 1..n |-> 0]
Ones(n) == [i \in 1..n |-> 255]
\* s cut into pieces of n (the last may be shorter)
Pieces(s, n) == [i \in 1..((Len(s) + n - 1) \div n) |-> SubSeq(s, (i - 1) * n + 1, MinI(i * n, Len(s)))]
RECURSIVE Cat(_, _)
Cat(f, i) == IF i > Len(f) THEN <<>> ELSE f[i] \o Cat(f, i + 1)
NoPadBlock(k, m) == m \o Zeros(KLen(k) - Len(m))

\* PKCS#1 v1.5 blocks of len bytes, at least minps padding bytes: 0, bt, padding without zeros, 0, data
PadOK(em, bt, minps) == 
  /\ Len(em) >= minps + 3 /\ em[1] = 0 /\ em[2] = bt
  /\ \E z \in (minps + 3)..Len(em) :
       /\ em[z] = 0
       /\ \A i \in 3..(z - 1) : em[i] # 0 /\ (bt = 1 => em[i] = 255)
PadData(em) == LET z == CHOOSE z \in 3..Len(em) : em[z] = 0 /\ \A i \in 3..(z - 1) : em[i] # 0 IN
               SubSeq(em, z + 1, Len(em))
PadBytes(em) == LET z == CHOOSE z \in 3..Len(em) : em[z] = 0 /\ \A i \in 3..(z - 1) : em[i] # 0 IN
                SubSeq(em, 3, z - 1)
SignBlock(k, m) == <<0, 1>> \o Ones(KLen(k) - 3 - Len(m)) \o <<0>> \o m

\* the blocks as numbers; whether every one of them is below the modulus
Power(k, ex, block) == BToBEPad(BModExp(BFromBE(block), ex, k.n), KLen(k))
Below(k, bs) == \A i \in DOMAIN bs : BLt(BFromBE(bs[i]), k.n)
RsaRoom(k) == IF k.pad = 0 THEN KLen(k) ELSE KLen(k) - 11

\* the plain blocks of what was signed, resp. encrypted without padding
PlainBlocks(k, m, sign) ==
  LET ps == Pieces(m, RsaRoom(k)) IN
  IF k.pad = 0 THEN [i \in DOMAIN ps |-> NoPadBlock(k, ps[i])]
  ELSE [i \in DOMAIN ps |-> SignBlock(k, ps[i])]
RsaCan(k, m) == /\ m # <<>> /\ k.pad \in {0, 1} /\ RsaRoom(k) > 0
                /\ (k.pad = 0 => Below(k, PlainBlocks(k, m, FALSE)))
\* results: <<0, bytes>> or <<-1, <<>>>> (refused)
Refused == <<-1, <<>>>>
RsaSignOf(k, m) ==
  IF ~RsaCan(k, m) THEN Refused
  ELSE LET bs == PlainBlocks(k, m, TRUE) IN <<0, Cat(TLCEval([i \in DOMAIN bs |-> Power(k, k.d, bs[i])]), 1)>>
RsaNoPadEnc(k, m) ==
  LET bs == PlainBlocks(k, m, FALSE) IN <<0, Cat(TLCEval([i \in DOMAIN bs |-> Power(k, k.e, bs[i])]), 1)>>
\* c is an encryption of m with padding: c recovered block by block with the private exponent
RsaIsEnc(k, m, c) ==
  LET ps == Pieces(m, RsaRoom(k)) cs == Pieces(c, KLen(k)) IN
  /\ Len(c) = KLen(k) * Len(ps)
  /\ Below(k, cs)
  /\ \A i \in DOMAIN ps :
       LET em == TLCEval(Power(k, k.d, cs[i])) IN
       PadOK(em, 2, 8) /\ PadData(em) = ps[i]
RsaPads(k, c) == LET cs == Pieces(c, KLen(k)) IN
                 [i \in DOMAIN cs |-> PadBytes(TLCEval(Power(k, k.d, cs[i])))]
RsaOpen(k, ex, bt, c) ==
  IF c = <<>> \/ Len(c) % KLen(k) # 0 \/ k.pad \notin {0, 1} THEN Refused
  ELSE LET cs == TLCEval(Pieces(c, KLen(k))) IN
       IF ~Below(k, cs) THEN Refused
       ELSE LET ems == TLCEval([i \in DOMAIN cs |-> Power(k, ex, cs[i])]) IN
            IF k.pad = 0 THEN <<0, Cat(ems, 1)>>
            ELSE IF \A i \in DOMAIN ems : PadOK(ems[i], bt, 8)
                 THEN <<0, Cat(TLCEval([i \in DOMAIN ems |-> PadData(ems[i])]), 1)>>
                 ELSE Refused
RsaDecOf(k, c) == RsaOpen(k, k.d, 2, c)
RsaAccepts(k, sig, m) ==
  LET o == RsaOpen(k, k.e, 1, sig) IN
  /\ o[1] = 0
  /\ IF k.pad = 1 THEN o[2] = m
     ELSE /\ Len(m) <= Len(o[2]) /\ Len(o[2]) - Len(m) < KLen(k)
          /\ o[2] = m \o Zeros(Len(o[2]) - Len(m))
RsaKeyOK(n, e, d, p, q, bits) ==
  /\ BIsPrime(p) /\ BIsPrime(q) /\ p # q /\ n = BMul(p, q) /\ BBits(n) = bits
  /\ LET p1 == BSub(p, BOne) q1 == BSub(q, BOne) IN
     BMod(BMul(e, d), BFloorDiv(BMul(p1, q1), BGcd(p1, q1))) = BOne
=============================================================================
