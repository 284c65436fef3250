--------------------------------- MODULE Pk ---------------------------------
(***************************************************************************)
(* The public key part of the library as a state machine: curve points in   *)
(* slots, one key context per scheme, two Diffie-Hellman parties, and what   *)
(* the random source has already been used for.                             *)
(***************************************************************************)
EXTENDS PkMath, Curves

VARIABLES pt,     \* point slots 1..3
          grp,    \* their curve [p, a, b, gx, gy, n], or <<>>
          dsa, eg, ed, rsa,
          dh,     \* parties 1..2: [p, g, e, tok, sec]
          edh,    \* parties 1..2: [c, d, q, z]
          seen,   \* first components of signatures, and paddings, produced so far
          inj,    \* the random source was told what to deliver
          ret
kvars == <<pt, grp, dsa, eg, ed, rsa, dh, edh, seen, inj, ret>>

None == <<>>
PkInit ==
  /\ pt = [i \in 1..3 |-> Inf] /\ grp = None
  /\ dsa = None /\ eg = None /\ ed = None /\ rsa = None
  /\ dh = [i \in 1..2 |-> None] /\ edh = [i \in 1..2 |-> None]
  /\ seen = {} /\ inj = FALSE /\ ret = <<>>

Inject == inj' = TRUE /\ UNCHANGED <<pt, grp, dsa, eg, ed, rsa, dh, edh, seen, ret>>

(* ---- curve points -------------------------------------------------------- *)
RestEc == UNCHANGED <<dsa, eg, ed, rsa, dh, edh, seen, inj>>
PtRet(k, P, rr) == pt' = [pt EXCEPT ![k] = P] /\ ret' = rr /\ UNCHANGED grp /\ RestEc
EcGrp(c) == grp' = c /\ ret' = <<>> /\ UNCHANGED pt /\ RestEc
\* only the numbers 0..10 name a curve
EcLoad(id) == /\ (IF id \in 0..10 THEN grp' = CurveTab[id + 1] ELSE grp' = None)
              /\ ret' = <<IF id \in 0..10 THEN 0 ELSE -1>> /\ UNCHANGED pt /\ RestEc
EcSet(k, P) == PtRet(k, P, <<>>)
EcGen(k) == PtRet(k, Gen(grp), <<0>>)
EcAdd(k, i, j) == PtRet(k, EAdd(grp, pt[i], pt[j]), <<0>>)
EcDbl(k, i) == PtRet(k, EDbl(grp, pt[i]), <<0>>)
EcMul(k, i, s) == PtRet(k, EMul(grp, s, pt[i]), <<0, s>>)
EcCopy(k, i) == PtRet(k, pt[i], <<0>>)
EcSwap(i, j) == /\ pt' = [pt EXCEPT ![i] = pt[j], ![j] = pt[i]] /\ ret' = <<>>
                /\ UNCHANGED grp /\ RestEc
EcInit(k, P) == PtRet(k, P, <<0>>)

(* ---- signatures ------------------------------------------------------------ *)
RestDsa == UNCHANGED <<pt, grp, eg, ed, rsa, dh, edh, inj>>
DsaKey(k) == dsa' = k /\ ret' = <<>> /\ UNCHANGED seen /\ RestDsa

\* in a large group two signatures never share a nonce, and nonces come from the whole range
BigGroup(n) == BBits(n) >= 100
Fresh(n, r, nonce) == (BigGroup(n) /\ ~inj) => (<<n, r>> \notin seen /\ BBits(nonce) > BBits(n) - 40)
Note(n, r) == seen' = IF BigGroup(n) THEN seen \cup {<<n, r>>} ELSE seen

\* signing may give up only when nonces that lead nowhere are common
GivesUp(n, Bad(_)) ==
  /\ BBits(n) <= 8
  /\ 4 * Cardinality({t \in 1..(ToInt(n) - 1) : Bad(B(t))}) >= ToInt(n) - 1

DsaSign(m, r, s) ==
  /\ DsaAccepts(dsa, r, s, m)
  /\ Fresh(dsa.q, r, DsaNonce(dsa, r, s, m)) /\ Note(dsa.q, r)
  /\ ret' = <<0, r, s>> /\ UNCHANGED dsa /\ RestDsa
DsaGiveUp(m, rr) ==
  /\ GivesUp(dsa.q, LAMBDA t : Degenerate(DsaSig(dsa, t, m)))
  /\ rr[1] # 0 /\ ret' = rr /\ UNCHANGED <<dsa, seen>> /\ RestDsa
DsaVerify(r, s, m) ==
  /\ ret' = <<DsaAccepts(dsa, r, s, m), r, s>> /\ UNCHANGED <<dsa, seen>> /\ RestDsa
\* p has 512 + 64 l bits, q 160
DsaKeyGen(l, k) ==
  /\ DsaKeyOK(k) /\ BBits(k.q) = 160 /\ BBits(k.p) = 512 + 64 * l
  /\ (~inj => <<k.q, k.x>> \notin seen) /\ seen' = seen \cup {<<k.q, k.x>>}
  /\ dsa' = k /\ ret' = <<0>> /\ RestDsa

RestEg == UNCHANGED <<pt, grp, dsa, ed, rsa, dh, edh, inj>>
EgKey(k) == eg' = k /\ ret' = <<>> /\ UNCHANGED seen /\ RestEg
EgSign(m, r, s, rr) ==
  /\ EgAccepts(eg, r, s, m)
  /\ ((BigGroup(eg.p) /\ ~inj) => <<eg.p, r>> \notin seen) /\ Note(eg.p, r)
  /\ ret' = rr /\ UNCHANGED eg /\ RestEg
EgBad(m, t) == BGcd(t, BSub(eg.p, BOne)) # BOne \/ EgSig(eg, t, m)[2] = BZero
\* a digest longer than the modulus is refused
EgRefuse(m, rr) ==
  /\ \/ ~EgFits(eg, m)
     \/ BBits(eg.p) <= 8 /\ LET n == ToInt(eg.p) - 1 good == {t \in 1..n : BGcd(B(t), B(n)) = BOne} IN
                            2 * Cardinality({t \in good : EgBad(m, B(t))}) >= Cardinality(good)
  /\ rr[1] # 0 /\ ret' = rr /\ UNCHANGED <<eg, seen>> /\ RestEg
EgVerify(r, s, m, rest) == ret' = <<EgAccepts(eg, r, s, m)>> \o rest /\ UNCHANGED <<eg, seen>> /\ RestEg

RestEd == UNCHANGED <<pt, grp, dsa, eg, rsa, dh, edh, inj>>
EdKey(k) == ed' = k /\ UNCHANGED seen /\ RestEd
EdGrp(c) == [p |-> c.p, a |-> c.a, b |-> c.b, gx |-> c.gx, gy |-> c.gy, n |-> c.n, d |-> BZero, q |-> Inf]
EdSign(m, r, s) ==
  /\ EdSignedBy(ed, r, s, m)
  /\ Fresh(ed.n, r, EdNonce(ed, r, s, m)) /\ Note(ed.n, r)
  /\ ret' = <<0, r, s>> /\ UNCHANGED ed /\ RestEd
EdGiveUp(m, rr) ==
  /\ GivesUp(ed.n, LAMBDA t : Degenerate(EdSig(ed, t, m)))
  /\ rr[1] # 0 /\ ret' = rr /\ UNCHANGED <<ed, seen>> /\ RestEd
EdVerify(r, s, m) == ret' = <<EdAccepts(ed, r, s, m), r, s>> /\ UNCHANGED <<ed, seen>> /\ RestEd
EdKeyGen(d) ==
  /\ InRange(d, ed.n)
  /\ ((BigGroup(ed.n) /\ ~inj) => <<ed.n, d>> \notin seen /\ BBits(d) > BBits(ed.n) - 40) /\ Note(ed.n, d)
  /\ ed' = [ed EXCEPT !.d = d, !.q = EMul(ed, d, Gen(ed))]
  /\ ret' = <<0>> /\ RestEd

(* ---- RSA --------------------------------------------------------------------- *)
RestRsa == UNCHANGED <<pt, grp, dsa, eg, ed, dh, edh, inj>>
RsaKey(k) == rsa' = k /\ UNCHANGED seen /\ RestRsa
RsaRet(o) == ret' = <<o[1], IF o[1] = 0 THEN 1 ELSE 0, o[2]>> /\ UNCHANGED rsa /\ RestRsa
RsaEncrypt(m, c) ==
  IF ~RsaCan(rsa, m) THEN RsaRet(Refused) /\ UNCHANGED seen
  ELSE IF rsa.pad = 0 THEN RsaRet(RsaNoPadEnc(rsa, m)) /\ UNCHANGED seen
  ELSE /\ RsaIsEnc(rsa, m, c) /\ RsaRet(<<0, c>>)
       /\ LET ps == TLCEval(RsaPads(rsa, c)) IN
          /\ (~inj => \A i \in DOMAIN ps : /\ ps[i] \notin seen
                                           /\ \A j \in DOMAIN ps : i # j => ps[i] # ps[j]
                                           /\ (Len(ps[i]) >= 20 =>   \* not a run of a few values
                                                 Cardinality({ps[i][x] : x \in DOMAIN ps[i]}) >= 8))
          /\ seen' = seen \cup {ps[i] : i \in DOMAIN ps}
RsaDecrypt(c) == RsaRet(RsaDecOf(rsa, c)) /\ UNCHANGED seen
RsaSign(m) == RsaRet(RsaSignOf(rsa, m)) /\ UNCHANGED seen
RsaVerify(sig, m) == ret' = <<RsaAccepts(rsa, sig, m)>> /\ UNCHANGED <<rsa, seen>> /\ RestRsa
RsaKeyGen(pad, bits, e0, p, q, n, e, d) ==
  /\ RsaKeyOK(n, e, d, p, q, bits)
  /\ (e0 # 0 => e = B(e0))
  /\ ((bits >= 200 /\ ~inj) => {<<p>>, <<q>>} \cap seen = {}) /\ seen' = seen \cup {<<p>>, <<q>>}
  /\ rsa' = [pad |-> pad, n |-> n, e |-> e, d |-> d]
  /\ ret' = <<0, p, q>> /\ RestRsa

(* ---- Diffie-Hellman -------------------------------------------------------------- *)
RestDh == UNCHANGED <<pt, grp, dsa, eg, ed, rsa, edh, seen, inj>>
DhInit(i, p, g, e) ==
  /\ dh' = [dh EXCEPT ![i] = [p |-> p, g |-> g, e |-> e, tok |-> BZero, sec |-> BZero]]
  /\ ret' = <<0>> /\ RestDh
DhAgree(i) == dh' = [dh EXCEPT ![i].tok = BModExp(dh[i].g, dh[i].e, dh[i].p)] /\ ret' = <<0>> /\ RestDh
DhFinal(i) == dh' = [dh EXCEPT ![i].sec = BModExp(dh[i].tok, dh[i].e, dh[i].p)] /\ ret' = <<0>> /\ RestDh
\* an export fills the buffer or refuses
Export(v, len) == IF BBytes(v) <= len THEN <<0, BToBEPad(v, len)>> ELSE Refused
DhGet(v, len) == ret' = Export(v, len) /\ UNCHANGED dh /\ RestDh
DhSet(i, b) == dh' = [dh EXCEPT ![i].tok = BFromBE(b)] /\ ret' = <<0>> /\ RestDh
DhPass(i, j, len) == /\ BBytes(dh[i].tok) <= len
                     /\ dh' = [dh EXCEPT ![j].tok = dh[i].tok] /\ ret' = <<0, 0>> /\ RestDh
DhClear(i) == dh' = [dh EXCEPT ![i] = None] /\ ret' = <<>> /\ RestDh

RestEdh == UNCHANGED <<pt, grp, dsa, eg, ed, rsa, dh, seen, inj>>
EdhInit(i, c, d, rr) ==
  /\ edh' = [edh EXCEPT ![i] = [c |-> c, d |-> d, q |-> Inf, z |-> Inf]] /\ ret' = rr /\ RestEdh
EdhAgree(i) == edh' = [edh EXCEPT ![i].q = EMul(edh[i].c, edh[i].d, Gen(edh[i].c))] /\ ret' = <<0>> /\ RestEdh
EdhFinal(i) == edh' = [edh EXCEPT ![i].z = EMul(edh[i].c, edh[i].d, edh[i].q)] /\ ret' = <<0>> /\ RestEdh
EdhPass(i, j) == edh' = [edh EXCEPT ![j].q = edh[i].q] /\ ret' = <<0>> /\ RestEdh
\* clearing a context leaves none of its secrets behind, and no other context notices
PkClear(k, i) ==
  /\ ret' = <<0, 0>>
  /\ CASE k = "dsa"     -> dsa' = None /\ UNCHANGED seen /\ RestDsa
       [] k = "elgamal" -> eg' = None /\ UNCHANGED seen /\ RestEg
       [] k = "ecdsa"   -> ed' = None /\ UNCHANGED seen /\ RestEd
       [] k = "rsa"     -> rsa' = None /\ UNCHANGED seen /\ RestRsa
       [] k = "dh"      -> dh' = [dh EXCEPT ![i] = None] /\ RestDh
       [] k = "ecdh"    -> edh' = [edh EXCEPT ![i] = None] /\ RestEdh
EdhSwap == edh' = [edh EXCEPT ![1].q = edh[2].q, ![2].q = edh[1].q] /\ ret' = <<>> /\ RestEdh
=============================================================================
