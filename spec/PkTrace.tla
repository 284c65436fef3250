------------------------------- MODULE PkTrace -------------------------------
(* Recorded calls of the real library against Pk.                              *)
EXTENDS Pk, TraceBase

A(i) == Ev.a[i]
R(i) == Ev.r[i]
Rets == ret' = Ev.r
\* a verification: 0 is acceptance, anything else rejection
Verdict == /\ (Ev.r[1] = 0) = ret'[1]
           /\ SubSeq(Ev.r, 2, Len(Ev.r)) = SubSeq(ret', 2, Len(ret'))
\* an operation that may refuse: any non-zero code
Outcome == /\ (Ev.r[1] = 0) = (ret'[1] = 0)
           /\ SubSeq(Ev.r, 2, Len(Ev.r)) = SubSeq(ret', 2, Len(ret'))

TNew == /\ Is("new")
        /\ pt' = [i \in 1..3 |-> Inf] /\ grp' = None
        /\ dsa' = None /\ eg' = None /\ ed' = None /\ rsa' = None
        /\ dh' = [i \in 1..2 |-> None] /\ edh' = [i \in 1..2 |-> None]
        /\ seen' = {} /\ inj' = FALSE /\ ret' = <<>>
TRnd == (Is("rnd") \/ Is("rndat")) /\ Inject
\* how often the generator was called is nobody's business
TRndCnt == Is("rndcnt") /\ UNCHANGED kvars

(* ---- curve points ---- *)
S3(k) == <<Ev.s[k], Ev.s[k + 1], Ev.s[k + 2]>>
EcLogged == /\ pt' = <<S3(1), S3(4), S3(7)>>
            /\ IF grp' = None THEN Len(Ev.s) = 9
               ELSE Len(Ev.s) = 12 /\ Ev.s[10] = grp'.p /\ BMod(Ev.s[11], grp'.p) = BMod(grp'.a, grp'.p)
                                   /\ Ev.s[12] = grp'.b
Cur(k) == [p |-> A(k), a |-> A(k + 1), b |-> A(k + 2), gx |-> A(k + 3), gy |-> A(k + 4), n |-> A(k + 5)]
TEcGrp == Is("ecgrp") /\ EcGrp(Cur(1)) /\ EcLogged
TEcLoad == /\ Is("ecload") /\ EcLoad(A(1)) /\ EcLogged
           /\ (R(1) = 0) = (ret'[1] = 0)
           /\ IF ret'[1] = 0 THEN /\ <<R(2), BMod(R(3), R(2)), R(4), R(5), R(6), R(7)>> =
                                      <<grp'.p, grp'.a, grp'.b, grp'.gx, grp'.gy, grp'.n>>
                                  /\ R(8) = BOne
              ELSE TRUE
TEcSet == Is("ecset") /\ EcSet(A(1), IF A(2) = 1 THEN Inf ELSE Aff(A(3), A(4))) /\ EcLogged
TEcGen == Is("ecgen") /\ EcGen(A(1)) /\ EcLogged /\ Rets
TEcAdd == Is("ecadd") /\ EcAdd(A(1), A(2), A(3)) /\ EcLogged /\ Rets
TEcDbl == Is("ecdbl") /\ EcDbl(A(1), A(2)) /\ EcLogged /\ Rets
TEcMul == Is("ecmul") /\ EcMul(A(1), A(2), A(3)) /\ EcLogged /\ Rets
TEcCopy == Is("eccopy") /\ EcCopy(A(1), A(2)) /\ EcLogged /\ Rets
TEcSwap == Is("ecswap") /\ EcSwap(A(1), A(2)) /\ EcLogged
TEcZero == Is("eczero") /\ EcSet(A(1), Inf) /\ EcLogged
TEcInit == /\ Is("ecinit") /\ EcInit(A(1), IF Len(Ev.a) = 1 THEN Inf ELSE Aff(B(A(2)), B(A(3))))
           /\ EcLogged /\ Rets

\* tables over tiny curves: byte triples inf x y
Tri(s, i) == IF s[3 * i - 2] = 1 THEN Inf ELSE <<s[3 * i - 2], B(s[3 * i - 1]), B(s[3 * i])>>
TinyC == [p |-> A(2), a |-> A(3), b |-> A(4)]
TAddTab == /\ Is("ecaddtab") /\ UNCHANGED kvars
           /\ LET n == Len(A(5)) \div 3 c == TinyC
                  P == TLCEval([i \in 1..n |-> Tri(A(5), i)]) IN
              /\ Len(R(1)) = 3 * n * n
              /\ \A i \in 1..n, j \in 1..n : Tri(R(1), (i - 1) * n + j) = EAdd(c, P[i], P[j])
TMulTab == /\ Is("ecmultab") /\ UNCHANGED kvars
           /\ LET n == Len(A(5)) \div 3 c == TinyC w == A(6) + 1
                  P == TLCEval([i \in 1..n |-> Tri(A(5), i)]) IN
              /\ Len(R(1)) = 3 * n * w
              /\ \A i \in 1..n :
                   IF A(1) >= 2 THEN \A k \in 1..w : Tri(R(1), (i - 1) * w + k) = EDbl(c, P[i])
                   ELSE /\ Tri(R(1), (i - 1) * w + 1) = Inf
                        \* k P = (k - 1) P + P: repeated addition
                        /\ \A k \in 2..w : Tri(R(1), (i - 1) * w + k) = EAdd(c, Tri(R(1), (i - 1) * w + k - 1), P[i])

(* ---- DSA ---- *)
DK(s) == [p |-> s[1], q |-> s[2], g |-> s[3], x |-> s[4], y |-> s[5]]
DsaLogged == Ev.s = <<dsa'.p, dsa'.q, dsa'.g, dsa'.x, dsa'.y>>
TDsaKey == Is("dsakey") /\ DsaKey(DK(Ev.a)) /\ DsaLogged
TDsaSign == Is("dsasign") /\ (IF R(1) = 0 THEN DsaSign(A(1), R(2), R(3)) ELSE DsaGiveUp(A(1), Ev.r)) /\ DsaLogged
TDsaVer == Is("dsaver") /\ DsaVerify(A(1), A(2), A(3)) /\ DsaLogged /\ Verdict
TDsaGen == Is("dsakeygen") /\ R(1) = 0 /\ DsaKeyGen(A(1), DK(Ev.s))
\* the digest is all the table's entries share: r^-1-free form of the equation, all pairs at once
TDsaTab == /\ Is("dsatab") /\ UNCHANGED kvars /\ DsaLogged
           /\ LET rm == A(2) sm == A(3) IN
              /\ Len(R(1)) = (rm + 1) * (sm + 1)
              /\ \A r \in 0..rm, s \in 0..sm :
                   (R(1)[r * (sm + 1) + s + 1] = 1) = DsaAccepts(dsa, B(r), B(s), A(1))

(* ---- ElGamal ---- *)
EgLogged == Ev.s = <<eg'.p, eg'.g, eg'.y, eg'.x>>
TEgKey == Is("egkey") /\ EgKey([p |-> A(1), g |-> A(2), y |-> A(3), x |-> A(4)]) /\ EgLogged
TEgSign2 == Is("egsign2") /\ (IF R(1) = 0 THEN EgSign(A(1), R(2), R(3), Ev.r) ELSE EgRefuse(A(1), Ev.r)) /\ EgLogged
Half(s, i) == LET n == Len(s) \div 2 IN BFromBE(SubSeq(s, (i - 1) * n + 1, i * n))
TEgSign == Is("egsign")
           /\ (IF R(1) = 0 THEN EgSign(A(1), Half(R(2), 1), Half(R(2), 2), Ev.r) ELSE EgRefuse(A(1), Ev.r)) /\ EgLogged
TEgVer2 == Is("egver2") /\ EgVerify(A(1), A(2), A(3), <<A(1), A(2)>>) /\ EgLogged /\ Verdict
TEgVer == Is("egver") /\ EgVerify(Half(A(1), 1), Half(A(1), 2), A(2), <<>>) /\ EgLogged /\ Verdict
TEgTab == /\ Is("egtab") /\ UNCHANGED kvars /\ EgLogged
          /\ LET rm == A(2) sm == A(3) IN
             /\ Len(R(1)) = (rm + 1) * (sm + 1)
             /\ \A r \in 0..rm, s \in 0..sm :
                  (R(1)[r * (sm + 1) + s + 1] = 1) = EgAccepts(eg, B(r), B(s), A(1))

(* ---- ECDSA ---- *)
EdLogged == /\ <<Ev.s[1], BMod(Ev.s[2], Ev.s[1]), Ev.s[3], Ev.s[4], Ev.s[5], Ev.s[6]>> =
               <<ed'.p, BMod(ed'.a, ed'.p), ed'.b, ed'.gx, ed'.gy, ed'.n>>
            /\ Ev.s[7] = ed'.d /\ S3(8) = ed'.q
TEdCust == Is("edcust") /\ EdKey(EdGrp(Cur(1))) /\ ret' = Ev.r /\ R(1) = 0 /\ EdLogged
TEdLoad == /\ Is("edload") /\ ret' = Ev.r
           /\ IF A(1) \in 0..10 THEN R(1) = 0 /\ EdKey(EdGrp(CurveTab[A(1) + 1])) /\ EdLogged
              ELSE R(1) # 0 /\ EdKey(None)
TEdSet == Is("edset") /\ EdKey([ed EXCEPT !.d = A(1), !.q = IF A(2) = 1 THEN Inf ELSE Aff(A(3), A(4))])
          /\ ret' = Ev.r /\ EdLogged
TEdSign == Is("edsign") /\ (IF R(1) = 0 THEN EdSign(A(1), R(2), R(3)) ELSE EdGiveUp(A(1), Ev.r)) /\ EdLogged
TEdVer == Is("edver") /\ EdVerify(A(1), A(2), A(3)) /\ EdLogged /\ Verdict
TEdGen == Is("edkeygen") /\ R(1) = 0 /\ EdKeyGen(Ev.s[7]) /\ EdLogged
TEdTab == /\ Is("edtab") /\ UNCHANGED kvars /\ EdLogged
          /\ LET rm == A(2) sm == A(3) IN
             /\ Len(R(1)) = (rm + 1) * (sm + 1)
             /\ \A r \in 0..rm, s \in 0..sm :
                  (R(1)[r * (sm + 1) + s + 1] = 1) = EdAccepts(ed, B(r), B(s), A(1))

(* ---- RSA ---- *)
RsaLogged == Ev.s = <<rsa'.pad, rsa'.n, rsa'.e, rsa'.d>>
TRsaKey == Is("rsakey") /\ RsaKey([pad |-> A(1), n |-> A(2), e |-> A(3), d |-> A(4)]) /\ ret' = Ev.r /\ R(1) = 0 /\ RsaLogged
\* primes are made of whole bytes
TRsaGen == Is("rsakeygen")
           /\ (IF R(1) = 0 THEN RsaKeyGen(A(1), A(2), A(3), R(2), R(3), Ev.s[2], Ev.s[3], Ev.s[4]) /\ RsaLogged
               ELSE A(2) % 16 # 0 /\ RsaKey(None) /\ ret' = Ev.r)
TRsaEnc == Is("rsaenc") /\ RsaEncrypt(A(1), R(3)) /\ RsaLogged /\ Outcome
TRsaDec == Is("rsadec") /\ RsaDecrypt(A(1)) /\ RsaLogged /\ Outcome
TRsaSign == Is("rsasign") /\ RsaSign(A(1)) /\ RsaLogged /\ Outcome
TRsaVer == Is("rsaver") /\ RsaVerify(A(1), A(2)) /\ RsaLogged /\ Verdict

(* ---- Diffie-Hellman ---- *)
DhFlat(d) == IF d = None THEN <<BZero, BZero, BZero, BZero, BZero>> ELSE <<d.p, d.g, d.e, d.tok, d.sec>>
DhLogged == Ev.s = DhFlat(dh'[1]) \o DhFlat(dh'[2])
TDhInit == Is("dhinit") /\ DhInit(A(1), A(2), A(3), A(4)) /\ DhLogged /\ Rets
TDhAgree == Is("dhagree") /\ DhAgree(A(1)) /\ DhLogged /\ Rets
TDhFinal == Is("dhfinal") /\ DhFinal(A(1)) /\ DhLogged /\ Rets
\* a refused export leaves the buffer alone
Exported == IF ret'[1] = 0 THEN Ev.r = ret' ELSE R(1) # 0 /\ R(2) = [i \in 1..A(2) |-> 238]
TDhTok == Is("dhgettok") /\ DhGet(dh[A(1)].tok, A(2)) /\ DhLogged /\ Exported
TDhSec == Is("dhgetsec") /\ DhGet(dh[A(1)].sec, A(2)) /\ DhLogged /\ Exported
TDhSet == Is("dhsettok") /\ DhSet(A(1), A(2)) /\ DhLogged /\ Rets
TDhPass == Is("dhpass") /\ DhPass(A(1), A(2), A(3)) /\ DhLogged /\ Rets
TDhClear == Is("dhclear") /\ DhClear(A(1)) /\ DhLogged

EdhFlat(d) == IF d = None THEN <<BZero>> \o Inf \o Inf ELSE <<d.d>> \o d.q \o d.z
EdhLogged == Ev.s = EdhFlat(edh'[1]) \o EdhFlat(edh'[2])
TEdhCust == Is("edhcust") /\ EdhInit(A(1), Cur(2), A(8), <<0>>) /\ EdhLogged /\ Rets
TEdhLoad == Is("edhload") /\ EdhInit(A(1), CurveTab[A(2) + 1], A(3), <<0, 0>>) /\ EdhLogged /\ Rets
TEdhAgree == Is("edhagree") /\ EdhAgree(A(1)) /\ EdhLogged /\ Rets
TEdhFinal == Is("edhfinal") /\ EdhFinal(A(1)) /\ EdhLogged /\ Rets
TEdhPass == Is("edhpass") /\ EdhPass(A(1), A(2)) /\ EdhLogged /\ Rets
TEdhSwap == Is("edhswap") /\ EdhSwap /\ EdhLogged

TPkClear == Is("pkclear") /\ PkClear(A(1), IF Len(Ev.a) > 1 THEN A(2) ELSE 1) /\ Rets

TraceInit == PkInit /\ l = 1
TraceNext ==
  \/ TNew \/ TRnd \/ TRndCnt \/ TEcGrp \/ TEcLoad \/ TEcSet \/ TEcGen \/ TEcAdd \/ TEcDbl \/ TEcMul \/ TEcCopy \/ TEcSwap
  \/ TEcZero \/ TEcInit \/ TAddTab \/ TMulTab
  \/ TDsaKey \/ TDsaSign \/ TDsaVer \/ TDsaGen \/ TDsaTab
  \/ TEgKey \/ TEgSign2 \/ TEgSign \/ TEgVer2 \/ TEgVer \/ TEgTab
  \/ TEdCust \/ TEdLoad \/ TEdSet \/ TEdSign \/ TEdVer \/ TEdGen \/ TEdTab
  \/ TRsaKey \/ TRsaGen \/ TRsaEnc \/ TRsaDec \/ TRsaSign \/ TRsaVer
  \/ TDhInit \/ TDhAgree \/ TDhFinal \/ TDhTok \/ TDhSec \/ TDhSet \/ TDhPass \/ TDhClear
  \/ TEdhCust \/ TEdhLoad \/ TEdhAgree \/ TEdhFinal \/ TEdhPass \/ TEdhSwap \/ TPkClear
TraceSpec == TraceInit /\ [][TraceNext]_<<kvars, l>>
=============================================================================
