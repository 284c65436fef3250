------------------------------- MODULE SigMC -------------------------------
(* The signature schemes over small groups, all keys, digests and nonces: a   *)
(* signer, and an adversary who alters what the verifier gets.               *)
EXTENDS PkMath
CONSTANTS Scheme
VARIABLES key, dig, sig, sent, phase
vars == <<key, dig, sig, sent, phase>>

\* DSA groups (p, q, g); ElGamal groups (p, g); curves of prime order with generator
DsaG == {<<7, 3, 2>>, <<11, 5, 3>>, <<23, 11, 2>>, <<29, 7, 7>>}
EgG == {<<5, 2>>, <<7, 3>>, <<11, 2>>, <<13, 2>>}
\* p a b gx gy n
EdG == {<<7, 1, 1, 0, 1, 5>>, <<11, 1, 3, 0, 5, 18>>, <<5, 1, 1, 0, 1, 9>>, <<7, 0, 3, 1, 2, 13>>, <<11, 4, 1, 0, 1, 11>>,
        <<13, 0, 7, 7, 5, 7>>, <<17, 2, 2, 5, 1, 19>>}
Keys ==
  CASE Scheme = "dsa" -> UNION {{[p |-> B(t[1]), q |-> B(t[2]), g |-> B(t[3]), x |-> B(x),
                                  y |-> BModExp(B(t[3]), B(x), B(t[1]))] : x \in 1..(t[2] - 1)} : t \in DsaG}
    [] Scheme = "elgamal" -> UNION {{[p |-> B(t[1]), g |-> B(t[2]), x |-> B(x),
                                      y |-> BModExp(B(t[2]), B(x), B(t[1]))] : x \in 1..(t[1] - 2)} : t \in EgG}
    [] Scheme = "ecdsa" -> UNION {LET c == [p |-> B(t[1]), a |-> B(t[2]), b |-> B(t[3]), gx |-> B(t[4]), gy |-> B(t[5]), n |-> B(t[6])]
                                      ok == OnCurve(c, Gen(c)) /\ EMul(c, c.n, Gen(c)) = Inf /\ BIsPrime(c.n) IN
                                  IF ~ok THEN {} ELSE
                                  {[p |-> c.p, a |-> c.a, b |-> c.b, gx |-> c.gx, gy |-> c.gy, n |-> c.n,
                                    d |-> B(d), q |-> EMul(c, B(d), Gen(c))] : d \in 1..(t[6] - 1)} : t \in EdG}
Ord(k) == CASE Scheme = "dsa" -> ToInt(k.q) [] Scheme = "elgamal" -> ToInt(k.p) - 1 [] Scheme = "ecdsa" -> ToInt(k.n)
SigOf(k, t, m) == CASE Scheme = "dsa" -> DsaSig(k, t, m) [] Scheme = "elgamal" -> EgSig(k, t, m) [] Scheme = "ecdsa" -> EdSig(k, t, m)
Ok(k, s, m) == CASE Scheme = "dsa" -> DsaAccepts(k, s[1], s[2], m) [] Scheme = "elgamal" -> EgAccepts(k, s[1], s[2], m)
                 [] Scheme = "ecdsa" -> EdAccepts(k, s[1], s[2], m)
Digests == {<<>>} \cup {<<x>> : x \in {0, 1, 2, 7, 16, 85, 128, 200, 255}} 
Nonces(k) == {t \in 1..(Ord(k) - 1) : BGcd(B(t), B(Ord(k))) = BOne}

Init == /\ key \in Keys /\ dig \in Digests /\ sig = <<>> /\ sent = <<>> /\ phase = "idle"
Sign == /\ phase = "idle"
        /\ \E t \in Nonces(key) :
             LET s == SigOf(key, B(t), dig) IN
             IF s[2] = BZero \/ s[1] = BZero THEN UNCHANGED vars
             ELSE sig' = s /\ sent' = s /\ phase' = "signed" /\ UNCHANGED <<key, dig>>
\* the adversary replaces components by anything from -1 to twice the order
Alter == /\ phase = "signed"
         /\ \E x \in -1..(2 * Ord(key)) :
              \/ sent' = <<B(x), sig[2]>>
              \/ sent' = <<sig[1], B(x)>>
              \/ sent' = <<BAdd(sig[1], B(Ord(key))), B(x)>>
         /\ phase' = "altered" /\ UNCHANGED <<key, dig, sig>>
Next == Sign \/ Alter
Spec == Init /\ [][Next]_vars

InR(s) == InRange(s[2], B(Ord(key))) /\ InRange(s[1], IF Scheme = "elgamal" THEN key.p ELSE B(Ord(key)))
OwnAccepted == phase = "signed" => Ok(key, sig, dig)
OwnInRange == phase = "signed" => InR(sig)
OutOfRangeRejected == phase = "altered" /\ ~InR(sent) => ~Ok(key, sent, dig)
\* what passes is exactly what the owner's secret explains: r comes from the nonce that (r, s) implies
ForgedS ==
  (phase = "altered" /\ InR(sent)) =>
    CASE Scheme = "dsa" -> Ok(key, sent, dig) =
           (BMod(BModExp(key.g, DsaNonce(key, sent[1], sent[2], dig), key.p), key.q) = sent[1])
      [] Scheme = "ecdsa" -> Ok(key, sent, dig) = EdSignedBy(key, sent[1], sent[2], dig)
      [] Scheme = "elgamal" -> Ok(key, sent, dig) =       \* r = g^t for the generator g: t s + x r = z modulo p - 1
           (\E t \in 1..Ord(key) : /\ BModExp(key.g, B(t), key.p) = sent[1]
                                   /\ BMod(BSub(BAdd(BMul(B(t), sent[2]), BMul(key.x, sent[1])), BFromBE(dig)), B(Ord(key))) = BZero)
\* the nonce is recovered from the owner's signature; the shortcut used for signing is the full check
Recover ==
  phase = "signed" =>
    CASE Scheme = "dsa" -> LET t == DsaNonce(key, sig[1], sig[2], dig) IN InRange(t, key.q) /\ DsaSig(key, t, dig) = sig
      [] Scheme = "ecdsa" -> LET t == EdNonce(key, sig[1], sig[2], dig) IN InRange(t, key.n) /\ EdSig(key, t, dig) = sig
      [] OTHER -> TRUE
Shortcut == Scheme = "ecdsa" /\ phase # "idle" => (EdSignedBy(key, sent[1], sent[2], dig) = EdAccepts(key, sent[1], sent[2], dig))
=============================================================================
