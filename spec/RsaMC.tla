------------------------------- MODULE RsaMC -------------------------------
(* RSA without padding over all small keys, and the v1.5 block format over a   *)
(* small alphabet: what is formatted is recovered, and nothing else passes.   *)
EXTENDS PkMath
CONSTANTS MaxPrime, BlkLen, MinPs
VARIABLES key, msg, out, phase
vars == <<key, msg, out, phase>>
Primes == {p \in 3..MaxPrime : BIsPrime(B(p))}
Keys == {k \in {[pad |-> 0, n |-> B(p * q), e |-> B(e), d |-> BInv(B(e), B(((p - 1) * (q - 1)) \div ToInt(BGcd(B(p-1), B(q-1)))))] :
                 p \in Primes, q \in Primes, e \in {3, 5, 7}} :
          k.d # B(-1) /\ \A p \in Primes : k.n # B(p * p)}
Bytes == {0, 1, 2, 17, 254, 255}
Msgs == {<<x>> : x \in 0..255} \cup {<<x, y>> : x \in Bytes, y \in Bytes} \cup {<<x, 0, y>> : x \in Bytes, y \in Bytes}
Init == key \in Keys /\ msg \in Msgs /\ out = <<>> /\ phase = "idle"
Enc == phase = "idle" /\ RsaCan(key, msg) /\ out' = RsaNoPadEnc(key, msg)[2] /\ phase' = "enc" /\ UNCHANGED <<key, msg>>
Sig == phase = "idle" /\ RsaCan(key, msg) /\ out' = RsaSignOf(key, msg)[2] /\ phase' = "sig" /\ UNCHANGED <<key, msg>>
Next == Enc \/ Sig
Spec == Init /\ [][Next]_vars
Inverts == phase = "enc" => LET o == RsaDecOf(key, out) IN
             o[1] = 0 /\ o[2] = msg \o Zeros(Len(o[2]) - Len(msg)) /\ Len(o[2]) % KLen(key) = 0
Verifies == phase = "sig" => RsaAccepts(key, out, msg)
\* a signature is good for its message only (up to zeros at the end of the last block)
Binds == phase = "sig" => \A x \in Bytes : \A m2 \in {<<x>> \o Tail(msg), Append(msg, x), SubSeq(msg, 1, Len(msg) - 1)} :
           RsaAccepts(key, out, m2) =>
             (LET n == Max2(Len(m2), Len(msg)) IN m2 \o Zeros(n - Len(m2)) = msg \o Zeros(n - Len(msg)))
Partial == phase = "sig" => ~RsaAccepts(key, Append(out, 0), msg) /\ ~RsaAccepts(key, <<>>, msg)

\* the block format: all blocks over a small alphabet
Alpha == {0, 1, 2, 255}
Blocks == [1..BlkLen -> Alpha]
FmtInit == key = <<>> /\ msg = <<>> /\ phase = "fmt" /\ out \in Blocks
FmtSpec == FmtInit /\ [][FALSE]_vars
Wellformed(em, bt) == \E n \in MinPs..(BlkLen - 3) :
   /\ em[1] = 0 /\ em[2] = bt /\ em[n + 3] = 0
   /\ \A i \in 3..(n + 2) : em[i] # 0 /\ (bt = 1 => em[i] = 255)
Format == \A bt \in {1, 2} :
   /\ PadOK(out, bt, MinPs) = Wellformed(out, bt)
   /\ PadOK(out, bt, MinPs) => out = <<0, bt>> \o PadBytes(out) \o <<0>> \o PadData(out)
                               /\ Len(PadBytes(out)) >= MinPs /\ \A i \in DOMAIN PadBytes(out) : PadBytes(out)[i] # 0
=============================================================================
