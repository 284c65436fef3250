----------------------------- MODULE CipherSelf -----------------------------
EXTENDS Cipher
P == INSTANCE CipherPure
CONSTANT Seeds
ASSUME \A x \in 0..255 : SBox[x + 1] = SubByte(x) /\ InvSBox[SBox[x + 1] + 1] = x
VARIABLE n, k
Init == n \in Seeds /\ k = 0
Next == k = 0 /\ k' = 1 /\ UNCHANGED n
Spec == Init /\ [][Next]_<<n, k>>
S(len, a) == TLCEval([i \in 1..len |-> (n * (a + 5 * i) + 7 * i * i * (n % 11) + a) % 256])
Agree == k = 0 \/
  /\ \A kl \in {16, 24, 32} :
       /\ AesEnc(S(kl, 1), S(16, 2)) = P!AesEnc(S(kl, 1), S(16, 2))
       /\ AesDec(S(kl, 1), S(16, 3)) = P!AesDec(S(kl, 1), S(16, 3))
  /\ DesEnc(S(8, 1), S(8, 2)) = P!DesEnc(S(8, 1), S(8, 2))
  /\ DesDec(S(8, 1), S(8, 2)) = P!DesDec(S(8, 1), S(8, 2))
  /\ TdesEnc(S(24, 1), S(8, 2)) = P!TdesEnc(S(24, 1), S(8, 2))
  /\ TdesDec(S(24, 1), S(8, 2)) = P!TdesDec(S(24, 1), S(8, 2))
  /\ \A b \in {8, 16} : \A kl \in {1, 5, 16} :
       /\ ToyEnc(S(kl, 4), S(b, 2)) = P!ToyEnc(S(kl, 4), S(b, 2))
       /\ ToyDec(S(kl, 4), S(b, 2)) = P!ToyDec(S(kl, 4), S(b, 2))
       /\ ToyDec(S(kl, 4), ToyEnc(S(kl, 4), S(b, 2))) = S(b, 2)
=============================================================================
