----------------------------- MODULE ModesSelf -----------------------------
EXTENDS Modes
P == INSTANCE ModesPure
CONSTANT Seeds
VARIABLE n, k
Init == n \in Seeds /\ k = 0
Next == k = 0 /\ k' = 1 /\ UNCHANGED n
Spec == Init /\ [][Next]_<<n, k>>
S(len, a) == TLCEval([i \in 1..len |-> (n * (a + 5 * i) + 7 * i * i * (n % 11) + a) % 256])
Agree == k = 0 \/ GfMul(S(16, 3), S(16, 8)) = P!GfMul(S(16, 3), S(16, 8))
=============================================================================
