------------------------------ MODULE HashSelf ------------------------------
(* The overridden operators of Hash against their own TLA+ definitions.      *)
EXTENDS Hash, TLC
P == INSTANCE HashPure
CONSTANT Lens, Bases
VARIABLE n, b, k
Init == n \in Lens /\ b \in Bases /\ k = 0
Next == k = 0 /\ k' = 1 /\ UNCHANGED <<n, b>>
Spec == Init /\ [][Next]_<<n, b, k>>
M == [i \in 1..n |-> (b + 7 * i * i + 3 * i) % 256]
Agree == k = 0 \/
  /\ Md5(M) = P!Md5(M) /\ Sha1(M) = P!Sha1(M) /\ Sha256(M) = P!Sha256(M)
  /\ Sha384(M) = P!Sha384(M) /\ Sha512(M) = P!Sha512(M)
  /\ HashZeros("sha512", 0, n) = P!Sha512(Zeros(n)) /\ HashZeros("md5", 0, n) = P!Md5(Zeros(n))
=============================================================================
