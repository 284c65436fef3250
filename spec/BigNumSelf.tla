----------------------------- MODULE BigNumSelf -----------------------------
(* The overridden operators of BigNum against their own TLA+ definitions     *)
(* (BigNumPure is generated from BigNum.tla with another module name, so     *)
(* that TLC finds no override for it).                                       *)
EXTENDS BigNum, TLC, Json, IOUtils

P == INSTANCE BigNumPure
Nums == ndJsonDeserialize(IOEnv.NUMS)
N == Len(Nums)
VARIABLE i, j
Init == i \in 1..N /\ j = 0
Next == j < N /\ j' = j + 1 /\ UNCHANGED i
Spec == Init /\ [][Next]_<<i, j>>
Agree ==
  j = 0 \/
  LET a == Nums[i] b == Nums[j] p == BAbs(b) IN
  /\ IsBig(BAdd(a, b)) /\ BAdd(a, b) = P!BAdd(a, b)
  /\ BSub(a, b) = P!BSub(a, b)
  /\ BMul(a, b) = P!BMul(a, b)
  /\ BCmp(a, b) = P!BCmp(a, b)
  /\ BGcd(a, b) = P!BGcd(a, b)
  /\ b # BZero =>
       /\ BFloorDiv(a, b) = P!BFloorDiv(a, b)
       /\ BMod(a, b) = P!BMod(a, b)
       /\ BInv(a, p) = P!BInv(a, p) \/ p = BOne
       /\ Len(b[2]) <= 2 => BModExp(a, p, p) = P!BModExp(a, p, p)
  /\ \A n \in {0, 1, 7, 8, 9, 20} : BShl(a, n) = P!BShl(a, n) /\ BShr(a, n) = P!BShr(a, n)
  /\ BSqrt(p) = P!BSqrt(p)
  /\ Len(a[2]) <= 2 => BIsPrime(a) = P!BIsPrime(a)
  /\ BFromBE(BToBE(p)) = p
  /\ Len(a[2]) <= 3 => BExp(a, 5) = P!BExp(a, 5)
=============================================================================
