------------------------------ MODULE EccSelf ------------------------------
(* The overridden EMul against its TLA+ definition (EccPure is a copy of Ecc   *)
(* for which TLC finds no override): all points of the curves over a tiny      *)
(* field, and the built-in curves with a few long scalars.                     *)
EXTENDS Ecc, Curves, Json, IOUtils
CONSTANTS Prime, K
P == INSTANCE EccPure
Nums == ndJsonDeserialize(IOEnv.NUMS)
Fld == 0..(Prime - 1)
Tiny == {c \in {[p |-> B(Prime), a |-> B(a), b |-> B(b)] : a \in Fld, b \in Fld} : NonSingular(c)}
Points(c) == {Inf} \cup {Q \in {Aff(B(x), B(y)) : x \in Fld, y \in Fld} : OnCurve(c, Q)}
VARIABLES c, u, k
Init == \/ c \in Tiny /\ u \in Points(c) /\ k = BZero
        \/ \E i \in 1..11 : c = CurveTab[i] /\ u = Aff(c.gx, c.gy) /\ k = Nums[i]
Next == /\ c.p = B(Prime) /\ BLt(k, B(K))
        /\ k' = BAdd(k, BOne) /\ UNCHANGED <<c, u>>
Spec == Init /\ [][Next]_<<c, u, k>>
Agree == EMul(c, k, u) = P!EMul(c, k, u)
=============================================================================
