------------------------------- MODULE EccMC -------------------------------
(* Ecc is a group: every non-singular curve over the field of P elements,     *)
(* every pair of points, every third point and every scalar up to K.         *)
EXTENDS Ecc
CONSTANTS Prime, K
VARIABLES c, u, v
Fld == 0..(Prime - 1)
Curve(a, b) == [p |-> B(Prime), a |-> B(a), b |-> B(b)]
Points(cc) == {Inf} \cup {P \in {Aff(B(x), B(y)) : x \in Fld, y \in Fld} : OnCurve(cc, P)}
Init == /\ c \in {cc \in {Curve(a, b) : a \in Fld, b \in Fld} : NonSingular(cc)}
        /\ u = Inf /\ v = Inf
\* the machine walks the curve by the operations of the specification
Next == /\ UNCHANGED c
        /\ \/ \E P \in Points(c) : u' = EAdd(c, u, P) /\ UNCHANGED v
           \/ \E P \in Points(c) : v' = EAdd(c, v, P) /\ UNCHANGED u
           \/ u' = EDbl(c, v) /\ UNCHANGED v
Spec == Init /\ [][Next]_<<c, u, v>>
Closed == OnCurve(c, u) /\ OnCurve(c, v) /\ OnCurve(c, EAdd(c, u, v)) /\ OnCurve(c, EDbl(c, u))
Commutes == EAdd(c, u, v) = EAdd(c, v, u)
Neutral == EAdd(c, u, Inf) = u /\ EAdd(c, u, ENeg(c, u)) = Inf /\ OnCurve(c, ENeg(c, u))
DblIsAdd == EDbl(c, u) = EAdd(c, u, u)
Associates == \A w \in Points(c) : EAdd(c, EAdd(c, u, v), w) = EAdd(c, u, EAdd(c, v, w))
MulIsRep == v = Inf => \A k \in 0..K : EMul(c, B(k), u) = ERep(c, k, u)
\* the order of the group lies in the Hasse interval and annihilates every point
Hasse == LET N == Cardinality(Points(c)) IN
         /\ (N - Prime - 1) * (N - Prime - 1) <= 4 * Prime
         /\ EMul(c, B(N), u) = Inf
=============================================================================
