--------------------------------- MODULE Ecc ---------------------------------
(***************************************************************************)
(* The group of points of a short Weierstrass curve y^2 = x^3 + a x + b     *)
(* over the integers modulo a prime p > 3, by the chord-and-tangent law.    *)
(*                                                                         *)
(* A curve is a record c with the numbers p, a, b (a may be given as a      *)
(* negative number); a point is <<1, 0, 0>> (infinity) or <<0, x, y>> with  *)
(* x, y in [0, p).                                                          *)
(***************************************************************************)
EXTENDS BigNum, TLC

Inf == <<1, BZero, BZero>>
Aff(x, y) == <<0, x, y>>

OnCurve(c, P) ==
  \/ P = Inf
  \/ /\ P[1] = 0
     /\ ~BIsNeg(P[2]) /\ BLt(P[2], c.p) /\ ~BIsNeg(P[3]) /\ BLt(P[3], c.p)
     /\ LET x == P[2] y == P[3] IN
        BMod(BMul(y, y), c.p) = BMod(BAdd(BAdd(BMul(x, BMul(x, x)), BMul(c.a, x)), c.b), c.p)

\* 4 a^3 + 27 b^2 # 0
NonSingular(c) ==
  BMod(BAdd(BMul(B(4), BMul(c.a, BMul(c.a, c.a))), BMul(B(27), BMul(c.b, c.b))), c.p) # BZero

ENeg(c, P) == IF P = Inf THEN Inf ELSE Aff(P[2], BMod(BNeg(P[3]), c.p))

\* the third intersection, reflected: the line of slope num / den through P and Q
Chord(c, P, Q, num, den) ==
  LET lam == BMod(BMul(num, BInv(den, c.p)), c.p)
      x == BMod(BSub(BSub(BMul(lam, lam), P[2]), Q[2]), c.p)
      y == BMod(BSub(BMul(lam, BSub(P[2], x)), P[3]), c.p)
  IN Aff(x, y)

EDbl(c, P) ==
  IF P = Inf THEN Inf
  ELSE IF BMod(BMul(BTwo, P[3]), c.p) = BZero THEN Inf
  ELSE Chord(c, P, P, BAdd(BMul(B(3), BMul(P[2], P[2])), c.a), BMul(BTwo, P[3]))

EAdd(c, P, Q) ==
  IF P = Inf THEN Q
  ELSE IF Q = Inf THEN P
  ELSE IF P[2] = Q[2] THEN (IF P[3] = Q[3] THEN EDbl(c, P) ELSE Inf)
  ELSE Chord(c, P, Q, BSub(Q[3], P[3]), BSub(Q[2], P[2]))

RECURSIVE EMul(_, _, _)              \* k >= 0
EMul(c, k, P) ==
  IF k = BZero THEN Inf
  ELSE LET h == TLCEval(EDbl(c, EMul(c, BShr(k, 1), P))) IN
       IF BIsOdd(k) THEN TLCEval(EAdd(c, h, P)) ELSE h

\* k * P by repeated addition, the meaning of EMul (k a small natural number)
RECURSIVE ERep(_, _, _)
ERep(c, k, P) == IF k = 0 THEN Inf ELSE EAdd(c, ERep(c, k - 1, P), P)

=============================================================================
