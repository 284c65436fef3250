------------------------------- MODULE BigNum -------------------------------
(***************************************************************************)
(* Integers of unbounded size (TLC's own integers are 32 bit).             *)
(*                                                                         *)
(* An integer is <<neg, mag>>: neg is 0 or 1, mag the base-256 magnitude,  *)
(* least significant byte first, without a most significant zero byte.     *)
(* Zero is <<0, <<>>>>, so TLA+ equality is equality of integers.          *)
(*                                                                         *)
(* The definitions below are the meaning.  TLC replaces the operators      *)
(* listed in java/BigNum.java by java.math.BigInteger when that class is   *)
(* on its class path; BigNumSelf.tla compares the two.                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

BB == 256
BZero == <<0, <<>>>>

IsBig(a) == /\ a[1] \in {0, 1}
            /\ \A i \in 1..Len(a[2]) : a[2][i] \in 0..(BB-1)
            /\ (Len(a[2]) > 0 => a[2][Len(a[2])] # 0)
            /\ (Len(a[2]) = 0 => a[1] = 0)

(* ---- magnitudes ---- *)
RECURSIVE Trim(_)
Trim(m) == IF Len(m) > 0 /\ m[Len(m)] = 0 THEN Trim(SubSeq(m, 1, Len(m)-1)) ELSE m

Dig(m, i) == IF i <= Len(m) THEN m[i] ELSE 0
Max2(x, y) == IF x > y THEN x ELSE y

RECURSIVE CarryFrom(_, _, _)
\* propagate carries in a sequence of column sums (columns small enough for 32 bits)
CarryFrom(cols, i, c) ==
  IF i > Len(cols)
    THEN IF c = 0 THEN <<>> ELSE <<c % BB>> \o CarryFrom(cols, i, c \div BB)
    ELSE LET t == cols[i] + c IN <<t % BB>> \o CarryFrom(cols, i+1, t \div BB)

MAdd(x, y) == Trim(CarryFrom([i \in 1..Max2(Len(x), Len(y)) |-> Dig(x,i) + Dig(y,i)], 1, 0))
\* x >= y.  (t - (t mod BB)) \div BB is floor division, also for negative t
MSub(x, y) == Trim(CarryFrom([i \in 1..Len(x) |-> Dig(x,i) - Dig(y,i)], 1, 0))

RECURSIVE SumTo(_, _, _, _)
SumTo(x, y, k, i) ==
  IF i > k THEN 0 ELSE Dig(x, i) * Dig(y, k + 1 - i) + SumTo(x, y, k, i+1)
MMul(x, y) == IF x = <<>> \/ y = <<>> THEN <<>> ELSE
              Trim(CarryFrom([k \in 1..(Len(x)+Len(y)) |-> SumTo(x, y, k, 1)], 1, 0))

RECURSIVE MCmpFrom(_, _, _)
MCmpFrom(x, y, i) == IF i = 0 THEN 0
                     ELSE IF x[i] < y[i] THEN -1 ELSE IF x[i] > y[i] THEN 1
                     ELSE MCmpFrom(x, y, i-1)
MCmp(x, y) == IF Len(x) < Len(y) THEN -1 ELSE IF Len(x) > Len(y) THEN 1
              ELSE MCmpFrom(x, y, Len(x))

RECURSIVE QDigit(_, _, _, _)
\* the largest q in lo..hi with y * q <= r (y * lo <= r holds)
QDigit(r, y, lo, hi) ==
  IF lo = hi THEN lo
  ELSE LET mid == (lo + hi + 1) \div 2 IN
       IF MCmp(MMul(y, <<mid>>), r) <= 0 THEN QDigit(r, y, mid, hi) ELSE QDigit(r, y, lo, mid - 1)
RECURSIVE MDivFrom(_, _, _, _)
MDivFrom(x, y, i, r) ==             \* long division; result <<quotient digits, remainder>>
  IF i = 0 THEN <<<<>>, r>>
  ELSE LET r1 == Trim(<<x[i]>> \o r)
           q  == QDigit(r1, y, 0, BB-1)
           r2 == MSub(r1, MMul(y, Trim(<<q>>)))
           rest == MDivFrom(x, y, i-1, r2)
       IN <<rest[1] \o <<q>>, rest[2]>>
MDiv(x, y) == LET d == MDivFrom(x, y, Len(x), <<>>) IN <<Trim(d[1]), d[2]>>

(* ---- signed integers ---- *)
Mk(s, m) == IF m = <<>> THEN BZero ELSE <<s, m>>
BNeg(a) == Mk(1 - a[1], a[2])
BAbs(a) == <<0, a[2]>>

BAdd(a, b) == IF a[1] = b[1] THEN Mk(a[1], MAdd(a[2], b[2]))
              ELSE IF MCmp(a[2], b[2]) >= 0 THEN Mk(a[1], MSub(a[2], b[2]))
              ELSE Mk(b[1], MSub(b[2], a[2]))
BSub(a, b) == BAdd(a, BNeg(b))
BMul(a, b) == Mk((a[1] + b[1]) % 2, MMul(a[2], b[2]))
BCmp(a, b) == IF a[1] # b[1] THEN (IF a[1] = 1 THEN -1 ELSE 1)
              ELSE IF a[1] = 0 THEN MCmp(a[2], b[2]) ELSE MCmp(b[2], a[2])
BLt(a, b) == BCmp(a, b) < 0
BLe(a, b) == BCmp(a, b) <= 0

RECURSIVE NatMag(_)
NatMag(n) == IF n = 0 THEN <<>> ELSE <<n % BB>> \o NatMag(n \div BB)
B(n) == IF n < 0 THEN <<1, NatMag(-n)>> ELSE <<0, NatMag(n)>>
BOne == B(1)
BTwo == B(2)

\* floor(a / b), b # 0
BFloorDiv(a, b) ==
  LET d == MDiv(a[2], b[2]) IN
  IF a[1] = b[1] \/ a = BZero THEN Mk(0, d[1])
  ELSE IF d[2] = <<>> THEN Mk(1, d[1])
  ELSE Mk(1, MAdd(d[1], <<1>>))
BMod(a, b) == BSub(a, BMul(BFloorDiv(a, b), b))      \* in [0, b) for b > 0

RECURSIVE BExp(_, _)
BExp(b, e) == IF e = 0 THEN BOne ELSE BMul(b, BExp(b, e-1))

BShl(a, n) == BMul(a, BExp(BTwo, n))
BShr(a, n) == Mk(a[1], MDiv(a[2], BExp(BTwo, n)[2])[1])   \* magnitude shift

BIsOdd(a) == Len(a[2]) > 0 /\ a[2][1] % 2 = 1
BIsZero(a) == a[2] = <<>>
BIsNeg(a) == a[1] = 1

RECURSIVE ByteBits(_)
ByteBits(x) == IF x = 0 THEN 0 ELSE 1 + ByteBits(x \div 2)
BBits(a) == IF a[2] = <<>> THEN 0 ELSE 8 * (Len(a[2]) - 1) + ByteBits(a[2][Len(a[2])])
BBytes(a) == Len(a[2])

RECURSIVE BModExp(_, _, _)        \* b^e mod m, e >= 0, m > 0
BModExp(b, e, m) ==
  IF e = BZero THEN BMod(BOne, m)
  ELSE LET h == BModExp(b, BShr(e, 1), m)
           s == BMod(BMul(h, h), m)
       IN IF BIsOdd(e) THEN BMod(BMul(s, b), m) ELSE s

RECURSIVE BGcd(_, _)
BGcd(a, b) == IF b = BZero THEN BAbs(a) ELSE BGcd(b, BMod(a, BAbs(b)))

RECURSIVE BEgcd(_, _, _, _)       \* invariant: s0 * a = r0, s1 * a = r1 (mod m)
BEgcd(r0, r1, s0, s1) ==
  IF r1 = BZero THEN <<r0, s0>>
  ELSE LET q == BFloorDiv(r0, r1) IN
       BEgcd(r1, BSub(r0, BMul(q, r1)), s1, BSub(s0, BMul(q, s1)))
\* the inverse of a modulo m (m > 0) in [0, m), or -1 if there is none
BInv(a, m) ==
  LET e == BEgcd(BMod(a, m), m, BOne, BZero) IN
  IF e[1] = BOne THEN BMod(e[2], m) ELSE B(-1)

RECURSIVE BSqrtNewton(_, _)
BSqrtNewton(n, x) == LET y == BShr(BAdd(x, BFloorDiv(n, x)), 1) IN
                     IF BLe(x, y) THEN x ELSE BSqrtNewton(n, y)
BSqrt(n) == IF n = BZero THEN BZero
            ELSE BSqrtNewton(n, BShl(BOne, (BBits(n) + 1) \div 2))   \* floor of the square root

RECURSIVE MagInt(_, _)
MagInt(m, i) == IF i > Len(m) THEN 0 ELSE m[i] + BB * MagInt(m, i + 1)
\* for values below 2^31
ToInt(a) == IF a[1] = 1 THEN -MagInt(a[2], 1) ELSE MagInt(a[2], 1)

BIsPrime(a) == /\ BLt(BOne, a)
               /\ \A d \in 2..ToInt(BSqrt(a)) : BMod(a, B(d)) # BZero

(* ---- byte strings, big endian ---- *)
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
BFromBE(s) == Mk(0, Trim(Rev(s)))
BToBE(a) == Rev(a[2])
BToBEPad(a, n) == [i \in 1..n |-> Dig(a[2], n + 1 - i)]
=============================================================================
