------------------------------ MODULE MpiLaws ------------------------------
(* The meaning given in Mpi against the mathematical statement of the        *)
(* properties, for all pairs of small integers (TLC's own integers).         *)
EXTENDS Mpi
CONSTANT K
VARIABLES x, y
LawInit == x \in -K..K /\ y = -K /\ MpiInit
LawNext == y < K /\ y' = y + 1 /\ UNCHANGED <<x, reg, ret>>
LawSpec == LawInit /\ [][LawNext]_<<x, y, mvars>>

Iabs(n) == IF n < 0 THEN -n ELSE n
Sgn(n) == IF n < 0 THEN -1 ELSE IF n > 0 THEN 1 ELSE 0
Divides(d, n) == \E k \in -Iabs(n)..Iabs(n) : k * d = n
IsGcd(g, a, b) ==
  IF a = 0 /\ b = 0 THEN g = 0
  ELSE /\ g > 0 /\ Divides(g, a) /\ Divides(g, b)
       /\ \A d \in 1..(Iabs(a) + Iabs(b)) : (Divides(d, a) /\ Divides(d, b)) => d <= g

Ring == /\ B(x) = <<IF x < 0 THEN 1 ELSE 0, B(x)[2]>> /\ IsBig(B(x)) /\ ToInt(B(x)) = x
        /\ BAdd(B(x), B(y)) = B(x + y)
        /\ BSub(B(x), B(y)) = B(x - y)
        /\ BMul(B(x), B(y)) = B(x * y)
        /\ BCmp(B(x), B(y)) = Sgn(x - y)
        /\ BAbs(B(x)) = B(Iabs(x))
Division ==
  y # 0 => LET qr == QuotRem(B(x), B(y)) q == ToInt(qr[1]) r == ToInt(qr[2]) IN
           /\ r = Iabs(x - q * y) /\ 0 <= r /\ r < Iabs(y)
           /\ (y > 0 => x = q * y + r)
           /\ q * y <= x \/ y < 0
           /\ q = (IF y > 0 THEN x \div y ELSE (-x) \div (-y))      \* TLA+ \div is floor
Number ==
  /\ IsGcd(ToInt(BGcd(B(x), B(y))), x, y)
  /\ LET m == ToInt(BLcm(B(x), B(y))) IN
     IF x = 0 \/ y = 0 THEN m = 0
     ELSE m > 0 /\ Divides(x, m) /\ Divides(y, m) /\ \A k \in 1..(m - 1) : ~(Divides(x, k) /\ Divides(y, k))
  /\ x >= 0 => LET s == ToInt(BSqrt(B(x))) IN s >= 0 /\ s * s <= x /\ x < (s + 1) * (s + 1)
  /\ y > 1 => LET v == BInv(B(x), B(y)) IN
              IF IsGcd(1, x, y) THEN ToInt(v) \in 0..(y - 1) /\ (x * ToInt(v)) % y = 1
              ELSE v = B(-1)
  /\ (y > 0 /\ x >= 0 /\ x < 8) => BModExp(B(y - 3), B(x), B(y)) = B(ToInt(BMod(BExp(B(y - 3), x), B(y))))
Shifts ==
  \A n \in 0..9 : /\ BShl(B(x), n) = B(x * 2^n)
                  /\ ToInt(BShr(B(x), n)) = Sgn(x) * (Iabs(x) \div 2^n)
Sizes == LET b == BBits(B(x)) IN
         IF x = 0 THEN b = 0 ELSE 2^(b - 1) <= Iabs(x) /\ Iabs(x) < 2^b
Texts == \A radix \in {2, 3, 10, 16} :
           /\ ValidNumeral(Text(B(x), radix), radix)
           /\ Numeral(Text(B(x), radix), radix) = B(x)
IntPrime(n) == n > 1 /\ \A d \in 2..(n - 1) : d * d > n \/ n % d # 0
Primes == y = -K => BIsPrime(B(x)) = IntPrime(x)
Bytes == x >= 0 => /\ BFromBE(BToBE(B(x))) = B(x)
                   /\ BFromBE(BToBEPad(B(x), 5)) = B(x)
=============================================================================
