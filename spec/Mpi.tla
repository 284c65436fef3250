-------------------------------- MODULE Mpi --------------------------------
(***************************************************************************)
(* The multiple precision integer API: a register file whose registers     *)
(* hold integers, one action per call.  A call that cannot deliver returns *)
(* -1 and leaves its destination (only) unspecified: the parameter junk.   *)
(***************************************************************************)
EXTENDS BigNum, TLC
CONSTANT NReg
VARIABLES reg,      \* register -> integer
          ret       \* what the last call returned

mvars == <<reg, ret>>
Regs == 1..NReg

MpiInit == reg = [i \in Regs |-> BZero] /\ ret = <<0>>

Put(r, v) == [reg EXCEPT ![r] = v]

(* ---- what each operation means ---- *)
BLcm(x, y) == IF x = BZero \/ y = BZero THEN BZero
              ELSE BFloorDiv(BAbs(BMul(x, y)), BGcd(x, y))

MagMul == {"mul_abs", "mul_baseline", "mul_comba", "mul_karatsuba", "mul_toom3"}
BinOps == {"add", "sub", "mul", "add_abs", "sub_abs", "gcd", "lcm", "exp", "inv"} \cup MagMul
BinDef(op, x, y) ==
  CASE op = "sub_abs" -> BLe(BAbs(y), BAbs(x))
    [] op = "exp" -> ~BIsNeg(y)
    [] op = "inv" -> BLt(BZero, y) /\ BInv(x, y) # B(-1)
    [] OTHER -> TRUE
BinVal(op, x, y) ==
  CASE op = "add" -> BAdd(x, y)
    [] op = "sub" -> BSub(x, y)
    [] op = "mul" -> BMul(x, y)
    [] op = "add_abs" -> BAdd(BAbs(x), BAbs(y))
    [] op = "sub_abs" -> BSub(BAbs(x), BAbs(y))
    [] op \in MagMul -> BMul(BAbs(x), BAbs(y))
    [] op = "gcd" -> BGcd(x, y)
    [] op = "lcm" -> BLcm(x, y)
    [] op = "exp" -> BExp(x, ToInt(y))
    [] op = "inv" -> BInv(x, y)

Squares == {"sqr", "sqr_baseline", "sqr_comba", "sqr_karatsuba"}
UnOps == {"abs", "copy", "sqrt"} \cup Squares
UnDef(op, x) == op = "sqrt" => ~BIsNeg(x)
UnVal(op, x) ==
  CASE op = "abs" -> BAbs(x)
    [] op = "copy" -> x
    [] op \in Squares -> BMul(x, x)
    [] op = "sqrt" -> BSqrt(x)

(* ---- calls ---- *)
Fail(r, junk) == IsBig(junk) /\ reg' = Put(r, junk) /\ ret' = <<-1>>
Deliver(r, v) == reg' = Put(r, v) /\ ret' = <<0>>
Observe(v) == ret' = v /\ UNCHANGED reg

Load(r, v) == IsBig(v) /\ reg' = Put(r, v) /\ UNCHANGED ret

Bin(op, r, a, b, junk) ==
  IF BinDef(op, reg[a], reg[b]) THEN Deliver(r, BinVal(op, reg[a], reg[b])) ELSE Fail(r, junk)
Un(op, r, a, junk) ==
  IF UnDef(op, reg[a]) THEN Deliver(r, UnVal(op, reg[a])) ELSE Fail(r, junk)
MulDig(r, a, d) == Deliver(r, BMul(reg[a], B(d)))

\* registers q and r are 0 when the output is not wanted
Div2(q, r, qv, rv) ==
  /\ reg' = [i \in Regs |-> IF i = q THEN qv ELSE IF i = r THEN rv ELSE reg[i]]
  /\ ret' = <<0>>
FailDiv(q, r, jq, jr) ==
  /\ IsBig(jq) /\ IsBig(jr)
  /\ reg' = [i \in Regs |-> IF i = q THEN jq ELSE IF i = r THEN jr ELSE reg[i]]
  /\ ret' = <<-1>>
QuotRem(a, b) == LET q == BFloorDiv(a, b) IN <<q, BAbs(BSub(a, BMul(q, b)))>>
Div(q, r, a, b, jq, jr) ==
  IF reg[b] = BZero THEN FailDiv(q, r, jq, jr)
  ELSE LET qr == QuotRem(reg[a], reg[b]) IN Div2(q, r, qr[1], qr[2])
DivAbs(q, r, a, b, jq, jr) ==
  IF reg[b] = BZero THEN FailDiv(q, r, jq, jr)
  ELSE LET qr == QuotRem(BAbs(reg[a]), BAbs(reg[b])) IN Div2(q, r, qr[1], qr[2])
Mod(r, a, b, jr) == Div(0, r, a, b, BZero, jr)

ModExp(r, b, e, m, junk) ==
  IF BIsNeg(reg[e]) \/ BIsNeg(reg[m]) \/ reg[m] = BZero THEN Fail(r, junk)
  ELSE Deliver(r, BModExp(reg[b], reg[e], reg[m]))

Shl(r, a, n) == Deliver(r, BShl(reg[a], n))
Shr(r, a, n) == Deliver(r, BShr(reg[a], n))

Cmp(a, b) == Observe(<<BCmp(reg[a], reg[b])>>)
CmpAbs(a, b) == Observe(<<BCmp(BAbs(reg[a]), BAbs(reg[b]))>>)
Flag(p) == IF p THEN 1 ELSE 0
Info(a) == Observe(<<BBits(reg[a]), BBytes(reg[a]), Flag(BIsZero(reg[a])), Flag(BIsOdd(reg[a])),
                     Flag(~BIsOdd(reg[a])), Flag(~BIsNeg(reg[a])), Flag(BIsNeg(reg[a]))>>)
Swap(a, b) == /\ reg' = [reg EXCEPT ![a] = reg[b], ![b] = reg[a]]
              /\ UNCHANGED ret

(* ---- conversions ---- *)
LongBits == 63
FitsLong(v) == /\ BLe(BNeg(BExp(BTwo, LongBits)), v)
               /\ BLt(v, BExp(BTwo, LongBits))
SetInt(r, v) == FitsLong(v) /\ Deliver(r, v)
GetInt(r) == Observe(IF FitsLong(reg[r]) THEN <<0, reg[r]>> ELSE <<-1, BZero>>)

LoadBin(r, bytes) == Deliver(r, BFromBE(bytes))
\* the caller's buffer holds `before`; without padding only the value's bytes are written
StoreBin(r, before, pad) ==
  LET n == Len(before) k == BBytes(reg[r]) v == BToBE(reg[r]) IN
  Observe(IF k > n THEN <<-1, before>>
          ELSE IF pad # 0 THEN <<0, BToBEPad(reg[r], n)>>
          ELSE <<0, v \o SubSeq(before, k + 1, n)>>)

\* numerals: sequences of character codes
CharVal(c) == CASE c \in 48..57 -> c - 48
                [] c \in 97..122 -> c - 87
                [] c \in 65..90 -> c - 55
                [] OTHER -> 255
DigitChar(d) == IF d < 10 THEN 48 + d ELSE 87 + d
\* the value of the digits i..j of s (halving: numerals may be long)
RECURSIVE NumVal(_, _, _, _)
NumVal(s, radix, i, j) ==
  IF j < i THEN BZero
  ELSE IF i = j THEN B(CharVal(s[i]))
  ELSE LET m == (i + j) \div 2 IN
       BAdd(BMul(NumVal(s, radix, i, m), BExp(B(radix), j - m)), NumVal(s, radix, m + 1, j))
Unsigned(s) == IF s # <<>> /\ Head(s) \in {43, 45} THEN Tail(s) ELSE s
ValidNumeral(s, radix) ==
  /\ radix \in 2..36
  /\ LET u == TLCEval(Unsigned(s)) IN \A i \in DOMAIN u : CharVal(u[i]) < radix
Numeral(s, radix) ==
  LET u == TLCEval(Unsigned(s)) v == NumVal(u, radix, 1, Len(u)) IN
  IF s # <<>> /\ Head(s) = 45 THEN BNeg(v) ELSE v
LoadStr(r, radix, s, junk) ==
  IF ValidNumeral(s, radix) THEN Deliver(r, Numeral(s, radix)) ELSE Fail(r, junk)

\* the n lowest digits of v
RECURSIVE DigitsN(_, _, _)
DigitsN(v, radix, n) ==
  IF n = 1 THEN <<DigitChar(ToInt(v))>>
  ELSE LET h == n \div 2 p == BExp(B(radix), h) q == BFloorDiv(v, p) IN
       DigitsN(q, radix, n - h) \o DigitsN(BSub(v, BMul(q, p)), radix, h)
RECURSIVE StripZeros(_, _)
StripZeros(s, i) == IF i < Len(s) /\ s[i] = 48 THEN StripZeros(s, i + 1) ELSE SubSeq(s, i, Len(s))
BitsOf(radix) == IF radix < 4 THEN 1 ELSE IF radix < 8 THEN 2 ELSE IF radix < 16 THEN 3 ELSE 4    \* whole bits per digit
Digits(v, radix) == LET d == TLCEval(DigitsN(v, radix, (BBits(v) \div BitsOf(radix)) + 1)) IN StripZeros(d, 1)      \* v > 0
Text(v, radix) == IF v = BZero THEN <<48>>
                  ELSE (IF BIsNeg(v) THEN <<45>> ELSE <<>>) \o Digits(BAbs(v), radix)
StoreStr(r, radix) ==
  Observe(IF radix \in 2..16 THEN <<0, Text(reg[r], radix)>> ELSE <<-1, <<>>>>)

(* initialisers: like the loads, on memory that held no integer *)
InitPlain(r) == Deliver(r, BZero)
InitCopy(r, a) == Deliver(r, reg[a])

(* ---- random integers and primes ---- *)
InRange(v, m) == IsBig(v) /\ ~BIsNeg(v) /\ BLt(v, m)
Rand(r, n, v) == InRange(v, BShl(BOne, n)) /\ Deliver(r, v)
RandRange(r, m, v) == InRange(v, reg[m]) /\ Deliver(r, v)
IsPrime(a) == Observe(<<Flag(BIsPrime(reg[a]))>>)
\* at most `most` tries were allowed (0: the library's own limit)
GenPrime(r, n, most, tries, v) ==
  /\ BIsPrime(v) /\ BBits(v) = n
  /\ most = 0 \/ tries <= most
  /\ reg' = Put(r, v) /\ ret' = <<0, tries>>
GenPrimeFail(r, most, tries, junk) ==
  /\ most # 0 /\ tries <= most
  /\ IsBig(junk) /\ reg' = Put(r, junk) /\ ret' = <<-1, tries>>

TypeOK == \A i \in Regs : IsBig(reg[i])
=============================================================================
