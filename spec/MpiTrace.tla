------------------------------ MODULE MpiTrace ------------------------------
(* Recorded calls of the real library against Mpi: every event carries the   *)
(* whole register file after the call, so that a change of an operand is     *)
(* rejected like a wrong result.                                             *)
EXTENDS Mpi, TraceBase

A(i) == Ev.a[i]
Logged == reg' = Ev.s
Junk(r) == Ev.s[r]
Rets == ret' = Ev.r

TNew == Is("new") /\ reg' = [i \in Regs |-> BZero] /\ ret' = <<0>>
TSet == Is("mset") /\ Load(A(1), A(2)) /\ Logged
TBin == Is("bin") /\ Bin(A(1), A(2), A(3), A(4), Junk(A(2))) /\ Logged /\ Rets
TUn == Is("un") /\ Un(A(1), A(2), A(3), Junk(A(2))) /\ Logged /\ Rets
TMulDig == Is("muldig") /\ MulDig(A(1), A(2), A(3)) /\ Logged /\ Rets
J0(r) == IF r = 0 THEN BZero ELSE Ev.s[r]
TDiv == Is("div") /\ Div(A(1), A(2), A(3), A(4), J0(A(1)), J0(A(2))) /\ Logged /\ Rets
TDivAbs == Is("divabs") /\ DivAbs(A(1), A(2), A(3), A(4), J0(A(1)), J0(A(2))) /\ Logged /\ Rets
TMod == Is("mod") /\ Mod(A(1), A(2), A(3), J0(A(1))) /\ Logged /\ Rets
TModExp == Is("modexp") /\ ModExp(A(1), A(2), A(3), A(4), Junk(A(1))) /\ Logged /\ Rets
TShl == Is("shl") /\ Shl(A(1), A(2), A(3)) /\ Logged /\ Rets
TShr == Is("shr") /\ Shr(A(1), A(2), A(3)) /\ Logged /\ Rets
TCmp == Is("cmp") /\ Cmp(A(1), A(2)) /\ Logged /\ Rets
TCmpAbs == Is("cmpabs") /\ CmpAbs(A(1), A(2)) /\ Logged /\ Rets
TInfo == Is("info") /\ Info(A(1)) /\ Logged /\ Rets
TSwap == Is("swap") /\ Swap(A(1), A(2)) /\ Logged
TZero == Is("zero") /\ Load(A(1), BZero) /\ Logged
TSetInt == Is("setint") /\ SetInt(A(1), A(2)) /\ Logged /\ Rets
TGetInt == Is("getint") /\ GetInt(A(1)) /\ Logged /\ Rets
TLoadBin == Is("loadbin") /\ LoadBin(A(1), A(2)) /\ Logged /\ Rets
TStoreBin == Is("storebin") /\ StoreBin(A(1), [i \in 1..A(2) |-> 238], A(3)) /\ Logged /\ Rets
TLoadStr == Is("loadstr") /\ LoadStr(A(1), A(2), A(3), Junk(A(1))) /\ Logged /\ Rets
TStoreStr == Is("storestr") /\ StoreStr(A(1), A(2)) /\ Logged /\ Rets
TInit == /\ Is("init")
         /\ CASE A(1) = "plain" -> InitPlain(A(2))
              [] A(1) = "size" -> InitPlain(A(2))
              [] A(1) = "copy" -> InitCopy(A(2), A(3))
              [] A(1) = "int" -> SetInt(A(2), A(3))
              [] A(1) = "bin" -> LoadBin(A(2), A(3))
              [] A(1) = "str" -> LoadStr(A(2), A(3), A(4), Junk(A(2)))
         /\ Logged /\ Rets
TClear == Is("clear") /\ Load(A(1), BZero) /\ Logged

\* the text ends with a line feed
TPrint == Is("print") /\ UNCHANGED mvars /\ Logged /\ Ev.r = <<Append(Text(reg[A(1)], A(2)), 10)>>

TRand == Is("rand") /\ Rand(A(1), A(2), Junk(A(1))) /\ Logged /\ Rets
TRandRange == Is("randrange") /\ RandRange(A(1), A(2), Junk(A(1))) /\ Logged /\ Rets
TRnd == (Is("rnd") \/ Is("rndat") \/ Is("rndcnt")) /\ UNCHANGED mvars
TIsPrime == Is("isprime") /\ IsPrime(A(1)) /\ Logged /\ Rets
\* many numbers at once; the random rounds may err, in the direction "prime" and rarely
TIsPrimes ==
  /\ Is("isprimes") /\ UNCHANGED mvars /\ Logged
  /\ Len(Ev.r) = Len(Ev.a)
  /\ \A i \in DOMAIN Ev.a : Ev.r[i] = 1 \/ (Ev.r[i] = 0 /\ ~BIsPrime(A(i)))
  /\ 40 * Cardinality({i \in DOMAIN Ev.a : Ev.r[i] = 1 /\ ~BIsPrime(A(i))}) <= Len(Ev.a)

\* candidates are the generator's bytes with the two top bits and the lowest bit set; when the
\* scenario made the last allowed candidate a prime (A(4)), failure is not an option
TPrime == /\ Is("prime") /\ Logged /\ Rets
          /\ IF Ev.r[1] = 0 THEN GenPrime(A(1), A(2), A(3), IF A(3) = 0 THEN 0 ELSE Ev.r[2], Junk(A(1)))
             ELSE (Len(Ev.a) < 4) /\ GenPrimeFail(A(1), A(3), Ev.r[2], Junk(A(1)))

TraceInit == MpiInit /\ l = 1
TraceNext == \/ TNew \/ TSet \/ TBin \/ TUn \/ TMulDig \/ TDiv \/ TDivAbs \/ TMod \/ TModExp
             \/ TShl \/ TShr \/ TCmp \/ TCmpAbs \/ TInfo \/ TSwap \/ TZero \/ TSetInt \/ TGetInt
             \/ TLoadBin \/ TStoreBin \/ TLoadStr \/ TStoreStr \/ TInit \/ TClear
             \/ TPrint \/ TRand \/ TRandRange \/ TRnd \/ TIsPrime \/ TIsPrimes \/ TPrime
TraceSpec == TraceInit /\ [][TraceNext]_<<mvars, l>>
=============================================================================
