------------------------------ MODULE SymFault ------------------------------
(* Recorded calls of Sym, where the listed finding is possible: the void      *)
(* helper memxor2 with the destination between two sources that all overlap   *)
(* does nothing when its temporary buffer cannot be had.                      *)
EXTENDS SymTrace
Tangled(d, s1, s2, n) ==
  LET lo == IF s1 < s2 THEN s1 ELSE s2
      hi == IF s1 < s2 THEN s2 ELSE s1 IN
  lo < d /\ d < hi /\ d < lo + n /\ hi < d + n /\ hi <= lo + n
NoTemp == /\ Is("memxor2") /\ Len(Ev.a) = 6 /\ Ev.a[6] > 0
          /\ Tangled(A(2), A(3), A(4), A(5))
          /\ Ev.r = <<A(1)>> /\ ret' = Ev.r /\ UNCHANGED <<ctx, prng, lfsr>>
FaultSpec == TraceInit /\ [][TraceNext \/ NoTemp]_<<svars, l>>
=============================================================================
