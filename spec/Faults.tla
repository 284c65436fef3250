------------------------------- MODULE Faults -------------------------------
(* Allocation failures, as both API machines see them.  `fault` is            *)
(*   "none"   nothing is armed                                                *)
(*   "armed"  one allocation of the next call will be refused (if it makes    *)
(*            that many)                                                      *)
(*   "clean"  the armed call behaved as if nothing had happened               *)
(*   "failed" the armed call reported failure, which is allowed only if an     *)
(*            allocation was indeed refused.                                  *)
EXTENDS TraceBase
VARIABLE fault

FaultInit == fault = "none"
\* the event `fail n`
Arm == Is("fail") /\ fault = "none" /\ fault' = "armed"
\* the event `faults`: whether an allocation was refused
Settle == /\ Is("faults") /\ fault \in {"clean", "failed"}
          /\ (fault = "failed" => Ev.r[1] = 1)
          /\ fault' = "none"
\* initialisers on raw memory: nothing stays allocated after a failure, nor after clearing;
\* Ev.r = <<result, ..., what is left>>
Rollback == /\ fault' = (IF fault = "none" THEN "none" ELSE IF Ev.r[1] = 0 THEN "clean" ELSE "failed")
            /\ (Ev.r[1] # 0 => fault = "armed")
            /\ Ev.r[Len(Ev.r)] = 0
\* everything cleared by the library: nothing is left
AllBack == Is("giveback") /\ Ev.r = <<0>> /\ fault = "none" /\ UNCHANGED fault
\* a structure the library left behind: a number, possibly not normalised, never corrupt
Usable(v) == v[1] \in {0, 1} \/ v = <<9, <<0>>>>
=============================================================================
