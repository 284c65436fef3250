------------------------------ MODULE MpiFault ------------------------------
(* Mpi with allocation failures: an armed call is either a step of Mpi, or it  *)
(* reports failure, changes no register but its destinations, and leaves       *)
(* those usable as destinations.                                              *)
EXTENDS MpiTrace, Faults

Dest(op, a) ==
  CASE op \in {"bin", "un", "init"} -> {a[2]}
    [] op \in {"muldig", "mod", "modexp", "shl", "shr", "setint", "loadbin", "loadstr", "rand", "randrange",
               "prime"} -> {a[1]}
    [] op \in {"div", "divabs"} -> {a[1], a[2]}
    [] OTHER -> {}
Refused ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ Ev.op \notin {"new", "fail", "faults", "giveback", "mset", "print", "initlist"}
  /\ (IF Ev.op = "isprime" THEN Ev.r[1] = -1 ELSE Ev.r[1] # 0)
  /\ reg' = Ev.s /\ ret' = Ev.r
  /\ \A i \in Regs : IF i \in Dest(Ev.op, Ev.a) THEN Usable(reg'[i]) ELSE reg'[i] = reg[i]
\* the one function without a result says so on the error output: nothing is printed
RefusedPrint == Is("print") /\ Ev.r = <<<<>>>> /\ UNCHANGED mvars /\ Logged

FInit == TraceInit /\ FaultInit
FNext ==
  \/ Arm /\ UNCHANGED mvars
  \/ Settle /\ UNCHANGED mvars
  \/ Is("initlist") /\ Rollback /\ UNCHANGED mvars
     /\ (Ev.r[1] = 0 => \A i \in 2..(Len(Ev.r) - 1) : Ev.r[i] = BZero)
  \/ AllBack /\ reg' = [i \in Regs |-> BZero] /\ ret' = <<0>>
  \/ TraceNext /\ (fault = "none" \/ fault = "armed") /\ fault' = (IF fault = "armed" THEN "clean" ELSE fault)
  \/ fault = "armed" /\ (Refused \/ RefusedPrint) /\ fault' = "failed"
FaultSpec == FInit /\ [][FNext]_<<mvars, l, fault>>
=============================================================================
