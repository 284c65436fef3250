------------------------------- MODULE MemMC -------------------------------
(* The in-place XOR of two sources: for every placement of destination and   *)
(* sources in a small memory, the order in which the bytes are produced      *)
(* (forwards, backwards, rotated by k and rotated back, or through a copy)   *)
(* must not overwrite a source byte that is still needed.  The orders are    *)
(* run byte by byte and compared with XorAt; each rule that says which order *)
(* is safe for which placement is checked for every placement.               *)
EXTENDS Streams
CONSTANTS M, MaxN
VARIABLES d, s1, s2, n, how, i, mem, pc
vars == <<d, s1, s2, n, how, i, mem, pc>>
Mem0 == [k \in 1..M |-> ((37 * k * k + 11 * k) % 251) + 1]
\* lower source first
Lo == IF s1 <= s2 THEN s1 ELSE s2
Hi == IF s1 <= s2 THEN s2 ELSE s1
Fwd == d <= Lo \/ (Lo + n <= d /\ d <= Hi)
Bwd == Hi <= d \/ (Lo <= d /\ d + n <= Hi)
Rot == Lo + n < Hi
Rule == IF Fwd THEN "f" ELSE IF Bwd THEN "b" ELSE IF Rot THEN "r" ELSE "c"
Init == /\ n \in 0..MaxN /\ d \in 0..(M - n) /\ s1 \in 0..(M - n) /\ s2 \in 0..(M - n)
        /\ how = Rule /\ i = 0 /\ mem = Mem0 /\ pc = "run"
K == Lo + n - d
Rev(f, a, b) == [k \in 1..M |-> IF k > d + a /\ k <= d + b THEN f[2 * d + a + b + 1 - k] ELSE f[k]]
Step ==
  /\ pc = "run"
  /\ IF i = n THEN /\ pc' = "done" /\ UNCHANGED i
                   /\ mem' = IF how = "r" THEN Rev(Rev(Rev(mem, 0, K), K, n), 0, n) ELSE mem
     ELSE LET src == IF how = "b" THEN n - 1 - i ELSE i
              dst == IF how = "r" THEN (K + i) % n ELSE src
              from == IF how = "c" THEN Mem0 ELSE mem IN
          /\ mem' = [mem EXCEPT ![d + dst + 1] = from[Lo + src + 1] ^^ from[Hi + src + 1]]
          /\ i' = i + 1 /\ UNCHANGED pc
  /\ UNCHANGED <<d, s1, s2, n, how>>
Spec == Init /\ [][Step]_vars
Right == pc = "done" => mem = XorAt(Mem0, d, s1, s2, n)
=============================================================================
