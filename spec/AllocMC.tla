------------------------------- MODULE AllocMC -------------------------------
(* The discipline behind "an allocation failure harms nothing": a call that    *)
(* sets up N objects of M blocks each, with the allocator refusing at any one   *)
(* request.  Either all objects exist at the end, or the call reports failure   *)
(* and has given every block back exactly once.  (An object whose own           *)
(* initialiser failed has given back its blocks itself and must not be cleared  *)
(* again.)                                                                     *)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS N, M
VARIABLES pc,       \* "init", "undo", "ok", "failed"
          obj, blk, \* object and block worked on
          live,     \* blocks allocated: <<object, block>>
          freed,    \* how often a block was given back
          at,       \* the request that is refused (0: none)
          req       \* requests so far
vars == <<pc, obj, blk, live, freed, at, req>>
Blocks == (1..N) \X (1..M)
Init == /\ pc = "init" /\ obj = 1 /\ blk = 1 /\ live = {} /\ req = 0
        /\ freed = [b \in Blocks |-> 0] /\ at \in 0..(N * M + 1)
Alloc == /\ pc = "init" /\ req' = req + 1 /\ UNCHANGED at
         /\ IF req' = at
            THEN \* the initialiser of this object gives back its own blocks; the list then those before it
                 /\ live' = {b \in live : b[1] # obj}
                 /\ freed' = [b \in Blocks |-> IF b \in live /\ b[1] = obj THEN freed[b] + 1 ELSE freed[b]]
                 /\ obj' = obj - 1 /\ blk' = 1
                 /\ pc' = IF obj = 1 THEN "failed" ELSE "undo"
            ELSE /\ live' = live \cup {<<obj, blk>>} /\ UNCHANGED freed
                 /\ IF blk < M THEN blk' = blk + 1 /\ UNCHANGED <<obj, pc>>
                    ELSE blk' = 1 /\ obj' = obj + 1 /\ pc' = IF obj = N THEN "ok" ELSE "init"
Undo == /\ pc = "undo" /\ UNCHANGED <<at, req, blk>>
        /\ live' = {b \in live : b[1] # obj}
        /\ freed' = [b \in Blocks |-> IF b[1] = obj THEN freed[b] + 1 ELSE freed[b]]
        /\ obj' = obj - 1 /\ pc' = IF obj = 1 THEN "failed" ELSE "undo"
Next == Alloc \/ Undo
Spec == Init /\ [][Next]_vars
Outcome == /\ (pc = "ok" => live = Blocks /\ (at = 0 \/ at > req))
           /\ (pc = "failed" => live = {} /\ at \in 1..req)
Once == \A b \in Blocks : freed[b] <= 1 /\ (freed[b] = 1 => b \notin live)
=============================================================================
