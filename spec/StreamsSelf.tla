---------------------------- MODULE StreamsSelf ----------------------------
EXTENDS Streams
P == INSTANCE StreamsPure
CONSTANT Seeds
VARIABLE n, k
Init == n \in Seeds /\ k = 0
Next == k = 0 /\ k' = 1 /\ UNCHANGED n
Spec == Init /\ [][Next]_<<n, k>>
S(len, a) == TLCEval([i \in 1..len |-> (n * (a + 5 * i) + 7 * i * i * (n % 11) + a) % 256])
Agree == k = 0 \/
  /\ LET key == S((n % 40) + 1, 3) st == Arc4Key(key) IN
     /\ st = P!Arc4Key(key)
     /\ Arc4Run(st, 37) = P!Arc4Run(st, 37)
     /\ Arc4Run(Arc4Run(st, 7)[1], 5)[2] = SubSeq(Arc4Run(st, 12)[2], 8, 12)
  /\ TrivRun(S(10, 1), S(10, 2), n % 7, 9) = P!TrivRun(S(10, 1), S(10, 2), n % 7, 9)
  /\ \A v \in {"ccitt", "ibm", "dnp", "eth"} :
       CrcRun(v, CrcStart(v), S(n % 50, 9)) = P!CrcRun(v, CrcStart(v), S(n % 50, 9))
=============================================================================
