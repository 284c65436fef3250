-------------------------------- MODULE DhMC --------------------------------
(* Two parties, every interleaving of the calls the interface prescribes, all  *)
(* secrets of a small group; on a curve likewise.                             *)
EXTENDS Pk
CONSTANT Kind
VARIABLES pc, mail       \* per party: how far it got; the token on its way to it
dvars == <<kvars, pc, mail>>
Other(i) == 3 - i
Grp == <<B(23), B(5)>>
Ec == [p |-> B(17), a |-> B(2), b |-> B(2), gx |-> B(5), gy |-> B(1), n |-> B(19)]
Init == /\ PkInit /\ pc = [i \in 1..2 |-> "start"] /\ mail = [i \in 1..2 |-> None]
Start(i) == /\ pc[i] = "start"
            /\ \E e \in 0..20 : IF Kind = "dh" THEN DhInit(i, Grp[1], Grp[2], B(e)) ELSE EdhInit(i, Ec, B(e), <<0>>)
            /\ pc' = [pc EXCEPT ![i] = "ready"] /\ UNCHANGED mail
Agree(i) == /\ pc[i] = "ready" /\ (IF Kind = "dh" THEN DhAgree(i) ELSE EdhAgree(i))
            /\ pc' = [pc EXCEPT ![i] = "agreed"] /\ UNCHANGED mail
\* the token leaves through a buffer: large enough, or the export is refused
Send(i) == /\ pc[i] = "agreed"
           /\ IF Kind = "dh"
              THEN \E n \in 0..2 : /\ DhGet(dh[i].tok, n)
                                   /\ IF ret'[1] = 0
                                      THEN pc' = [pc EXCEPT ![i] = "sent"] /\ mail' = [mail EXCEPT ![Other(i)] = ret'[2]]
                                      ELSE UNCHANGED <<pc, mail>>
              ELSE /\ UNCHANGED kvars /\ pc' = [pc EXCEPT ![i] = "sent"]
                   /\ mail' = [mail EXCEPT ![Other(i)] = edh[i].q]
\* an empty buffer is the number zero, so mail is wrapped
Recv(i) == /\ pc[i] = "sent" /\ pc[Other(i)] \in {"sent", "got", "done"}
           /\ IF Kind = "dh" THEN DhSet(i, mail[i])
              ELSE edh' = [edh EXCEPT ![i].q = mail[i]] /\ ret' = <<0>> /\ RestEdh
           /\ pc' = [pc EXCEPT ![i] = "got"] /\ UNCHANGED mail
Final(i) == /\ pc[i] = "got" /\ (IF Kind = "dh" THEN DhFinal(i) ELSE EdhFinal(i))
            /\ pc' = [pc EXCEPT ![i] = "done"] /\ UNCHANGED mail
Next == \E i \in 1..2 : Start(i) \/ Agree(i) \/ Send(i) \/ Recv(i) \/ Final(i)
Spec == Init /\ [][Next]_dvars
Same == pc = [i \in 1..2 |-> "done"] =>
          IF Kind = "dh"
          THEN /\ dh[1].sec = dh[2].sec
               /\ dh[1].sec = BModExp(Grp[2], BMul(dh[1].e, dh[2].e), Grp[1])
          ELSE /\ edh[1].z = edh[2].z
               /\ edh[1].z = EMul(Ec, BMul(edh[1].d, edh[2].d), Gen(Ec))
View == <<dh, edh, pc, mail>>
=============================================================================
