------------------------------- MODULE PkFault -------------------------------
(* Pk with allocation failures: an armed call is either a step of Pk, or it     *)
(* reports failure and changes nothing but what it was to deliver.  A failed    *)
(* verification is thereby never an acceptance of something invalid.            *)
EXTENDS PkTrace, Faults

PtOps == {"ecgen", "ecadd", "ecdbl", "ecmul", "eccopy"}
FPoint == /\ Ev.op \in PtOps
          /\ pt' = [pt EXCEPT ![A(1)] = S3(3 * A(1) - 2)] /\ UNCHANGED grp /\ RestEc /\ EcLogged
\* nothing but the returned pair (or bytes) is at stake
FDsa == Ev.op \in {"dsasign", "dsaver"} /\ UNCHANGED <<dsa, seen>> /\ RestDsa /\ DsaLogged
FEg == Ev.op \in {"egsign2", "egver2", "egsign", "egver"} /\ UNCHANGED <<eg, seen>> /\ RestEg /\ EgLogged
FEd == Ev.op \in {"edsign", "edver"} /\ UNCHANGED <<ed, seen>> /\ RestEd /\ EdLogged
FDsaGen == Ev.op = "dsakeygen" /\ dsa' = DK(Ev.s) /\ UNCHANGED seen /\ RestDsa
FEdGen == Ev.op = "edkeygen" /\ ed' = [ed EXCEPT !.d = Ev.s[7], !.q = S3(8)] /\ UNCHANGED seen /\ RestEd /\ EdLogged
FRsa == /\ Ev.op \in {"rsaenc", "rsadec", "rsasign", "rsaver"} /\ UNCHANGED <<rsa, seen>> /\ RestRsa /\ RsaLogged
        /\ (Ev.op # "rsaver" => <<R(2), R(3)>> = <<0, <<>>>>)          \* no buffer is handed out
FRsaGen == Ev.op = "rsakeygen" /\ rsa' = None /\ UNCHANGED seen /\ RestRsa
FDh == /\ Ev.op \in {"dhagree", "dhfinal", "dhsettok"}
       /\ (IF Ev.op = "dhfinal" THEN dh' = [dh EXCEPT ![A(1)].sec = Ev.s[5 * A(1)]]
           ELSE dh' = [dh EXCEPT ![A(1)].tok = Ev.s[5 * A(1) - 1]])
       /\ RestDh /\ DhLogged
FEdh == /\ Ev.op \in {"edhagree", "edhfinal"}
        /\ LET k == 7 * (A(1) - 1) IN
           IF Ev.op = "edhagree" THEN edh' = [edh EXCEPT ![A(1)].q = S3(k + 2)]
           ELSE edh' = [edh EXCEPT ![A(1)].z = S3(k + 5)]
        /\ RestEdh /\ EdhLogged
Rejected ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ Ev.op \in PtOps \cup {"dsasign", "dsaver", "egsign2", "egver2", "egsign", "egver", "edsign", "edver", "dsakeygen",
                           "edkeygen", "rsaenc", "rsadec", "rsasign", "rsaver", "rsakeygen", "dhagree", "dhfinal",
                           "dhsettok", "edhagree", "edhfinal"}
  /\ Ev.r[1] # 0
  /\ FPoint \/ FDsa \/ FEg \/ FEd \/ FDsaGen \/ FEdGen \/ FRsa \/ FRsaGen \/ FDh \/ FEdh
  /\ ret' = Ev.r

FInit == TraceInit /\ FaultInit
FNext ==
  \/ Arm /\ UNCHANGED kvars
  \/ Settle /\ UNCHANGED kvars
  \/ Is("initctx") /\ Rollback /\ UNCHANGED kvars
  \/ AllBack /\ pt' = [i \in 1..3 |-> Inf] /\ grp' = None
     /\ dsa' = None /\ eg' = None /\ ed' = None /\ rsa' = None
     /\ dh' = [i \in 1..2 |-> None] /\ edh' = [i \in 1..2 |-> None] /\ ret' = <<>> /\ UNCHANGED <<seen, inj>>
  \/ TraceNext /\ (fault = "none" \/ fault = "armed") /\ fault' = (IF fault = "armed" THEN "clean" ELSE fault)
  \/ fault = "armed" /\ Rejected /\ fault' = "failed"
FaultSpec == FInit /\ [][FNext]_<<kvars, l, fault>>
=============================================================================
