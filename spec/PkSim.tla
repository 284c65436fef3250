-------------------------------- MODULE PkSim --------------------------------
(* Behaviours of Pk for replay: walks over the point slots of a curve, and     *)
(* histories of two Diffie-Hellman parties in any order of calls.             *)
EXTENDS Pk, Json, IOUtils
VARIABLES hist
Par == ndJsonDeserialize(IOEnv.SIMPAR)[1]    \* kind, depth, curves
Pool == ndJsonDeserialize(IOEnv.POOL)        \* scalars
Crv == ndJsonDeserialize(IOEnv.CURVES)       \* six numbers each
Pick(s) == s[RandomElement(1..Len(s))]
Add(e) == hist' = Append(hist, e)
CurOf(i) == [p |-> Crv[i][1], a |-> Crv[i][2], b |-> Crv[i][3], gx |-> Crv[i][4], gy |-> Crv[i][5], n |-> Crv[i][6]]

EcWalk ==
  IF grp = None THEN \E i \in {RandomElement(1..Len(Crv))} : EcGrp(CurOf(i)) /\ Add(<<"ecgrp", i>>)
  ELSE IF Len(hist) <= 3 THEN EcGen(Len(hist)) /\ Add(<<"ecgen", Len(hist)>>)
  ELSE
  \E op \in {Pick(<<"add", "add", "add", "dbl", "dbl", "mul", "mul", "mul", "copy", "swap", "zero", "gen">>)},
     k \in {RandomElement(1..3)}, i \in {RandomElement(1..3)}, j \in {RandomElement(1..3)}, s \in {RandomElement(1..Len(Pool))} :
  CASE op = "add" -> EcAdd(k, i, j) /\ Add(<<"ecadd", k, i, j>>)
    [] op = "dbl" -> EcDbl(k, i) /\ Add(<<"ecdbl", k, i>>)
    [] op = "mul" -> EcMul(k, i, Pool[s]) /\ Add(<<"ecmul", k, i, s>>)
    [] op = "copy" -> k # i /\ EcCopy(k, i) /\ Add(<<"eccopy", k, i>>)
    [] op = "swap" -> k # i /\ EcSwap(k, i) /\ Add(<<"ecswap", k, i>>)
    [] op = "zero" -> EcSet(k, Inf) /\ Add(<<"eczero", k>>)
    [] op = "gen" -> EcGen(k) /\ Add(<<"ecgen", k>>)

\* modulus and base from the pool
DhWalk ==
  IF \E i \in 1..2 : dh[i] = None
  THEN \E i \in {IF dh[1] = None THEN 1 ELSE 2}, p \in {RandomElement(1..Len(Pool))}, g \in {RandomElement(1..Len(Pool))},
          e \in {RandomElement(1..Len(Pool))} :
       LET m == IF i = 2 THEN dh[1].p ELSE BAdd(BMul(BTwo, BAbs(Pool[p])), B(3))
           gg == IF i = 2 THEN dh[1].g ELSE BMod(Pool[g], m) IN
       DhInit(i, m, gg, Pool[e]) /\ Add(<<"dhinit", i, m, gg, e>>)
  ELSE
  \E op \in {Pick(<<"agree", "agree", "final", "final", "tok", "sec", "pass", "pass", "set", "clear">>)},
     i \in {RandomElement(1..2)}, n \in {RandomElement(0..40)}, t \in {RandomElement(1..Len(Pool))} :
  CASE op = "agree" -> DhAgree(i) /\ Add(<<"dhagree", i>>)
    [] op = "final" -> DhFinal(i) /\ Add(<<"dhfinal", i>>)
    [] op = "tok" -> \E len \in {Max2(0, BBytes(dh[i].tok) + (n % 5) - 2)} : DhGet(dh[i].tok, len) /\ Add(<<"dhgettok", i, len>>)
    [] op = "sec" -> \E len \in {Max2(0, BBytes(dh[i].sec) + (n % 5) - 2)} : DhGet(dh[i].sec, len) /\ Add(<<"dhgetsec", i, len>>)
    [] op = "pass" -> \E len \in {BBytes(dh[i].tok) + (n % 3)} : DhPass(i, 3 - i, len) /\ Add(<<"dhpass", i, 3 - i, len>>)
    [] op = "set" -> \E b \in {BToBEPad(BAbs(Pool[t]), BBytes(Pool[t]) + (n % 4))} : DhSet(i, b) /\ Add(<<"dhsettok", i, b>>)
    [] op = "clear" -> n < 8 /\ DhClear(i) /\ Add(<<"dhclear", i>>)

EdhWalk ==
  IF \E i \in 1..2 : edh[i] = None
  THEN \E i \in {IF edh[1] = None THEN 1 ELSE 2}, k \in {RandomElement(1..Len(Crv))}, e \in {RandomElement(1..Len(Pool))} :
       LET c == IF i = 2 THEN edh[1].c ELSE CurOf(k) IN
       EdhInit(i, c, Pool[e], <<0>>) /\ Add(<<"edhcust", i, c.p, c.a, c.b, c.gx, c.gy, c.n, e>>)
  ELSE
  \E op \in {Pick(<<"agree", "agree", "final", "final", "pass", "pass", "swap">>)}, i \in {RandomElement(1..2)} :
  CASE op = "agree" -> EdhAgree(i) /\ Add(<<"edhagree", i>>)
    [] op = "final" -> EdhFinal(i) /\ Add(<<"edhfinal", i>>)
    [] op = "pass" -> EdhPass(i, 3 - i) /\ Add(<<"edhpass", i, 3 - i>>)
    [] op = "swap" -> EdhSwap /\ Add(<<"edhswap">>)

Walk == CASE Par.kind = "ec" -> EcWalk [] Par.kind = "dh" -> DhWalk [] Par.kind = "edh" -> EdhWalk
SimInit == PkInit /\ hist = <<>>
SimSpec == SimInit /\ [][Walk]_<<kvars, hist>>
Emit == Len(hist) < Par.depth \/ PrintT(<<"BEHAV", ToJson(hist)>>)
=============================================================================
