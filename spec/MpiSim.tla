------------------------------- MODULE MpiSim -------------------------------
(* Behaviours of Mpi for replay: the calls of a random walk, with values     *)
(* from a pool; printed as JSON when the walk has reached its length.        *)
EXTENDS Mpi, Json, IOUtils
VARIABLES hist
Par == ndJsonDeserialize(IOEnv.SIMPAR)[1]    \* ops, shifts, depth, maxlen
Pool == ndJsonDeserialize(IOEnv.POOL)
Pick(s) == s[RandomElement(1..Len(s))]

TooBig == {i \in Regs : Len(reg[i][2]) > Par.maxlen}

\* \E over a singleton fixes the random choice (an operator argument would be drawn again at every use)
DoLoad(R) == \E r \in {RandomElement(R)}, k \in {RandomElement(1..Len(Pool))} :
             Load(r, Pool[k]) /\ hist' = Append(hist, <<"mset", r, k>>)
DoOp(ops) ==
  \E op \in {Pick(ops)}, r \in {RandomElement(Regs)}, a \in {RandomElement(Regs)}, b \in {RandomElement(Regs)} :
  CASE op \in BinOps -> Bin(op, r, a, b, BZero) /\ hist' = Append(hist, <<"bin", op, r, a, b>>)
    [] op \in UnOps -> Un(op, r, a, BZero) /\ hist' = Append(hist, <<"un", op, r, a>>)
    [] op \in {"div", "divabs"} ->
         \E q \in {RandomElement(0..NReg)} : \E m \in {IF q = r THEN 0 ELSE r} :
         /\ IF op = "div" THEN Div(q, m, a, b, BZero, BZero) ELSE DivAbs(q, m, a, b, BZero, BZero)
         /\ hist' = Append(hist, <<op, q, m, a, b>>)
    [] op = "mod" -> Mod(r, a, b, BZero) /\ hist' = Append(hist, <<"mod", r, a, b>>)
    [] op = "shl" -> \E n \in {Pick(Par.shifts)} : Shl(r, a, n) /\ hist' = Append(hist, <<"shl", r, a, n>>)
    [] op = "shr" -> \E n \in {Pick(Par.shifts)} : Shr(r, a, n) /\ hist' = Append(hist, <<"shr", r, a, n>>)
    [] op = "cmp" -> Cmp(a, b) /\ hist' = Append(hist, <<"cmp", a, b>>)
    [] op = "cmpabs" -> CmpAbs(a, b) /\ hist' = Append(hist, <<"cmpabs", a, b>>)
    [] op = "info" -> Info(a) /\ hist' = Append(hist, <<"info", a>>)
    [] op = "getint" -> GetInt(a) /\ hist' = Append(hist, <<"getint", a>>)
    [] op = "swap" -> Swap(a, b) /\ hist' = Append(hist, <<"swap", a, b>>)
    [] op = "zero" -> Load(r, BZero) /\ hist' = Append(hist, <<"zero", r>>)
    [] op = "muldig" -> \E d \in {RandomElement({0, 1, 2, 10, 127, 255})} :
                        MulDig(r, a, d) /\ hist' = Append(hist, <<"muldig", r, a, d>>)
    [] OTHER -> FALSE
Walk ==
  IF TooBig # {} THEN DoLoad(TooBig)
  ELSE IF Len(hist) < NReg THEN DoLoad({Len(hist) + 1})
  ELSE IF RandomElement(1..4) = 1 THEN DoLoad(Regs)
  ELSE DoOp(Par.ops)
SimInit == MpiInit /\ hist = <<>>
SimSpec == SimInit /\ [][Walk]_<<mvars, hist>>
Emit == Len(hist) < Par.depth \/ PrintT(<<"BEHAV", ToJson(hist)>>)
=============================================================================
