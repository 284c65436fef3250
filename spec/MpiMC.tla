------------------------------- MODULE MpiMC -------------------------------
(* The register machine of Mpi, all calls and aliasings, values kept small.  *)
EXTENDS Mpi
CONSTANT MaxV
Small == {B(n) : n \in {-3, -1, 0, 1, 2, 5}}
JunkOf(r) == {reg[r], BZero}
Step ==
  \/ \E r \in Regs, v \in Small : Load(r, v)
  \/ \E op \in BinOps \ {"exp", "inv"}, r, a, b \in Regs : \E j \in JunkOf(r) : Bin(op, r, a, b, j)
  \/ \E r, a, b \in Regs : BIsNeg(reg[b]) = FALSE /\ BLe(reg[b], B(4)) /\ Bin("exp", r, a, b, BZero)
  \/ \E r, a, b \in Regs : BLt(BOne, reg[b]) /\ Bin("inv", r, a, b, BZero)
  \/ \E op \in UnOps, r, a \in Regs : \E j \in JunkOf(r) : Un(op, r, a, j)
  \/ \E q, r \in Regs \cup {0}, a, b \in Regs : q # r /\ Div(q, r, a, b, BZero, BZero)
  \/ \E r, b, e, m \in Regs : BLe(reg[e], B(9)) /\ ModExp(r, b, e, m, BZero)
  \/ \E r, a \in Regs, n \in {0, 1, 3} : Shl(r, a, n) \/ Shr(r, a, n)
  \/ \E a, b \in Regs : Cmp(a, b) \/ Swap(a, b)
MSpec == MpiInit /\ [][Step]_mvars
Bound == \A i \in Regs : BLe(BAbs(reg[i]), B(MaxV))
\* no call changes more than two registers, and only swap and division change two
Frame == [][Cardinality({i \in Regs : reg'[i] # reg[i]}) <= 2]_mvars
View == reg
=============================================================================
