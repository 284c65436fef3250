------------------------------ MODULE ModesMC ------------------------------
(* Sym's modes with a cipher of two-byte blocks, all histories of calls up   *)
(* to a total length: however the data was divided, the output is that of a  *)
(* single call (Split), the other direction restores the data (Inverse), and *)
(* every context behaves as if it were alone (Solo).                         *)
EXTENDS Sym
CONSTANTS Max, MaxLen
VARIABLES h          \* per slot: the IV, the data and outputs so far, the direction
mvars == <<svars, h>>
Data == {<<>>, <<0>>, <<255>>, <<1, 254>>, <<255, 255>>, <<0, 1, 255>>, <<7, 0, 0, 255>>}
Ivs == {<<0, 0>>, <<255, 255>>, <<0, 255>>}
Key == <<90, 17, 3>>
Mds == {"cbc", "ctr", "cfb", "cfb8"}
MInitS == /\ SymInit /\ h = [s \in Slots |-> [n |-> 0]]
Begin(s) ==
  /\ h[s].n = 0
  /\ \E m \in Mds, iv \in Ivs, dir \in {"e", "d"} :
     /\ ctx' = [ctx EXCEPT ![s] = [k |-> "mode", mode |-> m, c |-> "tiny", key |-> Key, v |-> iv]]
     /\ h' = [h EXCEPT ![s] = [n |-> 1, iv |-> iv, dir |-> dir, i |-> <<>>, o |-> <<>>]]
  /\ ret' = <<>> /\ UNCHANGED <<prng, lfsr>>
Work(s) ==
  /\ h[s].n > 0 /\ h[s].n <= Max
  /\ \E d \in Data :
     /\ Len(h[s].i) + Len(d) <= MaxLen
     /\ IF h[s].dir = "e" THEN MEnc(s, d) ELSE MDec(s, d)
     /\ h' = [h EXCEPT ![s] = [@ EXCEPT !.n = @ + 1, !.i = @ \o Take(d, Len(ret'[1])), !.o = @ \o ret'[1]]]
MNext == \E s \in Slots : Begin(s) \/ Work(s)
MSpec == MInitS /\ [][MNext]_mvars
Live(s) == h[s].n > 0
Whole1(s) == (h[s].dir = "e")
Split == \A s \in Slots : Live(s) =>
  LET x == ctx[s]
      r == IF h[s].dir = "e" THEN ModeEnc(x.mode, x.c, x.key, h[s].iv, h[s].i) ELSE ModeDec(x.mode, x.c, x.key, h[s].iv, h[s].i) IN
  /\ h[s].o = r[2]
  /\ x.v # <<>> => x.v = r[1]
Inverse == \A s \in Slots : Live(s) =>
  LET x == ctx[s]
      r == IF h[s].dir = "e" THEN ModeDec(x.mode, x.c, x.key, h[s].iv, h[s].o) ELSE ModeEnc(x.mode, x.c, x.key, h[s].iv, h[s].o) IN
  r[2] = h[s].i
\* a step of one context leaves the others alone
Solo == [][\A s \in Slots : h[s] = h'[s] => ctx[s] = ctx'[s]]_mvars
=============================================================================
