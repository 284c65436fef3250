------------------------------- MODULE BufMC -------------------------------
(* The buffering designs of the incremental algorithms, with small blocks    *)
(* and every division of the input, against what they have to compute:       *)
(*  - a digest that keeps a partial block and pads at the end must have      *)
(*    compressed exactly the blocks of the padded message (blocks, buf);     *)
(*  - a CMAC must hold back a last block that is complete (pend), because    *)
(*    only the digest call knows that it is the last;                        *)
(*  - a generator that keeps the rest of a block must deliver the positions  *)
(*    of its stream in order (ix, ctr, got).                                 *)
EXTENDS Hash
CONSTANTS B, LF, MaxLen
VARIABLES msg, buf, blocks, pend, macd, ix, ctr, got, fin
bvars == <<msg, buf, blocks, pend, macd, ix, ctr, got, fin>>
Init == msg = <<>> /\ buf = <<>> /\ blocks = <<>> /\ pend = <<>> /\ macd = <<>> /\ ix = 0 /\ ctr = 0 /\ got = <<>> /\ fin = FALSE
\* digest: fill the partial block, compress whole blocks from the input, keep the rest
Upd(bf, bl, d) ==
  LET fill == B - Len(bf)
      first == IF Len(bf) > 0 /\ Len(d) >= fill THEN <<bf \o Take(d, fill)>> ELSE <<>>
      left == IF first # <<>> THEN <<>> ELSE bf
      rest == IF first # <<>> THEN Drop(d, fill) ELSE d
      w == IF left # <<>> THEN 0 ELSE Len(rest) \div B IN
  <<left \o Drop(rest, w * B), bl \o first \o [i \in 1..w |-> Block(rest, B, i)]>>
\* CMAC: complete the pending block, but process it only when more follows
Mac(p, m, d) ==
  LET n == MinI(Len(d), B - Len(p))
      p1 == p \o Take(d, n)
      d1 == Drop(d, n) IN
  IF Len(p) > 0 /\ (Len(p1) < B \/ d1 = <<>>) THEN <<p1, m>>
  ELSE LET m1 == IF Len(p) > 0 THEN m \o p1 ELSE m
           r == IF Len(p) > 0 THEN d1 ELSE d
           w == ((Len(r) + B - 1) \div B) - 1 IN
       IF r = <<>> THEN <<p, m>> ELSE <<Drop(r, w * B), m1 \o Take(r, w * B)>>
\* generator: k bytes; stream position B * block + offset
Rest(i, k) == MinI(k, IF i = 0 THEN 0 ELSE B - i)
Gen(i, c, k) ==
  LET a == Rest(i, k)
      k1 == k - a
      w == k1 \div B
      t == k1 % B
      old == [j \in 1..a |-> B * (c - 1) + i + j - 1]
      whole == [j \in 1..(w * B) |-> B * c + j - 1]
      tail == [j \in 1..t |-> B * (c + w) + j - 1] IN
  <<IF t > 0 THEN t ELSE IF k1 > 0 THEN 0 ELSE (i + a) % B, c + w + (IF t > 0 THEN 1 ELSE 0), old \o whole \o tail>>
Update == \E k \in 0..(MaxLen - Len(msg)) :
  LET d == [j \in 1..k |-> Len(msg) + j]
      u == Upd(buf, blocks, d)
      m == Mac(pend, macd, d)
      g == Gen(ix, ctr, k) IN
  /\ ~fin /\ msg' = msg \o d
  /\ buf' = u[1] /\ blocks' = u[2] /\ pend' = m[1] /\ macd' = m[2]
  /\ ix' = g[1] /\ ctr' = g[2] /\ got' = got \o g[3] /\ UNCHANGED fin
\* digest: pad to B - LF, then the length, through the same update
Finish ==
  LET last == Len(buf)
      n == IF last < B - LF THEN B - LF - last ELSE 2 * B - LF - last
      u == Upd(buf, blocks, <<128>> \o Zeros(n - 1))
      v == Upd(u[1], u[2], NatBE(8 * Len(msg), LF)) IN
  /\ ~fin /\ fin' = TRUE /\ buf' = v[1] /\ blocks' = v[2]
  /\ UNCHANGED <<msg, pend, macd, ix, ctr, got>>
Spec == Init /\ [][Update \/ Finish]_bvars
Buffered == ~fin => /\ Concat(blocks) \o buf = msg /\ Len(buf) < B
                    /\ \A i \in 1..Len(blocks) : Len(blocks[i]) = B
Digested == fin => /\ buf = <<>>
                   /\ LET p == Concat(blocks) IN
                      /\ Take(p, Len(msg)) = msg /\ p[Len(msg) + 1] = 128 /\ Len(p) % B = 0
                      /\ LastN(p, LF) = NatBE(8 * Len(msg), LF)
                      /\ Len(p) - Len(msg) <= B + LF
                      /\ \A i \in (Len(msg) + 2)..(Len(p) - LF) : p[i] = 0
Held == /\ macd \o pend = msg /\ Len(pend) <= B /\ Len(macd) % B = 0
        /\ msg # <<>> => pend # <<>>
Stream == got = [j \in 1..Len(msg) |-> j - 1]
=============================================================================
