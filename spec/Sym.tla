-------------------------------- MODULE Sym --------------------------------
(* The symmetric half of the library as one state machine.  A slot holds the *)
(* abstract state of one context; the seeded generators are global.  An      *)
(* action is one API call; ret is what the caller observes.  A slot keeps    *)
(* what the standards say the result depends on (the message so far, the     *)
(* chaining value, the key stream position), not what the code stores.       *)
EXTENDS Modes, Streams
CONSTANT NSlot
VARIABLES ctx, prng, lfsr, ret
svars == <<ctx, prng, lfsr, ret>>
Slots == 1..NSlot
None == [k |-> "none"]
Hashes == {"md5", "sha1", "sha256", "sha384", "sha512", "toy", "toyn"}
Set(s, v) == ctx' = [ctx EXCEPT ![s] = v]
Glob == UNCHANGED <<prng, lfsr>>
Pure(v) == ret' = v /\ UNCHANGED <<ctx, prng, lfsr>>
SymInit == ctx = [s \in Slots |-> None] /\ prng = [seed |-> <<>>, pos |-> 0] /\ lfsr = <<>> /\ ret = <<>>
\* "used": delivered its result; may only be initialised, keyed or cleared
Used(s) == Set(s, [k |-> "used"])
\* results of a call that transforms data: the output, and that the input was left alone
Out(d) == ret' = <<d, 1>>

(* ---- digests ---- *)
HInit(s, alg) == Set(s, [k |-> "hash", alg |-> alg, m |-> <<>>]) /\ ret' = <<>> /\ Glob
HUpd(s, d) == ctx[s].k = "hash" /\ Set(s, [ctx[s] EXCEPT !.m = @ \o d]) /\ ret' = <<1>> /\ Glob
HDig(s) == ctx[s].k = "hash" /\ ret' = <<H(ctx[s].alg, ctx[s].m)>> /\ Used(s) /\ Glob
\* clearing leaves nothing but zero bytes, whatever the context held
Clear(s) == ctx[s].k # "none" /\ Set(s, None) /\ ret' = <<1>> /\ Glob
HOne(alg, d) == Pure(<<H(alg, d), 1>>)
HBig(alg, hi, lo) == Pure(<<HashZeros(alg, hi, lo)>>)

(* ---- MACs ---- *)
HmInit(s, alg, key) == Set(s, [k |-> "hmac", alg |-> alg, key |-> key, m |-> <<>>]) /\ ret' = <<1>> /\ Glob
HmUpd(s, d) == ctx[s].k = "hmac" /\ Set(s, [ctx[s] EXCEPT !.m = @ \o d]) /\ ret' = <<1>> /\ Glob
HmDig(s) == ctx[s].k = "hmac" /\ ret' = <<Hmac(ctx[s].alg, ctx[s].key, ctx[s].m)>> /\ Used(s) /\ Glob
CmInit(s, c, key) == Set(s, [k |-> "cmac", c |-> c, key |-> key, m |-> <<>>]) /\ ret' = <<1>> /\ Glob
CmUpd(s, d) == ctx[s].k = "cmac" /\ Set(s, [ctx[s] EXCEPT !.m = @ \o d]) /\ ret' = <<1>> /\ Glob
CmDig(s) == ctx[s].k = "cmac" /\ ret' = <<Cmac(ctx[s].c, ctx[s].key, ctx[s].m)>> /\ Used(s) /\ Glob

(* ---- CRC: register, then complement and byte swap as the variant says ---- *)
CInit(s, v) == Set(s, [k |-> "crc", v |-> v, r |-> CrcStart(v), f |-> CrcFlags(v)]) /\ ret' = <<>> /\ Glob
\* a start value and flags (1 complement, 2 swap) of the caller's
CInitX(s, v, start, f) == Set(s, [k |-> "crc", v |-> v, r |-> start, f |-> f]) /\ ret' = <<>> /\ Glob
CUpd(s, d) == ctx[s].k = "crc" /\ Set(s, [ctx[s] EXCEPT !.r = CrcRun(ctx[s].v, @, d)]) /\ ret' = <<1>> /\ Glob
CFin(s) == ctx[s].k = "crc" /\ ret' = <<CrcOut(ctx[s].r, ctx[s].f)>> /\ Used(s) /\ Glob
COne(v, d) == Pure(<<CrcOut(CrcRun(v, CrcStart(v), d), CrcFlags(v)), 1>>)

(* ---- block ciphers ---- *)
BKey(s, c, key) == Set(s, [k |-> "block", c |-> c, key |-> key]) /\ ret' = <<1>> /\ Glob
BEnc(s, d) == ctx[s].k = "block" /\ Out(EBlocks(ctx[s].c, ctx[s].key, d)) /\ UNCHANGED ctx /\ Glob
BDec(s, d) == ctx[s].k = "block" /\ Out(DBlocks(ctx[s].c, ctx[s].key, d)) /\ UNCHANGED ctx /\ Glob

(* ---- modes; v = <<>>: the IV has to be set (again) ---- *)
MInit(s, mode, c) == Set(s, [k |-> "mode", mode |-> mode, c |-> c, key |-> <<>>, v |-> <<>>]) /\ ret' = <<>> /\ Glob
MKey(s, key) == ctx[s].k = "mode" /\ Set(s, [ctx[s] EXCEPT !.key = key]) /\ ret' = <<1>> /\ Glob
MIv(s, iv) == ctx[s].k = "mode" /\ Set(s, [ctx[s] EXCEPT !.v = iv]) /\ ret' = <<1>> /\ Glob
MReady(s, d) == ctx[s].k = "mode" /\ ctx[s].key # <<>> /\ ctx[s].v # <<>>
\* CBC leaves alone what does not fill a block; the others process it and then need a new IV
Whole(s, d) == ctx[s].mode \in {"cbc", "cfb8"} \/ Len(d) % BlockLen(ctx[s].c) = 0
MRun(s, d, r) == /\ Set(s, [ctx[s] EXCEPT !.v = IF Whole(s, d) THEN r[1] ELSE <<>>])
                 /\ Out(r[2]) /\ Glob
MEnc(s, d) == MReady(s, d) /\ MRun(s, d, ModeEnc(ctx[s].mode, ctx[s].c, ctx[s].key, ctx[s].v, d))
MDec(s, d) == MReady(s, d) /\ MRun(s, d, ModeDec(ctx[s].mode, ctx[s].c, ctx[s].key, ctx[s].v, d))

(* ---- GCM; z (y) counts 2^20 zero bytes at the start of the additional data (ciphertext) ---- *)
GInit(s, c) == Set(s, [k |-> "gcm", c |-> c, key |-> <<>>, iv |-> <<>>]) /\ ret' = <<>> /\ Glob
GKey(s, key) == ctx[s].k = "gcm" /\ Set(s, [k |-> "gcm", c |-> ctx[s].c, key |-> key, iv |-> <<>>]) /\ ret' = <<1>> /\ Glob
GIv(s, iv) == /\ ctx[s].k = "gcm" /\ ctx[s].key # <<>>
              /\ Set(s, [k |-> "gcm", c |-> ctx[s].c, key |-> ctx[s].key, iv |-> iv, z |-> 0, aad |-> <<>>, y |-> 0, ct |-> <<>>,
                         ctr |-> Inc32(GcmJ0(ctx[s].c, ctx[s].key, iv))])
              /\ ret' = <<1>> /\ Glob
GOpen(s) == ctx[s].k = "gcm" /\ ctx[s].iv # <<>>
GAad(s, d) == /\ GOpen(s) /\ ctx[s].ct = <<>> /\ ctx[s].y = 0 /\ Len(ctx[s].aad) % 16 = 0
              /\ Set(s, [ctx[s] EXCEPT !.aad = @ \o d]) /\ ret' = <<1>> /\ Glob
GBig(s, z) == /\ GOpen(s) /\ ctx[s].ct = <<>> /\ ctx[s].y = 0 /\ ctx[s].aad = <<>>
              /\ Set(s, [ctx[s] EXCEPT !.z = @ + z]) /\ ret' = <<>> /\ Glob
GDecBig(s, z) == /\ GOpen(s) /\ ctx[s].ct = <<>> /\ ctx[s].aad = <<>> /\ z \in 1..65535
                 /\ LET g == ctx[s] IN    \* 2^20 bytes are 2^16 blocks
                    /\ Set(s, [g EXCEPT !.y = @ + z, !.ctr = Add32(g.ctr, z)])
                    /\ ret' = <<E(g.c, g.key, Add32(g.ctr, z - 1))>>
                 /\ Glob
GRun(s, d, dec) ==
  /\ GOpen(s) /\ Len(ctx[s].ct) % 16 = 0
  /\ LET g == ctx[s] r == Gctr(g.c, g.key, g.ctr, d) IN
     /\ Set(s, [g EXCEPT !.ctr = r[1], !.ct = @ \o (IF dec THEN d ELSE r[2])])
     /\ Out(r[2])
  /\ Glob
GTag(s, n) == /\ GOpen(s)
              /\ LET g == ctx[s] IN
                 /\ ret' = <<Take(GcmTag(g.c, g.key, g.iv, g.z, g.aad, g.y, g.ct), n)>>
                 /\ Set(s, [k |-> "gcm", c |-> g.c, key |-> g.key, iv |-> <<>>])
              /\ Glob

(* ---- stream ciphers ---- *)
SKey(s, a, key) ==
  /\ Set(s, IF a = "arc4" THEN [k |-> "arc4", st |-> Arc4Key(key)] ELSE [k |-> "trivium", key |-> key, iv |-> <<>>, pos |-> 0])
  /\ ret' = <<1>> /\ Glob
SIv(s, iv) == ctx[s].k = "trivium" /\ Set(s, [ctx[s] EXCEPT !.iv = iv, !.pos = 0]) /\ ret' = <<1>> /\ Glob
SCrypt(s, d) ==
  /\ Glob
  /\ \/ ctx[s].k = "arc4" /\ LET r == Arc4Run(ctx[s].st, Len(d)) IN Set(s, [ctx[s] EXCEPT !.st = r[1]]) /\ Out(XorS(d, r[2]))
     \/ /\ ctx[s].k = "trivium" /\ ctx[s].iv # <<>> /\ ctx[s].pos % 4 = 0
        /\ Out(XorS(d, TrivRun(ctx[s].key, ctx[s].iv, ctx[s].pos, Len(d))))
        /\ Set(s, [ctx[s] EXCEPT !.pos = @ + Len(d)])

(* ---- generators ---- *)
PInit(seed) == prng' = [seed |-> seed, pos |-> 0] /\ ret' = <<0, 1>> /\ UNCHANGED <<ctx, lfsr>>
PRand(n) == ret' = <<0, PrngRun(prng.seed, prng.pos, n)>> /\ prng' = [prng EXCEPT !.pos = @ + n] /\ UNCHANGED <<ctx, lfsr>>
LInit(seed) == lfsr' = LfsrInit(seed) /\ ret' = <<0, 1>> /\ UNCHANGED <<ctx, prng>>
LRand(n) == /\ lfsr # <<>>
            /\ LET r == LfsrRun(lfsr, n, <<>>) IN lfsr' = r[1] /\ ret' = <<0, r[2]>>
            /\ UNCHANGED <<ctx, prng>>

(* ---- key wrap; junk: what a refused call leaves in the output ---- *)
WrapCall(kek, d, junk) == IF WrapLenOk(Len(d)) THEN Pure(<<0, Wrap(kek, d), 1>>) ELSE Pure(<<-1, junk, 1>>)
\* a failed unwrap does not release the data: no block of it is left in the output
Leaks(v, junk) == \E i \in 0..(Len(v) \div 8 - 1) : \A j \in (8 * i + 1)..(8 * i + 8) : v[j] = junk[j]
UnwrapCall(kek, d, junk) ==
  IF ~WrapLenOk(Len(d) - 8) THEN Pure(<<-1, junk, 1>>)
  ELSE Pure(With(TLCEval(Unwrap(kek, d)), LAMBDA u :
              IF u[1] = Fill(8, 166) THEN <<0, u[2], 1>>
              ELSE IF Len(junk) # Len(u[2]) \/ Leaks(u[2], junk) THEN <<-1, <<>>, 1>>
              ELSE <<-1, junk, 1>>))

(* ---- memory and text ---- *)
\* one source: disjoint from, equal to or ahead of the destination
MemXor(mem, d, s, n) == (s >= d \/ d >= s + n \/ n = 0) /\ Pure(<<XorAt(mem, d, d, s, n)>>)
MemXor2(mem, d, s1, s2, n) == Pure(<<XorAt(mem, d, s1, s2, n)>>)
MemXorD(mem, d, src, n) == Pure(<<[i \in 1..Len(mem) |-> IF i > d /\ i <= d + n THEN mem[i] ^^ src[i - d] ELSE mem[i]]>>)
B64E(m) == LET t == B64Enc(m) IN Pure(<<Len(t), t, 1>>)
B64D(t) == IF B64Valid(t) THEN LET m == B64Dec(t) IN Pure(<<Len(m), m, 1>>) ELSE Pure(<<-1, <<>>, 1>>)

(* ---- classical ciphers ---- *)
AfInit(s, ka, kb) == /\ Set(s, IF AffOk(ka) THEN [k |-> "affine", a |-> ka, b |-> kb] ELSE [k |-> "used"])
                     /\ ret' = <<IF AffOk(ka) THEN 0 ELSE -1>> /\ Glob
AfEnc(s, d) == ctx[s].k = "affine" /\ Out(AffEnc(ctx[s].a, ctx[s].b, d)) /\ UNCHANGED ctx /\ Glob
AfDec(s, d) == ctx[s].k = "affine" /\ Out(AffDec(ctx[s].a, ctx[s].b, d)) /\ UNCHANGED ctx /\ Glob
\* key <<>>: generate one; ikey <<>>: derive it; k1 and i1 are the matrices the context ends up with
HlInit(s, len, key, ikey, rc, k1, i1) ==
  LET n == HillN(len)
      bad == n = 0 \/ (key = <<>> /\ ikey # <<>>) \/ (key # <<>> /\ ikey = <<>> /\ ~HillUsable(key, n)) IN
  /\ IF bad THEN rc = -1 /\ Used(s)
     ELSE /\ rc = 0
          /\ key # <<>> => k1 = Take(key, n * n)
          /\ ikey # <<>> => i1 = Take(ikey, n * n)
          /\ ikey = <<>> => HillInverse(k1, i1, n)
          /\ Set(s, [k |-> "hill", n |-> n, key |-> k1, ikey |-> i1])
  /\ ret' = <<rc, k1, i1>> /\ Glob
HlEnc(s, d) == ctx[s].k = "hill" /\ Out(HillRun(ctx[s].key, ctx[s].n, d)) /\ UNCHANGED ctx /\ Glob
HlDec(s, d) == ctx[s].k = "hill" /\ Out(HillRun(ctx[s].ikey, ctx[s].n, d)) /\ UNCHANGED ctx /\ Glob
=============================================================================
