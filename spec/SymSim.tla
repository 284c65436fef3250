------------------------------- MODULE SymSim -------------------------------
(* Random behaviours of Sym for replay: interleaved histories of contexts.   *)
(* Data are prefixes of pool strings, recorded as [p, n].                    *)
EXTENDS Sym, Json, IOUtils
VARIABLE hist
Opt == ndJsonDeserialize(IOEnv.SIMPAR)[1]
Pool == ndJsonDeserialize(IOEnv.POOL)
Pick(q) == q[RandomElement(1..Len(q))]
Fam(f) == \E i \in 1..Len(Opt.fam) : Opt.fam[i] = f
Rec(h) == hist' = Append(hist, h)
\* a state function, so that it is drawn anew every time
Rare == RandomElement(1..(Opt.fresh + 0 * Len(hist))) = 1
Dt(p, n) == Take(Pool[p], n)
R(p, n) == [p |-> p, n |-> n]
KeyLens(c) == CASE c = "aes" -> {16, 24, 32} [] c = "des" -> {8, 24} [] OTHER -> {1, 7, 16, 33}

Busy(s) == ctx[s].k \notin {"none", "used"}

Start(s, p) ==
  \/ Fam("hash") /\ \E a \in {Pick(Opt.hash)} : HInit(s, a) /\ Rec(<<"hinit", s, a>>)
  \/ Fam("hmac") /\ \E a \in {Pick(Opt.hmac)}, n \in {Pick(Opt.keylens)} :
       HmInit(s, a, Dt(p, n)) /\ Rec(<<"hminit", s, a, R(p, n)>>)
  \/ Fam("cmac") /\ \E c \in {Pick(Opt.mac)} : \E n \in {RandomElement(KeyLens(c))} :
       CmInit(s, c, Dt(p, n)) /\ Rec(<<"cminit", s, c, R(p, n)>>)
  \/ Fam("crc") /\ \E v \in {Pick(<<"ccitt", "ibm", "dnp", "eth">>)} : CInit(s, v) /\ Rec(<<"cinit", s, v>>)
  \/ Fam("block") /\ \E c \in {Pick(Opt.ciph)}, i \in {RandomElement(0..1)} : \E n \in {RandomElement(KeyLens(c))} :
       BKey(s, c, Dt(p, n)) /\ Rec(<<"bkey", s, c, R(p, n), i>>)
  \/ Fam("mode") /\ \E c \in {Pick(Opt.ciph)}, m \in {Pick(Opt.mode)} : MInit(s, m, c) /\ Rec(<<"minit", s, m, c>>)
  \/ Fam("gcm") /\ \E c \in {Pick(Opt.mac)} : GInit(s, c) /\ Rec(<<"ginit", s, c>>)
  \/ Fam("stream") /\ \E a \in {Pick(Opt.stream)}, i \in {RandomElement(0..1)} : \E n \in {IF a = "arc4" THEN Pick(Opt.arc4) ELSE 10} :
       SKey(s, a, Dt(p, n)) /\ Rec(<<"skey", s, a, R(p, n), i>>)
  \/ Fam("affine") /\ \E n \in {RandomElement(1..34)} : \E q \in {RandomElement(Opt.odd[1]..Opt.odd[2])} :
       AfInit(s, Dt(q, n), Dt(p, n)) /\ Rec(<<"afinit", s, R(q, n), R(p, n)>>)

ClearOp(k) == CASE k = "hash" -> "hclear" [] k = "block" -> "bclear" [] k = "mode" -> "mclear"
                [] k = "gcm" -> "gclear" [] OTHER -> "sclear"
Step(s, p) ==
  LET x == ctx[s] IN
  \E n \in {Pick(Opt.lens)}, w \in {RandomElement(0..Opt.blocks)}, i \in {RandomElement(0..1)} :
  \/ x.k = "hash" /\ ((HUpd(s, Dt(p, n)) /\ Rec(<<"hupd", s, R(p, n)>>)) \/ (Rare /\ HDig(s) /\ Rec(<<"hdig", s>>)))
  \/ x.k = "hmac" /\ ((HmUpd(s, Dt(p, n)) /\ Rec(<<"hmupd", s, R(p, n)>>)) \/ (Rare /\ HmDig(s) /\ Rec(<<"hmdig", s>>)))
  \/ x.k = "cmac" /\ ((CmUpd(s, Dt(p, n)) /\ Rec(<<"cmupd", s, R(p, n)>>)) \/ (Rare /\ CmDig(s) /\ Rec(<<"cmdig", s>>)))
  \/ x.k = "crc" /\ ((CUpd(s, Dt(p, n)) /\ Rec(<<"cupd", s, R(p, n)>>))
                     \/ (Rare /\ CFin(s) /\ Rec(<<IF i = 0 THEN "cfin" ELSE "cdig", s>>)))
  \/ x.k = "block" /\ \E m \in {w * BlockLen(x.c)} :
       \/ BEnc(s, Dt(p, m)) /\ Rec(<<"benc", s, R(p, m), i>>)
       \/ BDec(s, Dt(p, m)) /\ Rec(<<"bdec", s, R(p, m), i>>)
       \/ Rare /\ \E kl \in {RandomElement(KeyLens(x.c))} : BKey(s, x.c, Dt(p, kl)) /\ Rec(<<"bkey", s, x.c, R(p, kl), 0>>)
  \/ x.k = "mode" /\
       IF x.key = <<>> THEN \E kl \in {RandomElement(KeyLens(x.c))} : MKey(s, Dt(p, kl)) /\ Rec(<<"mkey", s, R(p, kl)>>)
       ELSE IF x.v = <<>> THEN \E b \in {BlockLen(x.c)} : MIv(s, Dt(p, b)) /\ Rec(<<"miv", s, R(p, b)>>)
       ELSE \E m \in {IF x.mode # "cfb8" /\ i = 1 THEN w * BlockLen(x.c) ELSE n}, j \in {RandomElement(0..1)} :
            \/ MEnc(s, Dt(p, m)) /\ Rec(<<"menc", s, R(p, m), j>>)
            \/ MDec(s, Dt(p, m)) /\ Rec(<<"mdec", s, R(p, m), j>>)
            \/ Rare /\ \E b \in {BlockLen(x.c)} : MIv(s, Dt(p, b)) /\ Rec(<<"miv", s, R(p, b)>>)
            \/ Rare /\ \E kl \in {RandomElement(KeyLens(x.c))} : MKey(s, Dt(p, kl)) /\ Rec(<<"mkey", s, R(p, kl)>>)
  \/ x.k = "gcm" /\
       IF x.key = <<>> THEN \E kl \in {RandomElement(KeyLens(x.c))} : GKey(s, Dt(p, kl)) /\ Rec(<<"gkey", s, R(p, kl)>>)
       ELSE IF x.iv = <<>> THEN \E b \in {Pick(Opt.ivlens)} : GIv(s, Dt(p, b)) /\ Rec(<<"giv", s, R(p, b)>>)
       ELSE \E m \in {IF RandomElement(1..3) = 1 THEN n ELSE 16 * w}, j \in {RandomElement(0..1)} :
            \/ GAad(s, Dt(p, m)) /\ Rec(<<"gaad", s, R(p, m)>>)
            \/ GRun(s, Dt(p, m), FALSE) /\ Rec(<<"genc", s, R(p, m), j>>)
            \/ GRun(s, Dt(p, m), TRUE) /\ Rec(<<"gdec", s, R(p, m), j>>)
            \/ \E t \in {RandomElement(0..16)} : GTag(s, t) /\ Rec(<<"gtag", s, t>>)
            \/ Rare /\ \E kl \in {RandomElement(KeyLens(x.c))} : GKey(s, Dt(p, kl)) /\ Rec(<<"gkey", s, R(p, kl)>>)
  \/ x.k = "arc4" /\ ((SCrypt(s, Dt(p, n)) /\ Rec(<<"scrypt", s, R(p, n), i>>))
                      \/ (Rare /\ \E b \in {Pick(Opt.arc4)} : SKey(s, "arc4", Dt(p, b)) /\ Rec(<<"skey", s, "arc4", R(p, b), 0>>)))
  \/ x.k = "trivium" /\
       IF x.iv = <<>> \/ x.pos % 4 # 0 \/ Rare THEN SIv(s, Dt(p, 10)) /\ Rec(<<"siv", s, R(p, 10)>>)
       ELSE \E m \in {IF RandomElement(1..4) = 1 THEN n ELSE 4 * w} : SCrypt(s, Dt(p, m)) /\ Rec(<<"scrypt", s, R(p, m), i>>)
  \/ x.k = "affine" /\ ((AfEnc(s, Dt(p, n)) /\ Rec(<<"afenc", s, R(p, n), i>>)) \/ (AfDec(s, Dt(p, n)) /\ Rec(<<"afdec", s, R(p, n), i>>)))
  \/ x.k \in {"hash", "block", "mode", "gcm", "arc4", "trivium"} /\ Rare /\ Rare /\ Clear(s) /\ Rec(<<ClearOp(x.k), s>>)
Global ==
  \E p \in {RandomElement(1..Len(Pool))}, n \in {Pick(Opt.lens)} :
  \/ Fam("prng") /\ (Rare \/ hist = <<>>) /\ PInit(Dt(p, n % 40)) /\ Rec(<<"pinit", R(p, n % 40)>>)
  \/ Fam("prng") /\ hist # <<>> /\ prng.pos + n < 20000 /\ PRand(n) /\ Rec(<<"prand", n>>)
  \/ Fam("lfsr") /\ (Rare \/ lfsr = <<>>) /\ LInit(Dt(p, n % 40)) /\ Rec(<<"linit", R(p, n % 40)>>)
  \/ Fam("lfsr") /\ LRand(n) /\ Rec(<<"lrand", n>>)
Walk ==
  IF Opt.slots = FALSE THEN Global
  ELSE \E s \in {RandomElement(Slots)}, p \in {RandomElement(1..(Opt.odd[1] - 1))} :
       IF ~Busy(s) \/ RandomElement(1..(4 * Opt.fresh)) = 1 THEN Start(s, p)
       ELSE IF (Fam("prng") \/ Fam("lfsr")) /\ RandomElement(1..8) = 1 THEN Global
       ELSE Step(s, p)
SimSpec == SymInit /\ hist = <<>> /\ [][Walk]_<<svars, hist>>
Emit == Len(hist) < Opt.depth \/ PrintT(<<"BEHAV", ToJson(hist)>>)
=============================================================================
