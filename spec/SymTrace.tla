------------------------------ MODULE SymTrace ------------------------------
(* Recorded calls of the real library against Sym.                           *)
EXTENDS Sym, TraceBase
A(i) == Ev.a[i]
Rets == ret' = Ev.r
TNew == Is("new") /\ ctx' = [s \in Slots |-> None] /\ ret' = <<>> /\ prng' = [seed |-> <<>>, pos |-> 0] /\ lfsr' = <<>>
T(op, act) == Is(op) /\ act /\ Rets
TraceInit == SymInit /\ l = 1
TraceNext ==
  \/ TNew
  \/ T("hinit", HInit(A(1), A(2))) \/ T("hupd", HUpd(A(1), A(2))) \/ T("hdig", HDig(A(1)))
  \/ T("hclear", Clear(A(1))) \/ T("bclear", Clear(A(1))) \/ T("mclear", Clear(A(1)))
  \/ T("gclear", Clear(A(1))) \/ T("sclear", Clear(A(1)))
  \/ T("hone", HOne(A(1), A(2))) \/ T("hbig", HBig(A(1), A(2), A(3)))
  \/ T("hminit", HmInit(A(1), A(2), A(3))) \/ T("hmupd", HmUpd(A(1), A(2))) \/ T("hmdig", HmDig(A(1)))
  \/ T("cminit", CmInit(A(1), A(2), A(3))) \/ T("cmupd", CmUpd(A(1), A(2))) \/ T("cmdig", CmDig(A(1)))
  \/ T("cinit", CInit(A(1), A(2))) \/ T("cupd", CUpd(A(1), A(2)))
  \/ T("cinitx", CInitX(A(1), A(2), IF A(2) = "eth" THEN <<A(3), A(4)>> ELSE <<A(4)>>, A(5)))
  \/ T("cfin", CFin(A(1))) \/ T("cdig", CFin(A(1))) \/ T("cone", COne(A(1), A(2)))
  \/ T("bkey", BKey(A(1), A(2), A(3))) \/ T("benc", BEnc(A(1), A(2))) \/ T("bdec", BDec(A(1), A(2)))
  \/ T("minit", MInit(A(1), A(2), A(3))) \/ T("mkey", MKey(A(1), A(2))) \/ T("miv", MIv(A(1), A(2)))
  \/ T("menc", MEnc(A(1), A(2))) \/ T("mdec", MDec(A(1), A(2)))
  \/ T("ginit", GInit(A(1), A(2))) \/ T("gkey", GKey(A(1), A(2))) \/ T("giv", GIv(A(1), A(2)))
  \/ T("gaad", GAad(A(1), A(2))) \/ T("gbig", GBig(A(1), A(2))) \/ T("gdbig", GDecBig(A(1), A(2)))
  \/ T("genc", GRun(A(1), A(2), FALSE)) \/ T("gdec", GRun(A(1), A(2), TRUE)) \/ T("gtag", GTag(A(1), A(2)))
  \/ T("skey", SKey(A(1), A(2), A(3))) \/ T("siv", SIv(A(1), A(2))) \/ T("scrypt", SCrypt(A(1), A(2)))
  \/ T("pinit", PInit(A(1))) \/ T("prand", PRand(A(1))) \/ T("linit", LInit(A(1))) \/ T("lrand", LRand(A(1)))
  \/ T("wrap", WrapCall(A(1), A(2), Ev.r[2])) \/ T("unwrap", UnwrapCall(A(1), A(2), Ev.r[2]))
  \/ T("memxor", MemXor(A(1), A(2), A(3), A(4))) \/ T("memxor2", MemXor2(A(1), A(2), A(3), A(4), A(5)))
  \/ T("memxord", MemXorD(A(1), A(2), A(3), A(4)))
  \/ T("b64e", B64E(A(1))) \/ T("b64d", B64D(A(1)))
  \/ T("afinit", AfInit(A(1), A(2), A(3))) \/ T("afenc", AfEnc(A(1), A(2))) \/ T("afdec", AfDec(A(1), A(2)))
  \/ T("hlinit", HlInit(A(1), A(2), A(3), A(4), Ev.r[1], Ev.r[2], Ev.r[3]))
  \/ T("hlenc", HlEnc(A(1), A(2))) \/ T("hldec", HlDec(A(1), A(2)))
TraceSpec == TraceInit /\ [][TraceNext]_<<svars, l>>
=============================================================================
