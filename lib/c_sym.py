"""C11-C26, C28: digests, MACs, ciphers, modes, generators and utilities."""
import json
import os

from vf import N

NSLOT = 6
CFG = "CONSTANT NSlot = %d\nSPECIFICATION TraceSpec\nPOSTCONDITION Accepted\nCHECK_DEADLOCK FALSE\n" % NSLOT


def rb(r, n):
    """n bytes, sometimes of the kind that makes carries run"""
    k = r.randrange(6)
    if k == 0:
        return bytes([r.choice((0, 0xff, 0x80, 1, 0x7f))]) * n
    if k == 1:
        return bytes(r.choice((0, 0xff)) for _ in range(n))
    return bytes(r.randrange(256) for _ in range(n))


def walks(ctx, fam, num, depth, lens, slots=3, **kw):
    """Behaviours of Sym produced by TLC: interleaved histories of calls on several contexts."""
    r = ctx.rng
    npool, nodd = 120, 20
    size = max([400] + list(lens) + list(kw.get("arc4", ())) + list(kw.get("keylens", ())))
    pool = [rb(r, size) for _ in range(npool)]
    pool += [bytes(b | 1 for b in rb(r, 64)) for _ in range(nodd)]
    # chaining values about to wrap
    for i in range(0, 12, 2):
        b = bytearray(pool[i])
        for j in range(r.randrange(17), 16):
            b[j] = 0xff
        for j in range(4, 8):
            b[j] = 0xff
        pool[i] = bytes(b)
    par = {"fam": list(fam), "lens": list(lens), "depth": depth, "slots": True, "fresh": 6, "blocks": 5,
           "odd": [npool + 1, npool + nodd], "hash": ["md5", "sha1", "sha256", "sha384", "sha512"],
           "hmac": ["md5", "sha1", "sha256", "toy", "toyn"], "mac": ["aes", "toy16"], "ciph": ["aes", "des", "toy8", "toy16"],
           "mode": ["cbc", "ctr", "cfb", "cfb8"], "stream": ["arc4", "trivium"], "arc4": [1, 5, 16, 32, 255, 256],
           "keylens": [0, 1, 20, 63, 64, 65, 100, 130], "ivlens": [1, 8, 11, 12, 12, 12, 13, 15, 16, 17, 32, 60]}
    par.update(kw)
    if set(fam) <= {"prng", "lfsr"}:
        par["slots"] = False
    pf, sf = os.path.join(ctx.tmp, "pool"), os.path.join(ctx.tmp, "par")
    with open(pf, "w") as f:
        f.write("".join(json.dumps(list(v)) + "\n" for v in pool))
    with open(sf, "w") as f:
        f.write(json.dumps(par) + "\n")
    beh = ctx.simulate("SymSim", "CONSTANT NSlot = %d\nSPECIFICATION SimSpec\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n" % slots,
                       num, depth + 1, env={"POOL": pf, "SIMPAR": sf})
    ctx.extra["behaviours_generated_by_tlc"] = ctx.extra.get("behaviours_generated_by_tlc", 0) + len(beh)

    def conv(x):
        return pool[x["p"] - 1][:x["n"]] if isinstance(x, dict) else x
    return [[["new"]] + [[conv(x) for x in c] for c in h] for h in beh]


def conform(ctx, scens, variants, few=False):
    for v in variants:
        evs = ctx.replay(v, scens, per=1 if few else 8)
        ctx.validate("SymTrace", scens, evs, v, cfg=CFG, per=1 if few else 150)
        ctx.log("SymTrace: %d scenarios, %d events (variant %s)" % (len(scens), sum(map(len, evs)), v))
        if ctx.violations:
            return


def group(calls, per=20):
    """single calls (lists of commands without `new`) into scenarios"""
    out = []
    for i in range(0, len(calls), per):
        sc = [["new"]]
        for c in calls[i:i + per]:
            sc += c
        out.append(sc)
    return out


def cuts(r, n, how=None):
    """a composition of n into pieces"""
    how = how if how is not None else r.randrange(5)
    if how == 0:
        return [n]
    if how == 1 and n <= 300:
        return [1] * n
    if how == 2:
        k = r.randrange(n + 1)
        return [k, n - k]
    out = []
    while n:
        k = min(n, r.choice((0, 1, 2, 3, 7, 8, 15, 16, 17, 31, 55, 56, 63, 64, 65, 111, 112, 127, 128, 129, r.randrange(1, 200))))
        out.append(k)
        n -= k
    return out


def pieces(data, cs):
    o = 0
    for k in cs:
        yield data[o:o + k]
        o += k


def sizes(ctx, unit=1):
    """lengths past what a narrow counter of bytes or of blocks holds"""
    r = ctx.rng
    out = [65536 + r.choice((0, 1, 7, 16, 17, 40, 64, 100, r.randrange(600)))]
    if ctx.thorough:
        out += [65535, 65536, 65537, 131072 + r.randrange(300), (1 << 20) + r.randrange(2000)]
    return [n - n % unit for n in out]


def large(ctx, scens):
    """calls on long data, one scenario to a process"""
    if not ctx.violations:
        conform(ctx, [[["new", 120]] + s for s in scens], BOTH, few=True)


TABLE = {}


# ------------------------------------------------------------- models ------
def laws(ctx, *names):
    ctx.mc("SymLaws", "CONSTANTS NSlot = 1\nK = %d\nSPECIFICATION LSpec\nCHECK_DEADLOCK FALSE\n" % ctx.pick(60, 2000) +
           "".join("INVARIANT %s\n" % i for i in names), label="SymLaws(%s)" % ",".join(names))


def seeds(ctx, quick=12, thorough=80):
    return "CONSTANT Seeds = {%s}" % ",".join(str(ctx.rng.randrange(1, 9999)) for _ in range(ctx.pick(quick, thorough)))


def self_hash(ctx):
    ls = ctx.pick([0, 1, 55, 56, 64, 111, 112], [0, 1, 3, 55, 56, 63, 64, 65, 111, 112, 119, 120, 127, 128, 129, 200])
    ctx.self_check("Hash", "CONSTANTS Lens = {%s}\nBases = {%s}" %
                   (",".join(map(str, ls)), ",".join(str(ctx.rng.randrange(256)) for _ in range(ctx.pick(1, 4)))))


def modes_mc(ctx):
    ctx.mc("ModesMC", "CONSTANTS NSlot = 1\nMax = %d\nMaxLen = %d\nSPECIFICATION MSpec\nINVARIANT Split\nINVARIANT Inverse\n"
           "CHECK_DEADLOCK FALSE\n" % ctx.pick((3, 8), (6, 10)), label="ModesMC(one context)")


def solo_mc(ctx):
    ctx.mc("ModesMC", "CONSTANTS NSlot = 2\nMax = 1\nMaxLen = 4\nSPECIFICATION MSpec\nINVARIANT Split\nINVARIANT Inverse\n"
           "PROPERTY Solo\nCHECK_DEADLOCK FALSE\n", label="ModesMC(two contexts)")


def buf_mc(ctx, *invs):
    for b, lf, m in ctx.pick([(4, 1, 14)], [(2, 1, 14), (4, 1, 22), (5, 2, 24), (8, 2, 30)]):
        ctx.mc("BufMC", "CONSTANTS B = %d\nLF = %d\nMaxLen = %d\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n" % (b, lf, m) +
               "".join("INVARIANT %s\n" % i for i in invs), label="BufMC(B=%d)" % b)


BOTH = ["std", "rel"]
LENS = [0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 23, 24, 31, 32, 33, 47, 48, 55, 56, 63, 64, 65, 80, 100, 111, 112, 127, 128, 129, 200]
HASHES = {"md5": 64, "sha1": 64, "sha256": 64, "sha384": 128, "sha512": 128}


def fed(init, upd, fin, s, data, cs):
    return [init] + [[upd, s, p] for p in pieces(data, cs)] + [[fin, s]]


# ------------------------------------------------------------ C11 ----------
def c11(ctx):
    r = ctx.rng
    buf_mc(ctx, "Buffered", "Digested")
    self_hash(ctx)
    calls = []
    for alg, b in HASHES.items():
        for n in list(range(0, 2 * b + 10)) + [r.randrange(300, 5000) for _ in range(ctx.pick(4, 40))]:
            d = rb(r, n)
            calls.append([["hone", alg, d]])
            calls.append(fed(["hinit", 1, alg], "hupd", "hdig", 1, d, cuts(r, n)))
        # every division in two, and one byte at a time, around the padding boundary
        for n in ctx.pick([2 * b - 8, 2 * b + 1], [b - 9, b - 1, b, b + 1, 2 * b - 17, 2 * b - 16, 2 * b - 8, 2 * b, 2 * b + 1, 3 * b]):
            d = rb(r, n)
            for k in range(0, n + 1, ctx.pick(3, 1)):
                calls.append(fed(["hinit", 2, alg], "hupd", "hdig", 2, d, [k, n - k]))
            calls.append(fed(["hinit", 2, alg], "hupd", "hdig", 2, d, [1] * n))
            calls.append(fed(["hinit", 2, alg], "hupd", "hdig", 2, d, cuts(r, n, 4)))
    r.shuffle(calls)
    scens = group(calls)
    scens += walks(ctx, ["hash"], ctx.pick(40, 300), 60, LENS + [255, 256, 300])
    conform(ctx, scens, BOTH)
    large(ctx, [x for alg in HASHES for n in sizes(ctx) for d in [rb(r, n)] for x in
                ([["hone", alg, d]], fed(["hinit", 1, alg], "hupd", "hdig", 1, d, [r.randrange(70), 65530]) + [["hinit", 1, alg], ["hdig", 1]])])
    # lengths beyond 32 bits of bits and of bytes
    bigs = [["md5", 512, 5, 64], ["sha1", 512, 61, 64], ["sha256", 512, 3, 64], ["sha1", 4097, 7, 4097], ["md5", 4097, 7, 4097]]
    if ctx.thorough:
        bigs += [["sha512", 512, 5, 100], ["sha384", 513, 100, 7], ["sha256", 4097, 9, 4097], ["sha512", 4097, 3, 4097],
                 ["sha1", 4096, 56, 1000], ["md5", 8200, 0, 8200], ["md5", 4096, 64, 100], ["sha1", 2048, 1, 2048]]
    conform(ctx, [[["new", 600], ["hbig"] + b] for b in bigs], ["rel"], few=True)


# ------------------------------------------------------------ C12 ----------
def c12(ctx):
    r = ctx.rng
    buf_mc(ctx, "Buffered", "Digested")
    laws(ctx, "MacCheck")
    self_hash(ctx)
    calls = []
    for alg in ("md5", "sha1", "sha256", "toy", "toyn"):
        for kl in list(range(0, 20, 5)) + list(range(56, 72)) + [100, 127, 128, 129, 200, 1000]:
            for n in [r.choice(LENS), r.choice(LENS), r.randrange(300)]:
                calls.append(fed(["hminit", r.randrange(1, 3), alg, rb(r, kl)], "hmupd", "hmdig", 0, rb(r, n), cuts(r, n)))
        for n in range(0, 135, ctx.pick(3, 1)):
            calls.append(fed(["hminit", 1, alg, rb(r, r.choice((1, 16, 64, 80)))], "hmupd", "hmdig", 0, rb(r, n), cuts(r, n)))
        # no update at all
        calls.append([["hminit", 1, alg, rb(r, 20)], ["hmdig", 1]])
    for c in calls:
        for e in c[1:]:
            e[1] = c[0][1]
    r.shuffle(calls)
    scens = group(calls) + walks(ctx, ["hmac", "hash"], ctx.pick(60, 300), 60, LENS)
    conform(ctx, scens, BOTH)
    large(ctx, [fed(["hminit", 1, alg, rb(r, kl)], "hmupd", "hmdig", 1, rb(r, n), [n])
                for alg in ("sha1", "sha256") for m in sizes(ctx) for kl, n in ((m, 30), (20, m))])


# ------------------------------------------------------------ C13 ----------
def c13(ctx):
    r = ctx.rng
    buf_mc(ctx, "Held")
    laws(ctx, "MacCheck")
    ctx.self_check("Cipher", seeds(ctx))
    calls = []
    for c, kl in (("aes", 16), ("aes", 24), ("aes", 32), ("toy16", 9)):
        for n in list(range(0, 70)) + [r.randrange(70, 700) for _ in range(10)]:
            calls.append(fed(["cminit", 1, c, rb(r, kl)], "cmupd", "cmdig", 1, rb(r, n), cuts(r, n)))
            calls.append(fed(["cminit", 1, c, rb(r, kl)], "cmupd", "cmdig", 1, rb(r, n), [n]))
        for n in ctx.pick([16, 32, 48, 49], range(1, 66)):
            d, key = rb(r, n), rb(r, kl)
            for k in range(n + 1):
                calls.append(fed(["cminit", 1, c, key], "cmupd", "cmdig", 1, d, [k, n - k]))
            calls.append(fed(["cminit", 1, c, key], "cmupd", "cmdig", 1, d, [1] * n))
            calls.append(fed(["cminit", 1, c, key], "cmupd", "cmdig", 1, d, [0, n, 0, 0]))
        calls.append([["cminit", 1, c, rb(r, kl)], ["cmdig", 1]])
    r.shuffle(calls)
    scens = group(calls) + walks(ctx, ["cmac"], ctx.pick(60, 300), 60, LENS[:24])
    conform(ctx, scens, BOTH)
    large(ctx, [fed(["cminit", 1, c, rb(r, 16)], "cmupd", "cmdig", 1, rb(r, n + k), [k, n])
                for c in ("aes",) for n in [4080, 4096, 4097, 4112] + sizes(ctx) for k in (0, 5)])


# ------------------------------------------------------------ C14 ----------
CRCS = ("ccitt", "ibm", "dnp", "eth")


def c14(ctx):
    r = ctx.rng
    laws(ctx, "Crc", "CrcCheck")
    ctx.self_check("Streams", seeds(ctx, 6, 40))
    calls = []
    for v in CRCS:
        calls += [[["cone", v, bytes([b])]] for b in range(256)]
        calls += [[["cone", v, bytes([r.randrange(256), b])]] for b in range(256)]
        for n in list(range(0, 70)) + [r.randrange(70, 2000) for _ in range(10)]:
            d = rb(r, n)
            calls.append([["cone", v, d]])
            calls.append(fed(["cinit", 1, v], "cupd", r.choice(("cfin", "cdig")), 1, d, cuts(r, n)))
        for f in range(4):
            for _ in range(6):
                n = r.randrange(40)
                calls.append(fed(["cinitx", 2, v, r.randrange(65536), r.choice((0, 65535, r.randrange(65536))), f],
                                 "cupd", r.choice(("cfin", "cdig")), 2, rb(r, n), cuts(r, n)))
    r.shuffle(calls)
    scens = group(calls, 40) + walks(ctx, ["crc"], ctx.pick(40, 300), 60, LENS)
    conform(ctx, scens, BOTH)
    large(ctx, [[["cone", v, d], ["cinit", 1, v], ["cupd", 1, d[:7]], ["cupd", 1, d[7:]], ["cdig", 1]]
                for v in CRCS for n in sizes(ctx) for d in [rb(r, n)]])


# ------------------------------------------------------------ C15, C16 -----
def block_calls(ctx, c, kls, bl, rounds):
    r = ctx.rng
    calls = []
    # single bits of key and text
    for kl in kls:
        for bit in range(0, 8 * bl, ctx.pick(5, 1)):
            m = (1 << bit).to_bytes(bl, "big")
            calls.append([["bkey", 1, c, b"\0" * kl, 0], ["benc", 1, m, 0], ["bdec", 1, m, 1]])
        for bit in range(0, 8 * kl, ctx.pick(7, 1)):
            calls.append([["bkey", 1, c, (1 << bit).to_bytes(kl, "big"), 0], ["benc", 1, b"\0" * bl, 1], ["bdec", 1, b"\0" * bl, 0]])
        for _ in range(rounds):
            key = rb(r, kl)
            n = r.choice((0, 1, 1, 2, 3, 4, 5, 7, 8, 16, 33))
            d = bytes(r.randrange(256) for _ in range(bl * n))
            ops = [["benc", 1, d, r.randrange(2)], ["bdec", 1, d, r.randrange(2)]]
            if r.randrange(2):
                ops.reverse()
            if r.randrange(3) == 0:
                ops += [["benc", 1, d[:bl], 0], ["bdec", 1, d[:bl], 0]]
            if r.randrange(3) == 0:
                ops += [["bkey", 1, c, key, 0]]
            calls.append([["bkey", 1, c, key, r.randrange(2)]] + ops)
    return calls


def c15(ctx):
    laws(ctx, "Aes")
    ctx.self_check("Cipher", seeds(ctx))
    calls = block_calls(ctx, "aes", (16, 24, 32), 16, ctx.pick(150, 2500))
    scens = group(calls) + walks(ctx, ["block"], ctx.pick(60, 400), 60, LENS, ciph=["aes"])
    conform(ctx, scens, BOTH)
    r = ctx.rng
    large(ctx, [[["bkey", 1, "aes", rb(r, kl), 0], ["benc", 1, d, i], ["bdec", 1, d, i], ["benc", 1, d[:16], 0]]
                for kl in (16, 32) for i in (0, 1) for n in [255 * 16, 256 * 16, 257 * 16] + sizes(ctx, 16) for d in [rb(r, n)]])


def c16(ctx):
    laws(ctx, "Des")
    ctx.self_check("Cipher", seeds(ctx))
    calls = block_calls(ctx, "des", (8, 24), 8, ctx.pick(200, 3000))
    r = ctx.rng
    # keys with equal parts, weak keys
    for _ in range(ctx.pick(20, 200)):
        a, b = rb(r, 8), rb(r, 8)
        for key in (a + a + b, a + b + a, b + a + a, a + a + a):
            calls.append([["bkey", 1, "des", key, 0], ["benc", 1, rb(r, 24), 0], ["bdec", 1, rb(r, 24), 1]])
    for w in ("0101010101010101", "fefefefefefefefe", "e0e0e0e0f1f1f1f1", "1f1f1f1f0e0e0e0e", "01fe01fe01fe01fe"):
        calls.append([["bkey", 1, "des", bytes.fromhex(w), 0], ["benc", 1, rb(r, 16), 0], ["bdec", 1, rb(r, 16), 0]])
    scens = group(calls) + walks(ctx, ["block"], ctx.pick(60, 400), 60, LENS, ciph=["des"])
    conform(ctx, scens, BOTH)
    r = ctx.rng
    large(ctx, [[["bkey", 1, "des", rb(r, kl), 0], ["benc", 1, d, i], ["bdec", 1, d, i], ["benc", 1, d[:8], 0]]
                for kl in (8,) for i in (0, 1) for n in [255 * 8, 256 * 8, 257 * 8] + sizes(ctx, 8) for d in [rb(r, n)]])


# ------------------------------------------------------------ C17-C19 ------
CIPHERS = {"aes": (16, (16, 24, 32)), "des": (8, (8, 24)), "toy8": (8, (1, 5, 8)), "toy16": (16, (3, 16, 20))}


def wrapiv(r, bl):
    v = bytearray(rb(r, bl))
    for i in range(r.randrange(bl + 1), bl):
        v[i] = 0xff
    if r.randrange(2):
        v[-1] = (v[-1] - r.randrange(4)) & 0xff
    return bytes(v)


def mode_calls(ctx, mode):
    r = ctx.rng
    calls = []
    for c, (bl, kls) in CIPHERS.items():
        step = bl if mode == "cbc" else 1
        lens = list(range(0, 5 * bl + 1, step))
        if ctx.thorough:
            lens += list(range(0, 40 * bl + 1, step))
        lens += [512 * k + e for k in (1, 2, 3, 4) for e in (-bl, 0, bl)]
        lens += [bl * r.randrange(5, 80) + (0 if mode == "cbc" else r.randrange(bl)) for _ in range(ctx.pick(8, 60))]
        for n in lens:
            for op in ("menc", "mdec"):
                for inplace in (0, 1):
                    if not ctx.thorough and n > 2 * bl and r.randrange(3):
                        continue
                    calls.append([["minit", 1, mode, c], ["mkey", 1, rb(r, r.choice(kls))], ["miv", 1, wrapiv(r, bl)],
                                  [op, 1, rb(r, n), inplace]])
        if mode == "cbc":
            # data short of a whole number of blocks: the rest is left alone
            for n in list(range(3 * bl)) + [512 + k for k in range(1, bl, 3)]:
                calls.append([["minit", 1, mode, c], ["mkey", 1, rb(r, r.choice(kls))], ["miv", 1, wrapiv(r, bl)]] +
                             [[op, 1, rb(r, k), r.randrange(2)] for op in r.sample(("menc", "mdec"), 2) for k in (n, 2 * bl)])
        for _ in range(ctx.pick(30, 300)):
            # one stream in pieces, then decrypted again under the same IV, then a new IV and key in either order
            key, iv = rb(r, r.choice(kls)), wrapiv(r, bl)
            n = r.randrange(12)
            cs = []
            for _ in range(r.randrange(1, 6)):
                cs.append(bl * r.choice((0, 1, 1, 2, 3, n)) if mode != "cfb8" else r.randrange(3 * bl))
            if mode in ("ctr", "cfb") and r.randrange(2):
                cs.append(r.randrange(1, bl))
            ops = [["mkey", 1, key], ["miv", 1, iv]]
            if r.randrange(2):
                ops.reverse()
            calls.append([["minit", 1, mode, c]] + ops +
                         [["menc", 1, rb(r, k), r.randrange(2)] for k in cs] + [["miv", 1, iv]] +
                         [["mdec", 1, rb(r, k), r.randrange(2)] for k in cs] +
                         [["mkey", 1, rb(r, r.choice(kls))], ["miv", 1, wrapiv(r, bl)],
                          [r.choice(("menc", "mdec")), 1, rb(r, bl * 2), 0]])
    r.shuffle(calls)
    return calls


def mode_check(modes):
    def run(ctx):
        modes_mc(ctx)
        ctx.self_check("Cipher", seeds(ctx))
        scens = []
        for m in modes:
            scens += group(mode_calls(ctx, m))
        scens += walks(ctx, ["mode"], ctx.pick(60, 400), 60, LENS, mode=list(modes))
        conform(ctx, scens, BOTH)
        r, scens = ctx.rng, []
        for m in modes:
            for c in ("aes", "des"):
                bl, kls = CIPHERS[c]
                for n in [256 * bl - bl, 256 * bl, 257 * bl] + sizes(ctx, bl if m == "cbc" else 1):
                    for op in ("menc", "mdec"):
                        for inplace in (0, 1):
                            scens.append([["minit", 1, m, c], ["mkey", 1, rb(r, kls[0])], ["miv", 1, wrapiv(r, bl)],
                                          [op, 1, rb(r, n), inplace]] +
                                         ([["miv", 1, rb(r, bl)]] if n % bl and m != "cfb8" else []) +
                                         [[op, 1, rb(r, 3 * bl), 0]])
        large(ctx, scens)
    return run


# ------------------------------------------------------------ C20 ----------
def toy16(key, b):
    t = []
    for i in range(16):
        t.append(((b[i] ^ key[i % len(key)]) + (t[i - 1] if i else 0) + i + 1) & 255)
    return bytes((5 * t[(i + 1) % 16] + 3) & 255 for i in range(16))


def gf(x, y):
    """GF(2^128) of GCM, as integers read big-endian"""
    z, v = 0, y
    for i in range(128):
        if x >> (127 - i) & 1:
            z ^= v
        v = (v >> 1) ^ (0xE1 << 120 if v & 1 else 0)
    return z


def gf_inv(x):
    """x^(2^128 - 2)"""
    out, sq = 1 << 127, x
    for _ in range(127):
        sq = gf(sq, sq)
        out = gf(out, sq)
    return out


def iv_for(key, j0):
    """a 16-byte IV whose first counter block under toy16 is j0"""
    h = int.from_bytes(toy16(key, bytes(16)), "big")
    hi = gf_inv(h)
    return gf(gf(j0, hi) ^ 128, hi).to_bytes(16, "big")


def c20(ctx):
    r = ctx.rng
    laws(ctx, "Gcm")
    ctx.self_check("Modes", seeds(ctx, 5, 40))
    calls = []

    def msg(s, ivl, al, ml, tl, iv=None, way=None):
        out = [["giv", s, iv or rb(r, ivl)]]
        if way:         # in one piece
            return out + [["gaad", s, rb(r, al)], [way[0], s, rb(r, ml), way[1]], ["gtag", s, tl]]
        dec = r.randrange(2)

        def split(n):
            cs = []
            while n >= 16 and r.randrange(2):
                k = 16 * r.randrange(0, n // 16 + 1)
                cs.append(k)
                n -= k
            return cs + ([n] if n or r.randrange(2) else [])
        out += [["gaad", s, rb(r, k)] for k in split(al)]
        out += [["gdec" if dec else "genc", s, rb(r, k), r.randrange(2)] for k in split(ml)]
        return out + [["gtag", s, tl]]
    for c, kls in (("aes", (16, 24, 32)), ("toy16", (3, 16))):
        start = lambda: [["ginit", 1, c], ["gkey", 1, rb(r, r.choice(kls))]]
        for n in range(1, ctx.pick(36, 140)):
            calls.append(start() + msg(1, n, r.randrange(40), r.randrange(70), 16))
        for n in range(0, ctx.pick(50, 200)):
            calls.append(start() + msg(1, 12, n, r.randrange(20), r.randrange(17)))
            calls.append(start() + msg(1, 12, r.randrange(20), n, 16))
        calls += [start() + msg(1, 12, 5, 20, t) for t in range(17)]
        calls += [start() + msg(1, 12, 0, 0, 16), start() + msg(1, 60, 0, 0, 16)]
        # several messages on one context, and a new key
        for _ in range(ctx.pick(20, 200)):
            s = start()
            for _ in range(3):
                s += msg(1, r.choice((12, 12, 1, 8, 16, 20)), r.randrange(40), r.randrange(70), r.choice((16, 16, 12, 4)))
                if r.randrange(3) == 0:
                    s += [["gkey", 1, rb(r, r.choice(kls))]]
            calls.append(s)
        for _ in range(ctx.pick(2, 20)):
            calls.append(start() + msg(1, 12, r.randrange(1000), r.randrange(1500), 16))
    # the 32-bit block counter wraps without carrying into the IV part
    for _ in range(ctx.pick(12, 80)):
        key = rb(r, 16)
        if gf(1 << 127, int.from_bytes(toy16(key, bytes(16)), "big")) == 0:
            continue
        top = r.choice((b"\xff" * 12, bytes(12), rb(r, 12)))
        low = (0x100000000 - r.randrange(1, 5)) if r.randrange(2) else r.choice((0xffffff, 0xffff, 0xff)) - r.randrange(3)
        iv = iv_for(key, int.from_bytes(top + low.to_bytes(4, "big"), "big"))
        calls.append([["ginit", 1, "toy16"], ["gkey", 1, key]] + msg(1, 16, r.randrange(20), 16 * 6 + r.randrange(16), 16, iv))
    r.shuffle(calls)
    scens = group(calls, 8) + walks(ctx, ["gcm"], ctx.pick(40, 300), 60, LENS[:24])
    conform(ctx, scens, BOTH)
    large(ctx, [[["ginit", 1, c], ["gkey", 1, rb(r, 16)]] + msg(1, a, b, n, 16)
                for c in ("aes",) for m in sizes(ctx) for a, b, n in ((12, 30, m), (12, m, 30), (m, 5, 40), (12, 4096 + 3, 4096), (256, 256, 4097))] +
          [[["ginit", 1, c], ["gkey", 1, rb(r, 16)]] + msg(1, 12, 30, n, 16, way=(op, i))
           for c, n in [("aes", m) for m in sizes(ctx)] + [("toy16", 4097 + r.randrange(300))] for op in ("genc", "gdec") for i in (0, 1)])
    if ctx.violations:
        return
    # lengths that need more than 32 bits when counted in bits
    start = [["new", 600], ["ginit", 1, "toy16"], ["gkey", 1, rb(r, 16)], ["giv", 1, rb(r, 12)]]
    conform(ctx, [start + [["gbig", 1, 513], ["gaad", 1, rb(r, 20)], ["genc", 1, rb(r, 40), 0], ["gtag", 1, 16]],
                  start + [["gdbig", 1, 513], ["genc", 1, rb(r, 32), 0], ["gdec", 1, rb(r, 21), 1], ["gtag", 1, 16]]],
            ["rel"], few=True)


# ------------------------------------------------------------ C21 ----------
def c21(ctx):
    r = ctx.rng
    laws(ctx, "Streams1")
    ctx.self_check("Streams", seeds(ctx, 6, 40))
    calls = []
    for kl in list(range(1, 257, ctx.pick(9, 1))) + [1, 2, 5, 16, 255, 256]:
        n = r.choice(LENS + [300, 700])
        calls.append([["skey", 1, "arc4", rb(r, kl), r.randrange(2)]] +
                     [["scrypt", 1, rb(r, k), r.randrange(2)] for k in cuts(r, n)])
    for _ in range(ctx.pick(40, 400)):
        s = [["skey", 2, "trivium", rb(r, 10), r.randrange(2)]]
        for _ in range(r.randrange(1, 3)):
            s += [["siv", 2, rb(r, 10)]]
            s += [["scrypt", 2, rb(r, 4 * r.choice((0, 1, 2, 5, 16, 32))), r.randrange(2)] for _ in range(r.randrange(4))]
            s += [["scrypt", 2, rb(r, r.choice(LENS)), r.randrange(2)]]
        calls.append(s)
    for n in range(0, 40):
        calls.append([["skey", 2, "trivium", rb(r, 10), 0], ["siv", 2, rb(r, 10)], ["scrypt", 2, rb(r, n), n & 1]])
    for bit in range(0, 80, ctx.pick(3, 1)):
        b = (1 << bit).to_bytes(10, "big")
        calls.append([["skey", 2, "trivium", b, 0], ["siv", 2, bytes(10)], ["scrypt", 2, bytes(12), 0],
                      ["skey", 2, "trivium", bytes(10), 0], ["siv", 2, b], ["scrypt", 2, bytes(12), 0]])
    # long streams
    for _ in range(ctx.pick(2, 20)):
        calls.append([["skey", 1, "arc4", rb(r, 16), 0]] + [["scrypt", 1, rb(r, 2000), 0]] * 3)
        calls.append([["skey", 2, "trivium", rb(r, 10), 0], ["siv", 2, rb(r, 10)]] + [["scrypt", 2, rb(r, 1200), 0]] * 3)
    r.shuffle(calls)
    scens = group(calls, 10) + walks(ctx, ["stream"], ctx.pick(50, 300), 50, LENS)
    conform(ctx, scens, BOTH)
    large(ctx, [k + [["scrypt", s, rb(r, n), i]] + k[1:] * (n % 4 > 0) + [["scrypt", s, rb(r, 50), 0]]
                for n in [1023, 1024, 4099] + sizes(ctx) for i in (0, 1)
                for s, k in ((1, [["skey", 1, "arc4", rb(r, 16), 0]]), (2, [["skey", 2, "trivium", rb(r, 10), 0], ["siv", 2, rb(r, 10)]]))])


# ------------------------------------------------------------ C22 ----------
def c22(ctx):
    r = ctx.rng
    buf_mc(ctx, "Stream")
    laws(ctx, "Streams1", "Lfsr")
    calls = []
    for n in list(range(0, 40)) + [64, 100]:
        seed = rb(r, n)
        for _ in range(2):
            reqs = [r.choice((0, 1, 2, 3, 4, 5, 15, 16, 17, 31, 32, 33, 48, 64, 100)) for _ in range(r.randrange(1, 8))]
            calls.append([["pinit", seed]] + [["prand", k] for k in reqs])
            calls.append([["linit", seed]] + [["lrand", k] for k in reqs])
    # carries of the counter
    for _ in range(ctx.pick(20, 200)):
        calls.append([["pinit", rb(r, 16) + wrapiv(r, 16)]] + [["prand", r.choice((1, 7, 16, 40, 100))] for _ in range(8)])
    # small components of the LFSR seed
    for _ in range(ctx.pick(60, 600)):
        s = b"".join(r.choice((0, 1, 2, 3, 6, 7, 8, 9, 14, 15, 16, 17, 126, 127, 128, 129, r.randrange(1 << 32))).to_bytes(4, "little")
                     for _ in range(4))
        calls.append([["linit", s], ["lrand", 16], ["lrand", r.randrange(30)]])
    r.shuffle(calls)
    scens = group(calls, 10)
    scens += walks(ctx, ["prng", "lfsr"], ctx.pick(60, 400), 60, LENS, slots=1)
    conform(ctx, scens, BOTH)
    large(ctx, [[[i, rb(r, 32)], [q, 5], [q, n], [q, 20], [i, rb(r, n)], [q, 40]] for n in [255, 256, 1021, 4096] + sizes(ctx)
                for i, q in (("pinit", "prand"), ("linit", "lrand"))])


# ------------------------------------------------------------ C23 ----------
def c23(ctx):
    r = ctx.rng
    laws(ctx, "KeyWrap")
    ctx.self_check("Cipher", seeds(ctx))
    sizes = [16, 24, 32, 40, 48, 64, 88, 168, 336, 344, 352, 400] + ([8 * k for k in range(2, 130)] if ctx.thorough else [])
    first = []
    for kl in (16, 24, 32):
        for n in sizes:
            for _ in range(2 if n < 100 else 1):
                first.append([["wrap", rb(r, kl), rb(r, n)]])
        for n in range(0, 34):
            first.append([["wrap", rb(r, kl), rb(r, n)]])
            first.append([["unwrap", rb(r, kl), rb(r, n)]])
    conform(ctx, group(first), BOTH)
    if ctx.violations:
        return
    # what the library wrapped, intact and altered
    evs = ctx.replay("rel", group(first))
    second = []
    for e in [e for s in evs for e in s if e["op"] == "wrap" and e["r"][0] == 0]:
        kek, data, w = bytes(e["a"][0]), bytes(e["a"][1]), bytes(e["r"][1])
        second.append([["unwrap", kek, w]])
        for _ in range(ctx.pick(4, 20)):
            b = bytearray(w)
            b[r.randrange(len(b))] ^= 1 << r.randrange(8)
            second.append([["unwrap", kek, bytes(b)]])
        bad = bytearray(kek)
        bad[r.randrange(len(bad))] ^= 1 << r.randrange(8)
        second.append([["unwrap", bytes(bad), w]])
        second.append([["unwrap", kek, w[8:]], ["unwrap", kek, w + rb(r, 8)], ["unwrap", kek, w[8:] + w[:8]]])
        second.append([["unwrap", kek, w[:-3]], ["unwrap", kek, w + b"\0"]])
    # integrity values that differ in one byte only: wrapped with another initial value
    for e in [e for s in evs for e in s if e["op"] == "wrap" and e["r"][0] == 0 and len(e["a"][1]) <= 32][:ctx.pick(12, 60)]:
        for pos in range(8):
            a = bytearray(b"\xa6" * 8)
            a[pos] ^= 1 << r.randrange(8)
            second.append([["unwrap", bytes(e["a"][0]), forge(ctx, bytes(e["a"][0]), bytes(a), bytes(e["a"][1]))]])
    conform(ctx, group(second), BOTH)
    if ctx.violations:
        return
    # step counters of two and three bytes
    first = [[["new", 120], ["wrap", rb(r, 16), rb(r, 8 * k)]] for k in (255, 256, 257, 10922, 10930)]
    conform(ctx, first, ["rel"], few=True)
    if ctx.violations:
        return
    second = []
    for e in [e for s in ctx.replay("rel", first, per=1) for e in s if e["op"] == "wrap"]:
        w = bytes(e["r"][1])
        b = bytearray(w)
        b[r.randrange(len(b))] ^= 1 << r.randrange(8)
        second += [[["new", 120], ["unwrap", bytes(e["a"][0]), w]], [["new", 120], ["unwrap", bytes(e["a"][0]), bytes(b)]]]
    conform(ctx, second, ["rel"], few=True)


def forge(ctx, kek, iv, data):
    """key data wrapped under an integrity value of our choosing (scenario generation only)"""
    from cryptolite import aes_enc
    a, rs = iv, [data[i:i + 8] for i in range(0, len(data), 8)]
    n = len(rs)
    for t in range(1, 6 * n + 1):
        b = aes_enc(kek, a + rs[(t - 1) % n])
        a = (int.from_bytes(b[:8], "big") ^ t).to_bytes(8, "big")
        rs[(t - 1) % n] = b[8:]
    return a + b"".join(rs)


# ------------------------------------------------------------ C24 ----------
def c24(ctx):
    r = ctx.rng
    m, nmax = ctx.pick((11, 6), (14, 8))
    ctx.mc("MemMC", "CONSTANTS M = %d\nMaxN = %d\nSPECIFICATION Spec\nINVARIANT Right\nCHECK_DEADLOCK FALSE\n" % (m, nmax), label="MemMC(M=%d)" % m)
    calls = []
    for n in range(0, nmax + 1):
        for d in range(m - n + 1):
            for a in range(m - n + 1):
                if a >= d or d >= a + n:
                    calls.append([["memxor", rb(r, m), d, a, n]])
                for b in range(m - n + 1):
                    if n < nmax - 1 and not ctx.thorough and r.randrange(3):
                        continue
                    calls.append([["memxor2", rb(r, m), d, a, b, n]])
    for _ in range(ctx.pick(1500, 15000)):
        n = r.choice((7, 8, 9, 15, 16, 17, 31, 32, 33, 64, r.randrange(130)))
        size = n + r.choice((1, 3, 8, 16, n, 2 * n, 3 * n))
        d, a, b = (r.randrange(size - n + 1) for _ in range(3))
        if r.randrange(3) == 0:       # around the case boundaries
            a = max(0, min(size - n, d + r.choice((-n, n, -1, 0, 1, -8, 8, 1 - n, n - 1))))
            b = max(0, min(size - n, a + r.choice((-n, n, -1, 0, 1, -8, 8, n + 1, n - 1))))
        mem = rb(r, size)
        calls.append([["memxor2", mem, d, a, b, n]])
        if a >= d or d >= a + n:
            calls.append([["memxor", mem, d, a, n]])
        if r.randrange(4) == 0:
            calls.append([["memxord", mem, d, rb(r, n), n]])
    r.shuffle(calls)
    conform(ctx, group(calls, 60), BOTH)
    scens = []
    for n in [255, 256, 257, 1000] + sizes(ctx):
        for _ in range(6):
            d, a, b = (r.choice((0, 1, 9, n // 2, n - 1, n, n + 1, 2 * n)) for _ in range(3))
            scens.append([["memxor2", rb(r, 3 * n), d, a, b, n]] + ([["memxor", rb(r, 3 * n), d, a, n]] if a >= d or d >= a + n else []))
    large(ctx, scens)


# ------------------------------------------------------------ C25 ----------
def c25(ctx):
    import base64
    r = ctx.rng
    laws(ctx, "B64")
    calls = []
    abc = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
    dec = lambda t: ["b64d", t, len(t) // 4 * 3]

    def exact(t):
        p = 0 if not t.endswith(b"=") else 2 if t.endswith(b"==") else 1
        return ["b64d", t, len(t) // 4 * 3 - p]
    for n in list(range(0, ctx.pick(70, 300))) + [r.randrange(300, 3000) for _ in range(6)]:
        m = rb(r, n)
        calls.append([["b64e", m], exact(base64.b64encode(m))])
    for b in range(256):
        m = bytes([b])
        calls.append([["b64e", m], ["b64e", rb(r, 1) + m], ["b64e", rb(r, 2) + m], exact(base64.b64encode(m)),
                      exact(base64.b64encode(rb(r, 1) + m)), exact(base64.b64encode(rb(r, 2) + m))])
    # every character in every place of a group, valid or not
    for ch in range(256):
        for pos in range(4):
            g = bytearray(r.choice(abc) for _ in range(4))
            g[pos] = ch
            pre = bytes(r.choice(abc) for _ in range(4)) * r.randrange(2)
            post = bytes(r.choice(abc) for _ in range(4)) * r.randrange(2)
            calls.append([dec(pre + bytes(g) + post)])
    # lengths and padding
    for n in range(0, 14):
        t = bytes(r.choice(abc) for _ in range(n))
        calls.append([dec(t)])
        for k in range(1, 5):
            calls.append([dec(t[:max(0, n - k)] + b"=" * k)])
    for _ in range(ctx.pick(300, 4000)):
        t = bytearray(base64.b64encode(rb(r, r.randrange(1, 20))))
        for _ in range(r.randrange(1, 3)):
            k = r.randrange(5)
            i = r.randrange(len(t) + (k == 2))
            if k == 0:
                t[i] = r.choice(b"=\n -_\0\x80\xff=")
            elif k == 1 and len(t) > 1:
                del t[i]
            elif k == 2:
                t.insert(i, r.choice(b"=\n A"))
            else:
                t[i] = r.choice(abc)
        calls.append([dec(bytes(t))])
    r.shuffle(calls)
    conform(ctx, group(calls, 60), BOTH)
    large(ctx, [[["b64e", m], exact(base64.b64encode(m)), dec(base64.b64encode(m)[:-8] + b"=" + base64.b64encode(m)[-7:])]
                for n in [190, 191, 192, 193, 255, 256, 257] + sizes(ctx) + [49150 + r.randrange(5)] for m in [rb(r, n)]])


# ------------------------------------------------------------ C26 ----------
def c26(ctx):
    r = ctx.rng
    laws(ctx, "Affine", "Hill")
    calls = []
    every = bytes(range(256))
    for a in range(1, 256, 2):
        calls.append([["afinit", 1, bytes([a]), rb(r, 1)], ["afenc", 1, every, r.randrange(2)], ["afdec", 1, every, r.randrange(2)]])
    for kl in range(0, 40):
        ka = bytes(b | 1 for b in rb(r, kl))
        calls.append([["afinit", 1, ka, rb(r, kl)]] +
                     ([[op, 1, rb(r, n), r.randrange(2)] for n in (0, 1, kl, 3 * kl + 1, 100) for op in ("afenc", "afdec")] if kl else []))
        # an even multiplier in one place (beyond the 32nd it does not count)
        for _ in range(3 if kl else 0):
            kb = bytearray(ka)
            kb[r.randrange(kl)] &= 0xfe
            calls.append([["afinit", 1, bytes(kb), rb(r, kl)]])
        if kl:
            kb = bytearray(ka)
            kb[0 if r.randrange(2) else min(kl, 32) - 1] = r.choice((0, 2, 128))
            calls.append([["afinit", 1, bytes(kb), rb(r, kl)]])

    def odd(n, rows):
        rows = [[x & 1 for x in rows[i * n:(i + 1) * n]] for i in range(n)]
        for c in range(n):
            p = [i for i in range(c, n) if rows[i][c]]
            if not p:
                return False
            rows[c], rows[p[0]] = rows[p[0]], rows[c]
            for i in range(c + 1, n):
                if rows[i][c]:
                    rows[i] = [x ^ y for x, y in zip(rows[i], rows[c])]
        return True

    def use(n):
        out = []
        for _ in range(3):
            k = n * r.randrange(0, 5) if r.randrange(3) else r.randrange(4 * n)
            d = rb(r, k)
            out += [["hlenc", 1, d, n, r.randrange(2)], ["hldec", 1, d, n, r.randrange(2)]]
        return out
    dims = [1, 1, 2, 2, 2, 3, 3, 4, 4, 5, 6] + ([7] if ctx.thorough else [])
    for _ in range(ctx.pick(12, 120)):
        for n in dims:
            key = bytes(r.randrange(256) for _ in range(n * n))
            ok = odd(n, key)
            length = n * n + r.randrange(2 * n + 1)      # trimmed to a square
            key += rb(r, length - n * n)
            calls.append([["hlinit", 1, length, key, b""]] + (use(n) if ok else []))
            calls.append([["hlinit", 1, length, b"", b""]] + (use(n) if n < 5 else []))
            # a caller's own inverse: for the identity and triangular matrices
            tri = [[(1 if i == j else r.randrange(256) if j > i else 0) for j in range(n)] for i in range(n)]
            inv = [[0] * n for _ in range(n)]
            for j in range(n):
                for i in range(n - 1, -1, -1):
                    inv[i][j] = ((1 if i == j else 0) - sum(tri[i][k] * inv[k][j] for k in range(i + 1, n))) % 256
            calls.append([["hlinit", 1, n * n, bytes(sum(tri, [])), bytes(sum(inv, []))]] + use(n))
    calls += [[["hlinit", 1, 0, b"", b""]], [["hlinit", 1, 4, b"", rb(r, 4)]]]
    for kl in (100, 101 + r.randrange(19), 120, 121, 130, 143, 144, 160, 255, 256):
        one = bytes(int(i < 100 and i % 11 == 0) for i in range(260))
        calls.append([["hlinit", 1, kl, one, one], ["hlenc", 1, rb(r, 30), 10, 0], ["hldec", 1, rb(r, 25), 10, 0]])
    r.shuffle(calls)
    conform(ctx, group(calls, 12), BOTH)
    tri = bytes([1, 7, 0, 0, 1, 9, 0, 0, 1])
    large(ctx, [x for n in [255, 256, 257] + sizes(ctx) for x in
                ([["afinit", 1, bytes(b | 1 for b in rb(r, 5)), rb(r, 5)], ["afenc", 1, rb(r, n), 0], ["afdec", 1, rb(r, n), 1]],
                 [["hlinit", 1, 9, tri, b""], ["hlenc", 1, rb(r, n), 3, 0], ["hldec", 1, rb(r, n), 3, 0]])])


# ------------------------------------------------------------ C28 ----------
def c28(ctx):
    r = ctx.rng
    solo_mc(ctx)
    fams = ["hash", "hmac", "cmac", "crc", "block", "mode", "gcm", "stream", "affine", "prng", "lfsr"]
    scens = walks(ctx, fams, ctx.pick(80, 800), 80, LENS, slots=6)
    for f in fams[:8]:
        scens += walks(ctx, [f], ctx.pick(8, 80), 60, LENS[:20], slots=4, fresh=4)
    # clearing in every state, then using the memory for something else
    calls = []

    def starts(s):
        c = r.choice(list(CIPHERS))
        bl, kls = CIPHERS[c]
        g = r.choice(("aes", "toy16"))
        m = r.choice(("cbc", "ctr", "cfb", "cfb8"))
        return [
            ([["hinit", s, r.choice(list(HASHES))], ["hupd", s, rb(r, r.randrange(200))]] + [["hdig", s]] * r.randrange(2), "hclear"),
            ([["bkey", s, c, rb(r, r.choice(kls)), 1]] + [[o, s, rb(r, bl), 0] for o in r.choice(((), ("benc",), ("bdec",), ("bdec", "benc")))], "bclear"),
            ([["minit", s, m, c], ["mkey", s, rb(r, r.choice(kls))], ["miv", s, rb(r, bl)], [r.choice(("menc", "mdec")), s, rb(r, 2 * bl), 0]], "mclear"),
            ([["minit", s, m, c], ["mkey", s, rb(r, r.choice(kls))]], "mclear"),
            ([["minit", s, m, c]], "mclear"),
            ([["ginit", s, g], ["gkey", s, rb(r, 16)], ["giv", s, rb(r, 12)], ["gaad", s, rb(r, 20)], ["genc", s, rb(r, 33), 0]] + [["gtag", s, 16]] * r.randrange(2), "gclear"),
            ([["skey", s, "arc4", rb(r, 16), 1], ["scrypt", s, rb(r, 20), 0]], "sclear"),
            ([["skey", s, "trivium", rb(r, 10), 1], ["siv", s, rb(r, 10)], ["scrypt", s, rb(r, 20), 0]], "sclear"),
        ]
    for _ in range(ctx.pick(40, 400)):
        for pre, clr in starts(1):
            calls.append(pre + [[clr, 1]])
        for pre, clr in starts(2):
            calls.append(pre)            # whatever was there before
    r.shuffle(calls)
    scens += group(calls, 12)
    conform(ctx, scens, BOTH)
    if ctx.violations:
        return
    import c_pk
    scens = c_pk.interleaved(ctx, ctx.pick(24, 240), 60)
    for v in ctx.pick(("std",), ("std", "rel", "d8")):
        ctx.validate("PkTrace", scens, ctx.replay(v, scens), v)
    ctx.log("PkTrace: %d histories of public-key contexts used and cleared side by side" % len(scens))


TABLE.update({"C11": c11, "C12": c12, "C13": c13, "C14": c14, "C15": c15, "C16": c16,
              "C17": mode_check(["cbc"]), "C18": mode_check(["ctr"]), "C19": mode_check(["cfb", "cfb8"]),
              "C20": c20, "C21": c21, "C22": c22, "C23": c23, "C24": c24, "C25": c25, "C26": c26, "C28": c28})
