"""C06-C10: elliptic curves, signatures, RSA, Diffie-Hellman."""
import json
import math
import os

import c_mpi
from vf import N, big

is_prime, rand_prime = c_mpi.is_prime, c_mpi.rand_prime
SEC = 20


# ------------------------------------------------ arithmetic for choosing inputs (never for judging results) ----
def inv(a, m):
    return pow(a, -1, m)


def ec_add(c, P, Q):
    p, a = c[0], c[1]
    if P is None:
        return Q
    if Q is None:
        return P
    if P[0] == Q[0]:
        if (P[1] + Q[1]) % p == 0:
            return None
        lam = (3 * P[0] * P[0] + a) * inv(2 * P[1], p) % p
    else:
        lam = (Q[1] - P[1]) * inv(Q[0] - P[0], p) % p
    x = (lam * lam - P[0] - Q[0]) % p
    return x, (lam * (P[0] - x) - P[1]) % p


def ec_mul(c, k, P):
    R = None
    while k:
        if k & 1:
            R = ec_add(c, R, P)
        P = ec_add(c, P, P)
        k >>= 1
    return R


def ec_points(p, a, b):
    sq = {}
    for y in range(p):
        sq.setdefault(y * y % p, []).append(y)
    return [None] + [(x, y) for x in range(p) for y in sq.get((x ** 3 + a * x + b) % p, [])]


def ec_curves(p):
    return [(a, b) for a in range(p) for b in range(p) if (4 * a ** 3 + 27 * b * b) % p]


def prime_order_curves(p, limit=None, r=None):
    """curves of prime order n >= 5 over F_p with a generator: (p, a, b, gx, gy, n)"""
    out = []
    cs = ec_curves(p)
    if r:
        r.shuffle(cs)
    for a, b in cs:
        pts = ec_points(p, a, b)
        n = len(pts)
        if n >= 5 and is_prime(n) and n != p:
            g = (r.choice(pts[1:]) if r else pts[1])
            out.append((p, a, b, g[0], g[1], n))
            if limit and len(out) >= limit:
                break
    return out


def named_curves(ctx):
    """parameters as the specification has them"""
    import re
    out = []
    with open(os.path.join(ctx.spec_dir, "Curves.tla")) as f:
        t = f.read()
    for m in re.findall(r"\[p \|->.*?\]", t, re.S):
        out.append(tuple(int.from_bytes(bytes(int(x) for x in g.split(",")) if g.strip() else b"", "little")
                         for g in re.findall(r"<<0, <<([^>]*)>>>>", m)))
    assert len(out) == 11
    return out


def tri(P):
    return bytes((1, 0, 0)) if P is None else bytes((0, P[0], P[1]))


class Maker:
    """scenarios with a generator seed of their own"""

    def __init__(self, ctx):
        self.ctx, self.r, self.n = ctx, ctx.rng, 0

    def new(self, secs=SEC):
        self.n += 1
        return [["new", secs, self.ctx.seed * 1000003 + self.n]]


def conform(ctx, scens, variants):
    ctx.conform("PkTrace", scens, variants)
    return not ctx.violations


def at_draws(ctx, scens, last, nums):
    """the same calls with one draw of the generator, among the last ones they make, replaced: by zeros, by ones and
    by what nums(last event) says: the draws near the end are those whose rare values decide over the result, and the
    values that do are made of the numbers drawn before them"""
    out = []
    cnt = [s + [["rndcnt"]] for s in scens]
    for s, evs in zip(scens, ctx.replay("rel", cnt, per=1)):
        if evs[-1]["op"] != "rndcnt":
            continue                    # it did not come to an end: the plain run reports that
        n = evs[-1]["r"][0]
        vals = [b"\0", b"\xff"]
        vals += [v.to_bytes((v.bit_length() + 7) // 8 + 1, "big") for v in nums(evs[-2])]
        for k in range(max(1, n - last + 1), n + 1):
            out += [s[:1] + [["rndat", k, 1, v]] + s[1:] for v in vals]
    return out


def sim(ctx, kind, num, depth, pool, curves):
    fs = {k: os.path.join(ctx.tmp, k + kind) for k in ("pool", "par", "crv")}
    with open(fs["pool"], "w") as f:
        f.write("".join(json.dumps(big(v)) + "\n" for v in pool))
    with open(fs["crv"], "w") as f:
        f.write("".join(json.dumps([big(v) for v in c]) + "\n" for c in curves))
    with open(fs["par"], "w") as f:
        f.write(json.dumps({"kind": kind, "depth": depth}) + "\n")
    beh = ctx.simulate("PkSim", "SPECIFICATION SimSpec\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n", num, depth + 1,
                       env={"POOL": fs["pool"], "SIMPAR": fs["par"], "CURVES": fs["crv"]})
    ctx.extra["behaviours_generated_by_tlc"] = ctx.extra.get("behaviours_generated_by_tlc", 0) + len(beh)
    return beh


def unbig(v):
    return N((-1 if v[0] else 1) * int.from_bytes(bytes(v[1]), "little"))


def cut_dead(h, ops):
    return h


EC_MODEL = ("CONSTANTS Prime = %d\nK = %d\nSPECIFICATION Spec\nINVARIANTS Closed Commutes Neutral DblIsAdd Associates "
            "MulIsRep Hasse\nCHECK_DEADLOCK FALSE\n")


def ecc_self(ctx):
    """the override of EMul is what Ecc.tla says"""
    f = os.path.join(ctx.tmp, "scalars")
    with open(f, "w") as o:
        for c in named_curves(ctx):
            k = ctx.rng.choice((c[5] - 1, c[5], ctx.rng.randrange(c[5]), ctx.rng.randrange(c[5]), (1 << 130) - 7))
            o.write(json.dumps(big(k)) + "\n")
    ctx.self_check("Ecc", "CONSTANTS Prime = %d\nK = %d" % ctx.pick((5, 12), (11, 40)), env={"NUMS": f})


# ------------------------------------------------------------------ C06 ----
def scalars(r, n, count):
    bits = n.bit_length()
    base = [0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 33, n - 2, n - 1, n, n + 1, 2 * n, 2 * n - 1, (n - 1) // 2, (n + 1) // 2,
            (1 << 64) - 1, 1 << 64, (1 << 64) + 1, (1 << 65) - 1, 1 << 63, 1 << 60, 1 << 61, 1 << 62, (1 << 128) - 1, 1 << 128,
            (1 << 67) | 1, (1 << 64) | 7, (0xF << 61), (0xB << 62), (0x9 << 63), (1 << bits) - 1, 1 << bits, 1 << (bits + 3), n * n]
    out = [r.choice(base) for _ in range(count // 2)]
    while len(out) < count:
        k = r.randrange(5)
        if k == 0:
            out.append(r.randrange(1 << r.randrange(1, bits + 2)))
        elif k == 1:    # sparse: long zero runs between windows
            v = 0
            for _ in range(r.randrange(1, 5)):
                v |= r.randrange(1, 16) << r.randrange(bits)
            out.append(v)
        elif k == 2:    # runs of ones
            a, b = sorted((r.randrange(bits + 1), r.randrange(bits + 1)))
            out.append((1 << b) - (1 << a))
        elif k == 3:    # windows across a digit boundary
            out.append((r.randrange(8, 16) << r.choice((60, 61, 62, 63, 124, 126, 127)) | r.randrange(16)))
        else:
            out.append(r.randrange(n))
    return out


def c06(ctx):
    r, mk = ctx.rng, Maker(ctx)
    for p in ctx.pick((5, 7), (5, 7, 11, 13)):
        ctx.mc("EccMC", EC_MODEL % (p, 30), label="EccMC(p=%d)" % p)
    ecc_self(ctx)
    # every pair of points and every small multiple on every curve over tiny fields
    sc = []
    fields = ctx.pick((5, 7, 11), (5, 7, 11, 13, 17, 19, 23))
    for p in fields:
        cs = ec_curves(p)
        if p > ctx.pick(7, 17):
            r.shuffle(cs)
            cs = cs[:ctx.pick(40, 150)]
        for a, b in cs:
            pts = ec_points(p, a, b)
            raw = b"".join(tri(P) for P in pts)
            s = mk.new()
            aa = a - p if r.randrange(2) else a          # a may be given as a negative number
            s.append(["ecaddtab", r.randrange(5), N(p), N(aa), N(b), raw])
            s.append(["ecmultab", r.randrange(2), N(p), N(aa), N(b), raw, r.choice((3 * len(pts), 40, 80))])
            s.append(["ecmultab", 2 + r.randrange(2), N(p), N(a), N(b), raw, 0])
            sc.append(s)
    if not conform(ctx, sc, ctx.pick(("std", "d8"), ("std", "d8", "d16", "alt8", "rel"))):
        return "model_checking"
    # mid-size fields: all primes up to 251 sampled, larger scalars
    sc = []
    for _ in range(ctx.pick(30, 200)):
        p = r.choice([q for q in range(29, 250) if is_prime(q)])
        a, b = r.choice(ec_curves(p)) if p < 60 else (r.randrange(p), r.randrange(1, p))
        if (4 * a ** 3 + 27 * b * b) % p == 0:
            continue
        pts = ec_points(p, a, b)
        sub = [None] + r.sample(pts[1:], min(6, len(pts) - 1)) + [P for P in pts[1:] if P[1] == 0][:2]
        sub += [(P[0], (-P[1]) % p) for P in sub[1:3]]
        raw = b"".join(tri(P) for P in sub)
        sc.append(mk.new() + [["ecaddtab", r.randrange(5), N(p), N(a), N(b), raw],
                              ["ecmultab", r.randrange(2), N(p), N(a), N(b), raw, 240]])
    # TLC's walks over slots: aliasing, special points, on small and large curves
    named = named_curves(ctx)
    small = [c for p in (17, 23, 31, 101) for c in prime_order_curves(p, 2, r)] + [(11, 1, 6, 2, 7, 13), (13, 0, 7, 7, 5, 7)]
    small += [with_order(r, p) for p in (65537, 4294967291, (1 << 61) - 1, (1 << 64) - 59, (1 << 64) + 13, (1 << 127) - 1)]
    for num, depth, curves, pn in ((ctx.pick(60, 600), 30, small, 40), (ctx.pick(14, 120), 12, named, 256)):
        pool = scalars(r, r.choice(curves)[5], 150) if pn == 256 else [r.choice((r.randrange(64), r.getrandbits(pn))) for _ in range(150)]
        for h in sim(ctx, "ec", num, depth, pool, curves):
            s = mk.new()
            for e in h:
                if e[0] == "ecgrp":
                    s.append(["ecgrp"] + [N(v) for v in curves[e[1] - 1]])
                elif e[0] == "ecmul":
                    s.append(e[:3] + [N(pool[e[3] - 1])])
                else:
                    s.append(e)
            sc.append(s)
    # the built-in curves: parameters, scalars with structure, points other than the generator
    for i, c in enumerate(named):
        n = c[5]
        s = mk.new() + [["ecload", i], ["ecgen", 1], ["ecmul", 2, 1, N(n)], ["ecmul", 2, 1, N(n - 1)], ["ecadd", 3, 1, 2], ["ecadd", 3, 2, 2]]
        sc.append(s)
        for _ in range(ctx.pick(2, 12)):
            s = mk.new() + [["ecload", i], ["ecgen", 1]]
            for k in scalars(r, n, ctx.pick(5, 12)):
                s.append(["ecmul", r.choice((2, 3)), 1, N(k)])
            s += [["ecadd", r.choice((1, 2, 3)), 2, 3], ["ecdbl", r.choice((2, 3)), 2], ["ecmul", 1, r.choice((2, 3)), N(r.choice(scalars(r, n, 4)))]]
            sc.append(s)
    # scalars far beyond any order
    for n in (255, 256, 257, 511, 513, 600, 1023, 1025, 2049, 2100):
        c = r.choice(small)
        s = mk.new() + [["ecgrp"] + [N(v) for v in c], ["ecgen", 1]]
        for k in (1 << (n - 1), (1 << n) - 1, r.getrandbits(n) | 1 << (n - 1)):
            s += [["ecmul", r.choice((2, 3)), 1, N(k)]]
        sc.append(s + [["ecadd", 1, 2, 3]])
    for i in (-1, 11, 12, 255, 1000):
        sc.append(mk.new() + [["ecload", i]])
    sc.append(mk.new() + [["ecinit", 1], ["ecinit", 2, 5, 7], ["ecinit", 3, 0, 1], ["ecswap", 1, 2], ["eccopy", 3, 1], ["eczero", 1]])
    conform(ctx, sc, ctx.pick(("std", "rel", "d8"), ("std", "rel", "d8", "d16", "d32", "alt64", "alt8", "asm64")))
    return "model_checking"


def with_order(r, p):
    """a curve over F_p with some point; the order is not needed by the group law"""
    while True:
        a, x, y = r.randrange(p), r.randrange(p), r.randrange(p)
        b = (y * y - x ** 3 - a * x) % p
        if (4 * a ** 3 + 27 * b * b) % p:
            return p, a, b, x, y, r.getrandbits(40) | 1


# ------------------------------------------------------------------ signatures ----
def digest_of(r, nbytes, k=None):
    """digests around the size of the order"""
    n = r.choice((0, 1, nbytes - 1, nbytes, nbytes, nbytes + 1, 16, 20, 28, 32, 48, 64)) if k is None else k
    return c_mpi.edge_bytes(r, max(0, n)) if n > 0 and r.randrange(2) else bytes(r.randrange(256) for _ in range(max(0, n)))


def altered(r, rr, ss, n, other=()):
    """pairs near a valid signature"""
    cand = [(rr, ss), (rr, n - ss), (n - rr, ss), (rr + n, ss), (rr, ss + n), (-rr, ss), (rr, -ss), (-rr, -ss), (0, ss), (rr, 0), (0, 0),
            (n, ss), (rr, n), (rr + 1, ss), (rr, ss + 1), (rr - 1, ss), (ss, rr), (rr ^ (1 << r.randrange(n.bit_length())), ss),
            (rr, ss ^ (1 << r.randrange(n.bit_length()))), (rr + 2 * n, ss), (rr, ss + (n << 64)), (rr - n, ss), (rr, ss - n),
            (1, ss), (rr, 1), (n - 1, ss), (rr, n - 1), (1, 1), (n, n), (rr * 2, ss), (rr << 64, ss), (rr >> 1, ss), (rr, ss >> 8)]
    return cand + list(other)


def flip(r, m):
    if not m:
        return b"\x01"
    i = r.randrange(len(m))
    return m[:i] + bytes([m[i] ^ 1 << r.randrange(8)]) + m[i + 1:]


def signatures(ctx, scens, variant="rel"):
    """phase one: let the library sign; [(scenario, [(message, r, s)])]"""
    out = []
    for s, evs in zip(scens, ctx.replay(variant, scens)):
        sigs = []
        for c, e in zip(s, evs):
            if c[0] in ("dsasign", "egsign2", "edsign") and e["op"] == c[0] and e["r"] and e["r"][0] == 0:
                sigs.append((c[1],) + tuple(int.from_bytes(bytes(v[1]), "little") for v in e["r"][1:3]))
        out.append((s, sigs))
    return out


SIG_MODEL = ('CONSTANT Scheme = "%s"\nSPECIFICATION Spec\nINVARIANTS OwnAccepted OwnInRange OutOfRangeRejected ForgedS Recover Shortcut\n'
             'CHECK_DEADLOCK FALSE\n')


def dsa_group(r, pbits, qbits):
    while True:
        q = rand_prime(r, qbits)
        for _ in range(400):
            k = r.getrandbits(pbits - qbits) | 1 << (pbits - qbits - 1)
            p = k * q + 1
            if is_prime(p):
                break
        else:
            continue
        while True:
            g = pow(r.randrange(2, p - 1), (p - 1) // q, p)
            if g != 1:
                return p, q, g


def tiny_dsa():
    out = []
    for p in range(5, 90):
        if is_prime(p):
            for q in range(3, 50):
                if is_prime(q) and (p - 1) % q == 0:
                    g = next(x for x in (pow(h, (p - 1) // q, p) for h in range(2, p)) if x != 1)
                    out.append((p, q, g))
    return out


def c07(ctx):
    r, mk = ctx.rng, Maker(ctx)
    for s in ("dsa", "elgamal"):
        ctx.mc("SigMC", SIG_MODEL % s, label="SigMC(%s)" % s)
    sc = []
    # DSA over tiny groups: signatures for every key and many digests, the verifier's whole table
    groups = tiny_dsa()
    for p, q, g in groups:
        xs = list(range(1, q))
        r.shuffle(xs)
        for x in xs[:ctx.pick(3, 12)]:
            s = mk.new() + [["dsakey", N(p), N(q), N(g), N(x), N(pow(g, x, p))]]
            for _ in range(ctx.pick(6, 20)):
                m = r.choice((b"", bytes([r.randrange(256)]), bytes(r.randrange(256) for _ in range(r.randrange(1, 5))), b"\0", b"\xff\xff"))
                s.append(["dsasign", m])
            # all nonces the source can suggest
            if q <= 31:
                for b in r.sample(range(256), 6):
                    s += [["rnd", bytes([b])], ["dsasign", bytes([r.randrange(256)])]]
            m = r.choice((b"", bytes([r.randrange(256)]), b"\x80\x01", bytes(r.randrange(256) for _ in range(3))))
            if q <= 13 or r.randrange(6) == 0:
                s.append(["dsatab", m, min(60, 2 * q + 1), min(60, 2 * q + 1)])
            sc.append(s)
    # large groups
    big_groups = [dsa_group(r, *sz) for sz in ctx.pick(((512, 160), (256, 100), (513, 157), (192, 127), (320, 129), (300, 190)),
                                                       ((512, 160), (768, 160), (1024, 160), (256, 100), (513, 157), (192, 127), (320, 129), (300, 190), (640, 224), (1024, 256)))]
    first = []
    for p, q, g in big_groups:
        for _ in range(ctx.pick(2, 6)):
            x = r.choice((1, q - 1, r.randrange(1, q), r.randrange(1, q)))
            s = mk.new() + [["dsakey", N(p), N(q), N(g), N(x), N(pow(g, x, p))]]
            nb = (q.bit_length() + 7) // 8
            for j in range(ctx.pick(6, 12)):
                s.append(["dsasign", digest_of(r, nb)])
            s.append(["dsasign", s[-1][1]])              # the same digest again
            first.append(s)
    second = []
    for s, sigs in signatures(ctx, first):
        p, q, g, x, y = (int(v) for v in s[1][1:])
        for m, rr, ss in sigs[:ctx.pick(3, 8)]:
            t = mk.new() + [s[1]]
            cand = altered(r, rr, ss, q)
            r.shuffle(cand)
            t.append(["dsaver", N(rr), N(ss), m])
            for a, b in cand[:ctx.pick(14, 33)]:
                t.append(["dsaver", N(a), N(b), m])
            t += [["dsaver", N(rr), N(ss), flip(r, m)], ["dsaver", N(rr), N(ss), m + b"\x01"], ["dsaver", N(rr), N(ss), m[:-1]]]
            # someone else's public key; the public key that makes anything pass if ranges go unchecked
            t += [["dsakey", N(p), N(q), N(g), N(x), N(pow(g, r.randrange(1, q), p))], ["dsaver", N(rr), N(ss), m]]
            t += [["dsakey", N(p), N(q), N(g), N(x), N(1)], ["dsaver", N(1), N(ss), m], ["dsaver", N(1), N(q), m], ["dsaver", N(0), N(0), m], ["dsaver", N(0), N(ss), m]]
            # a forgery without the private key for a digest of the forger's making: s = r / u2, z = u1 s
            u1, u2 = r.randrange(1, q), r.randrange(1, q)
            fr = pow(g, u1, p) * pow(y, u2, p) % p % q
            fs = fr * inv(u2, q) % q
            z = u1 * fs % q
            t.append(["dsakey", N(p), N(q), N(g), N(x), N(y)])
            zb = (z << (-q.bit_length() % 8)).to_bytes((q.bit_length() + 7) // 8, "big")
            t += [["dsaver", N(fr), N(fs), zb], ["dsaver", N(fr), N(fs), zb + b"\xaa\x55"], ["dsaver", N(fr + q), N(fs), zb]]
            second.append(t)
    # key generation
    kg = [mk.new(60) + [["dsakeygen", 0], ["dsasign", b"abc"], ["dsakeygen", l]] for l in ctx.pick((0,), (0, 1, 2, 4, 8))]
    kg += at_draws(ctx, [mk.new(60) + [["dsakeygen", 0]] for _ in range(ctx.pick(1, 3))], ctx.pick(3, 6),
                   lambda ev: [int(unbig(x)) - k for x in ev["s"][:2] for k in (0, 1)])
    # ElGamal
    sc += eg_tiny(ctx, r, mk)
    egf = []
    egg = []
    for bits in ctx.pick((64, 65, 128, 255, 256), (64, 65, 128, 129, 255, 256, 512)):
        for _ in range(2):
            while True:
                q = rand_prime(r, bits - 1)
                if is_prime(2 * q + 1):
                    break
            p = 2 * q + 1
            g = next(h for h in (r.randrange(2, p - 1) for _ in range(99)) if pow(h, q, p) != 1)
            egg.append((p, g, p - 1))
    for bits in ctx.pick((96, 160), (96, 160, 320)):        # p - 1 with many divisors
        while True:
            p = 1
            k = r.getrandbits(bits) * 2 * 3 * 5 * 7 * 11 * 13
            p = k + 1
            if is_prime(p):
                break
        egg.append((p, r.randrange(2, p - 1), p - 1))
    for p, g, n in egg:
        x = r.choice((1, p - 2, r.randrange(1, p - 1), r.randrange(1, p - 1)))
        s = mk.new() + [["egkey", N(p), N(g), N(pow(g, x, p)), N(x)]]
        nb = (p.bit_length() + 7) // 8
        for _ in range(ctx.pick(5, 10)):
            m = digest_of(r, nb, r.choice((0, 1, nb // 2, nb - 1, nb, nb, nb + 1)))
            s += [["egsign2", m], ["egsign", m, nb]]
        s.append(["egsign2", b"x" * (nb - 1)])
        s.append(["egsign2", b"x" * (nb - 1)])
        egf.append(s)
    for s, sigs in signatures(ctx, egf):
        p, g, y, x = (int(v) for v in s[1][1:])
        nb = (p.bit_length() + 7) // 8
        for m, rr, ss in sigs[:ctx.pick(3, 8)]:
            t = mk.new() + [s[1]]
            # Bleichenbacher's forgery: a valid (r, s) moved to another digest with r beyond p
            cand = altered(r, rr, ss, p - 1, [(rr + p, ss), (rr, ss + p), (p - 1, ss), (p, ss), (rr, p - 1), (rr, p - 2), (rr + p * (p - 1), ss)])
            z = int.from_bytes(m, "big")
            z2 = r.randrange(p - 1)
            if math.gcd(z, p - 1) == 1:
                u = z2 * inv(z, p - 1) % (p - 1)
                s2 = ss * u % (p - 1)
                r2 = None
                a, b = rr * u % (p - 1), rr % p
                k = (b - a) * inv((p - 1) % p, p) % p
                r2 = a + (p - 1) * k
                cand2 = [["egver2", N(r2), N(s2), z2.to_bytes(nb, "big")]]
            else:
                cand2 = []
            r.shuffle(cand)
            t.append(["egver2", N(rr), N(ss), m])
            for a, b in cand[:ctx.pick(14, 40)]:
                t.append(["egver2", N(a), N(b), m])
                if a >= 0 and b >= 0 and max(a, b).bit_length() <= 8 * nb and r.randrange(2):
                    t.append(["egver", a.to_bytes(nb, "big") + b.to_bytes(nb, "big"), m])
            t += cand2
            t += [["egver2", N(rr), N(ss), flip(r, m)], ["egver2", N(rr), N(ss), b"\0" + m], ["egver2", N(rr), N(ss), m + b"\0"],
                  ["egver2", N(rr), N(ss), b"\0" * (nb + 1 - len(m)) + m]]
            t.append(["egver", rr.to_bytes(nb, "big") + ss.to_bytes(nb, "big"), m])
            # existential forgery: r = g^u y^v, s = -r / v, z = u s
            n = p - 1
            v = next(w for w in (r.randrange(1, n) for _ in range(999)) if math.gcd(w, n) == 1)
            u = r.randrange(1, n)
            fr = pow(g, u, p) * pow(y, v, p) % p
            fs = -fr * inv(v, n) % n
            t.append(["egver2", N(fr), N(fs), (u * fs % n).to_bytes(nb, "big")])
            t.append(["egver2", N(fr + p), N(fs), (u * fs % n).to_bytes(nb, "big")])
            second.append(t)
    conform(ctx, sc + first + egf + second + kg, ctx.pick(("std", "rel"), ("std", "rel", "d32", "alt64")))
    if not ctx.violations:
        conform(ctx, sc[::ctx.pick(3, 1)], ("d8",))
    return "model_checking"


def eg_tiny(ctx, r, mk):
    sc = []
    for p in [q for q in range(5, 60) if is_prime(q)]:
        gens = [g for g in range(2, p) if all(pow(g, (p - 1) // f, p) != 1 for f in range(2, p) if (p - 1) % f == 0 and is_prime(f))]
        for _ in range(ctx.pick(2, 8)):
            g, x = r.choice(gens), r.randrange(1, p - 1)
            s = mk.new() + [["egkey", N(p), N(g), N(pow(g, x, p)), N(x)]]
            for _ in range(ctx.pick(6, 20)):
                m = r.choice((b"", bytes([r.randrange(256)]), bytes([r.randrange(256)]), b"\0", b"ab"))
                s.append(["egsign2", m])
                if r.randrange(3) == 0:
                    s.append(["egsign", m, 1])
            if p <= 17 or r.randrange(5) == 0:
                s.append(["egtab", r.choice((b"", bytes([r.randrange(256)]))), min(70, 2 * p), min(70, 2 * p)])
            sc.append(s)
    return sc


# ------------------------------------------------------------------ C08 ----
def c08(ctx):
    r, mk = ctx.rng, Maker(ctx)
    ctx.mc("SigMC", SIG_MODEL % "ecdsa", label="SigMC(ecdsa)")
    ecc_self(ctx)
    sc = []
    curves = [c for p in ctx.pick((5, 7, 11, 13, 17, 23, 29), (5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43)) for c in prime_order_curves(p, ctx.pick(3, 8), r)]
    for c in curves:
        n = c[5]
        ds = list(range(1, n))
        r.shuffle(ds)
        for d in ds[:ctx.pick(2, 8)]:
            Q = ec_mul(c, d, (c[3], c[4]))
            s = mk.new() + [["edcust"] + [N(v) for v in c], ["edset", N(d), 0, N(Q[0]), N(Q[1])]]
            for _ in range(ctx.pick(6, 20)):
                s.append(["edsign", r.choice((b"", bytes([r.randrange(256)]), bytes([r.randrange(256)]), bytes([r.randrange(256), 7]), b"\xff" * 4))])
            for b in r.sample(range(256), 4):
                s += [["rnd", bytes([b])], ["edsign", bytes([r.randrange(256)])]]
            s += [["rnd", bytes([0])], ["edkeygen"], ["edsign", b"q"], ["rnd", bytes([n])], ["edkeygen"], ["edkeygen"], ["edsign", b"zz"]]
            sc.append(s)
        for _ in range(ctx.pick(1, 3)):
            d = r.randrange(1, n)
            Q = ec_mul(c, d, (c[3], c[4]))
            m = r.choice((b"", bytes([r.randrange(256)]), bytes([r.randrange(256), r.randrange(256)])))
            s = mk.new() + [["edcust"] + [N(v) for v in c], ["edset", N(d), 0, N(Q[0]), N(Q[1])], ["edtab", m, min(n + c[0], 40), min(2 * n, 40)]]
            sc.append(s)
    named = named_curves(ctx)
    first = []
    ids = list(range(11))
    # a middle-size prime-order curve is not at hand; the named ones cover 192..521 bits
    for i in ids:
        c = named[i]
        n = c[5]
        for _ in range(ctx.pick(1, 4)):
            nb = (n.bit_length() + 7) // 8
            s = mk.new(60) + [["edload", i], ["edkeygen"]]
            ms = [digest_of(r, nb, k) for k in r.sample((0, 1, 20, nb - 1, nb, nb + 1, 64), ctx.pick(3, 6))]
            s += [["edsign", m] for m in ms] + [["edsign", ms[0]]]
            first.append(s)
    second = []
    for s, evs in zip(first, ctx.replay("rel", first, per=1)):
        if evs[-1]["op"] == "CRASH":
            continue
        i = s[1][1]
        c = named[i]
        n = c[5]
        st = evs[-1]["s"]
        d, q = int(unbig(st[6])), (int(unbig(st[8])), int(unbig(st[9])))
        sigs = [(cc[1],) + tuple(int(unbig(v)) for v in e["r"][1:3]) for cc, e in zip(s, evs) if cc[0] == "edsign" and e["r"][0] == 0]
        if not sigs:
            continue
        key = [["edload", i], ["edset", N(d), 0, N(q[0]), N(q[1])]]
        nver = ctx.pick(8, 33)
        m, rr, ss = sigs[0] if len(sigs[0][0]) else sigs[1]
        t = mk.new(60) + key + [["edver", N(rr), N(ss), m]]
        cand = altered(r, rr, ss, n, [(rr + c[0] - n, ss), (rr, ss + c[0])])
        r.shuffle(cand)
        t += [["edver", N(a), N(b), m] for a, b in cand[:nver]]
        t += [["edver", N(rr), N(ss), flip(r, m)], ["edver", N(rr), N(ss), m + b"\x07"]]
        # another key, the key at infinity, the opposite key
        o = ec_mul(c, r.randrange(1, n), (c[3], c[4]))
        t += [["edset", N(d), 0, N(o[0]), N(o[1])], ["edver", N(rr), N(ss), m], ["edset", N(d), 0, N(q[0]), N(c[0] - q[1])], ["edver", N(rr), N(ss), m]]
        # u1 G + u2 Q at infinity: z = -r d
        t += key[1:]
        sr = r.randrange(1, n)
        z = -sr * d % n
        zb = (z << (-n.bit_length() % 8)).to_bytes((n.bit_length() + 7) // 8, "big")
        t += [["edver", N(sr), N(r.randrange(1, n)), zb], ["edver", N(1), N(5), ((-d % n) << (-n.bit_length() % 8)).to_bytes((n.bit_length() + 7) // 8, "big")]]
        # a forgery with a digest of the forger's choice is valid
        u1, u2 = r.randrange(1, n), r.randrange(1, n)
        X = ec_add(c, ec_mul(c, u1, (c[3], c[4])), ec_mul(c, u2, q))
        fr = X[0] % n
        fs = fr * inv(u2, n) % n
        fz = ((u1 * fs % n) << (-n.bit_length() % 8)).to_bytes((n.bit_length() + 7) // 8, "big")
        t += [["edver", N(fr), N(fs), fz], ["edver", N(fr), N(fs), fz + b"\x99"], ["edver", N(fr), N(n - fs), fz]]
        second.append(t)
    for i in (-7, 11, 99):
        sc.append(mk.new() + [["edload", i]])
    light = [i for i, t in enumerate(second) if named[t[1][1]][5].bit_length() <= ctx.pick(256, 521)]
    pick = r.sample(light, min(len(light), ctx.pick(3, 11)))
    conform(ctx, sc + [x[i] for x in (first, second) for i in pick], ("std",))
    conform(ctx, sc + first + second, ctx.pick(("rel",), ("rel", "d32", "alt64", "d8")))
    return "model_checking"


# ------------------------------------------------------------------ C09 ----
def rsa_key(r, bits, e=None):
    small = [x for x in range(2, 1 << 8) if is_prime(x)]
    while True:
        if bits <= 16:      # few candidates: any two primes
            p, q = r.choice(small), r.choice(small)
        else:
            p, q = rand_prime(r, bits // 2), rand_prime(r, bits - bits // 2)
        n = p * q
        if p == q or n.bit_length() != bits:
            continue
        l = (p - 1) * (q - 1) // math.gcd(p - 1, q - 1)
        ee = (e if bits > 16 else None) or r.choice((3, 5, 7, 17, 257, 65537))
        if math.gcd(ee, l) == 1 and ee < l:
            return n, ee, inv(ee, l), p, q


def c09(ctx):
    r, mk = ctx.rng, Maker(ctx)
    ctx.mc("RsaMC", "CONSTANTS MaxPrime = %d\nBlkLen = 3\nMinPs = 1\nSPECIFICATION Spec\nINVARIANTS Inverts Verifies Binds Partial\n"
           "CHECK_DEADLOCK FALSE\n" % ctx.pick(19, 31), label="RsaMC(keys)")
    ctx.mc("RsaMC", "CONSTANTS MaxPrime = 3\nBlkLen = %d\nMinPs = %d\nSPECIFICATION FmtSpec\nINVARIANT Format\n"
           "CHECK_DEADLOCK FALSE\n" % ctx.pick((8, 3), (9, 4)), label="RsaMC(block format)")
    sc = []
    # no padding, tiny keys: every byte, and multi-block messages
    for _ in range(ctx.pick(20, 120)):
        n, e, d, p, q = rsa_key(r, r.choice((6, 7, 8, 9, 10, 15, 16, 17, 24, 31)), r.choice((3, 5, 7)))
        s = mk.new() + [["rsakey", 0, N(n), N(e), N(d)]]
        for _ in range(10):
            m = bytes(r.choice((0, 1, r.randrange(256), r.randrange(128))) for _ in range(r.choice((1, 1, 2, 3, 4, 5, 7))))
            s += [["rsaenc", m], ["rsasign", m], ["rsadec", m]]
        s += [["rsaenc", b""], ["rsasign", b""], ["rsadec", b""], ["rsaver", b"", b""]]
        sc.append(s)
    keys = [rsa_key(r, b) for b in ctx.pick((80, 88, 89, 95, 96, 97, 104, 120, 128, 127, 129, 161, 200, 256, 257, 384, 512),
                                            (64, 80, 87, 88, 89, 95, 96, 97, 103, 104, 120, 128, 127, 129, 130, 161, 200, 255, 256, 257, 384, 511, 512, 513, 768, 1024))]
    first = []
    for n, e, d, p, q in keys:
        k = (n.bit_length() + 7) // 8
        for pad in (0, 1):
            room = k - 11 if pad else k
            s = mk.new(60) + [["rsakey", pad, N(n), N(e), N(d)]]
            lens = {0, 1, 2, max(0, room - 1), max(room, 0), max(room + 1, 0), 2 * max(room, 0), 2 * max(room, 1) + 1, 3 * max(room, 1) - 1}
            if room > 200:
                lens = {1, room - 1, room, room + 1}
            for ln in sorted(lens):
                for m in (bytes(r.choice((0, 1, 2, 255, r.randrange(256))) for _ in range(ln)), b"\0" * ln, bytes([r.randrange(128)] * ln)):
                    if pad == 0 and ln:
                        m = bytes(b if i % k else b & r.choice((0x7f, 0x3f, 0xff)) for i, b in enumerate(m))
                    if r.randrange(ctx.pick(2, 1)) == 0 or ln in (1, room):
                        s += [["rsaenc", m], ["rsasign", m]]
                    if n.bit_length() > 500:
                        break
            if r.randrange(2):
                m = b"again"[:max(1, room)]
                s += [["rsaenc", m], ["rsaenc", m], ["rnd", b"\0\0\0\1\0" * 40], ["rsaenc", m], ["rsaenc", m]]
            first.append(s)
    second = []
    for s, evs in zip(first, ctx.replay("rel", first)):
        pad, n, e, d = s[1][1], int(s[1][2]), int(s[1][3]), int(s[1][4])
        k = (n.bit_length() + 7) // 8
        items = [(c[0], c[1], bytes(ev["r"][2])) for c, ev in zip(s, evs) if c[0] in ("rsaenc", "rsasign") and ev["op"] == c[0] and ev["r"][0] == 0]
        t = mk.new(60) + [s[1]]
        r.shuffle(items)
        for op, m, o in items[:ctx.pick(8, 20)]:
            if op == "rsaenc":
                t.append(["rsadec", o])
                t.append(["rsadec", flip(r, o)])
                t += [["rsadec", o[:-1]], ["rsadec", o + b"\0"], ["rsadec", o + o[:k]], ["rsadec", o[k:]]][:ctx.pick(2, 4)]
                c0 = int.from_bytes(o[:k], "big")
                if (c0 + n).bit_length() <= 8 * k:
                    t.append(["rsadec", (c0 + n).to_bytes(k, "big") + o[k:]])
            else:
                t.append(["rsaver", o, m])
                t += [["rsaver", flip(r, o), m], ["rsaver", o, flip(r, m)], ["rsaver", o, m[:-1]], ["rsaver", o, m + b"\0"],
                      ["rsaver", o, m + b"\0" * k], ["rsaver", o[:-1], m], ["rsaver", o + o[:k], m], ["rsaver", o[k:], m],
                      ["rsaver", o, b""], ["rsaver", o, m[:len(m) // 2]], ["rsaver", o, m + b"\x01"], ["rsaver", b"", m]]
                c0 = int.from_bytes(o[:k], "big")
                if (c0 + n).bit_length() <= 8 * k:
                    t.append(["rsaver", (c0 + n).to_bytes(k, "big") + o[k:], m])
        if pad:
            t += malformed(ctx, r, n, e, d, k)
        else:
            t += [["rsaenc", n.to_bytes(k, "big")], ["rsaenc", (n - 1).to_bytes(k, "big")], ["rsaenc", b"\xff" * k], ["rsadec", n.to_bytes(k, "big")],
                  ["rsadec", (n - 1).to_bytes(k, "big")], ["rsasign", n.to_bytes(k, "big")], ["rsadec", b"\0" * k], ["rsadec", b"\xff" * k],
                  ["rsaver", b"\0" * k, b"\0"], ["rsaver", b"\0" * k, b"\0" * k], ["rsaver", b"\0" * (2 * k), b"\0"]]
        second.append(t)
    kg = []
    rare = []
    for bits in ctx.pick((16, 20, 31, 32, 33, 48, 64, 80, 128, 129, 256, 384, 512), (16, 17, 20, 24, 31, 32, 33, 40, 48, 64, 80, 112, 128, 129, 192, 255, 256, 257, 384, 511, 512, 768, 1024)):
        for e in (3, 17, 65537, 0):
            if bits > 300 and e in (3, 17) or bits < 32 and e == 65537:
                continue
            m = b"\x07\x21"[:max(1, bits // 8 - 1)]
            if bits % 16:
                kg.append(mk.new() + [["rsakeygen", 0, bits, e]])
                continue
            kg.append(mk.new(100) + [["rsakeygen", 0, bits, e], ["rsasign", m], ["rsaenc", m], ["rsakeygen", 1, bits, e]])
            if bits <= ctx.pick(64, 256):
                rare.append(mk.new(60) + [["rsakeygen", 0, bits, e]])
    kg += at_draws(ctx, rare, ctx.pick(8, 30), lambda ev: [int(unbig(x)) for x in ev["r"][1:3]])
    conform(ctx, sc + first + second + kg, ctx.pick(("std", "rel"), ("std", "rel", "d32", "alt64")))
    if not ctx.violations:
        conform(ctx, sc + second[:ctx.pick(20, 60)], ("d8",))
    return "model_checking"


def malformed(ctx, r, n, e, d, k):
    """ciphertexts and signatures whose blocks are near misses of the v1.5 format"""
    out = []
    if k < 12:
        return [["rsadec", b"\x01" * k], ["rsaver", b"\x01" * k, b""], ["rsadec", b"\0" * k]]
    for bt in (1, 2):
        def blk(h, ps, rest):
            return bytes(h) + bytes(ps) + bytes(rest)

        def ps(ln):
            return [255] * ln if bt == 1 else [r.randrange(1, 256) for _ in range(ln)]
        full = k - 2
        cases = []
        for np in (0, 1, 6, 7, 8, 9, k - 4, k - 3, k - 2):
            if np < 0 or np > full:
                continue
            body = ps(np)
            rest = ([0] + [r.randrange(256) for _ in range(full - np - 1)]) if np < full else []
            cases.append(blk((0, bt), body, rest))
        good = blk((0, bt), ps(k - 3 - 1), [0, 0x41])
        cases += [good, blk((0, 3 - bt), good[2:], []), blk((0, 0), good[2:], []), blk((1, bt), good[2:], []), blk((0, bt ^ 0x80), good[2:], []),
                  blk((0, 3), good[2:], []), bytes(k), bytes([0, bt]) + bytes(k - 2)]
        if bt == 1:
            for pos in (2, 9, 10, k - 4):
                if 2 <= pos < k - 2:
                    g = bytearray(good)
                    g[pos] = r.choice((254, 1, 0x7f))
                    cases.append(bytes(g))
        else:
            for pos in (2, 9, 10, k - 4):       # an early zero: more data, less padding
                if 2 <= pos < k - 2:
                    g = bytearray(good)
                    g[pos] = 0
                    cases.append(bytes(g))
        r.shuffle(cases)
        for em in cases[:ctx.pick(14, 40)]:
            v = int.from_bytes(em, "big")
            if v >= n:
                continue
            if bt == 2:
                c = pow(v, e, n).to_bytes(k, "big")
                out.append(["rsadec", c])
            else:
                c = pow(v, d, n).to_bytes(k, "big")
                z = em.find(b"\0", 2)
                m = em[z + 1:] if z >= 0 else b""
                out += [["rsaver", c, m], ["rsaver", c, b"\x41"]]
            if r.randrange(4) == 0:         # a bad block behind a good one
                gv = pow(int.from_bytes(good, "big"), e if bt == 2 else d, n).to_bytes(k, "big")
                out.append(["rsadec", gv + c] if bt == 2 else ["rsaver", gv + c, b"\x41" + (m if z >= 0 else b"")])
    return out


# ------------------------------------------------------------------ C10 ----
def c10(ctx):
    r, mk = ctx.rng, Maker(ctx)
    for k in ("dh", "ecdh"):
        ctx.mc("DhMC", 'CONSTANT Kind = "%s"\nSPECIFICATION Spec\nINVARIANT Same\nVIEW View\nCHECK_DEADLOCK FALSE\n' % k, label="DhMC(%s)" % k)
    ecc_self(ctx)
    sc = []
    named = named_curves(ctx)
    curves = [c for p in (17, 23, 31, 101) for c in prime_order_curves(p, 2, r)] + [named[2], named[7], named[0]]
    # histories from the specification
    pool = [abs(c_mpi.number(r, 32)) for _ in range(200)] + list(range(20))
    for h in sim(ctx, "dh", ctx.pick(150, 1500), 24, pool, curves):
        s = mk.new()
        for e in h:
            if e[0] == "dhinit":
                s.append(["dhinit", e[1], unbig(e[2]), unbig(e[3]), N(pool[e[4] - 1])])
            elif e[0] == "dhsettok":
                s.append(["dhsettok", e[1], bytes(e[2])])
            else:
                s.append(e)
        sc.append(s)
    pool2 = [r.choice((r.randrange(40), r.getrandbits(64), r.getrandbits(130))) for _ in range(100)]
    for h in sim(ctx, "edh", ctx.pick(40, 400), 14, pool2, curves):
        s = mk.new()
        for e in h:
            s.append(["edhcust", e[1]] + [unbig(v) for v in e[2:8]] + [N(pool2[e[8] - 1])] if e[0] == "edhcust" else e)
        sc.append(s)
    # the exchange itself, all sizes; all secrets of small groups
    for bits in ctx.pick((3, 4, 5, 6, 8, 16, 63, 64, 65, 128, 129, 256, 512), (3, 4, 5, 6, 7, 8, 9, 16, 31, 32, 33, 63, 64, 65, 128, 129, 192, 256, 512, 768, 1024)):
        for _ in range(ctx.pick(4, 12)):
            p = rand_prime(r, bits)
            g = r.randrange(1, p)
            nb = (p.bit_length() + 7) // 8
            a, b = (r.choice((0, 1, 2, p - 2, p - 1, p, p + 1, r.randrange(p), r.getrandbits(2 * bits))) for _ in range(2))
            s = mk.new() + [["dhinit", 1, N(p), N(g), N(a)], ["dhinit", 2, N(p), N(g), N(b)]]
            steps = [["dhagree", 1], ["dhagree", 2]]
            r.shuffle(steps)
            s += steps
            # each sends its token, then receives the other's
            ta, tb = pow(g, a, p), pow(g, b, p)
            s += [["dhgettok", 1, nb], ["dhgettok", 2, nb], ["dhgettok", 1, nb + r.randrange(4)]]
            s += [["dhsettok", 1, tb.to_bytes(nb, "big")], ["dhsettok", 2, ta.to_bytes(nb + r.randrange(3), "big")]]
            steps = [["dhfinal", 1], ["dhfinal", 2]]
            r.shuffle(steps)
            s += steps
            sec = pow(g, a * b, p)
            sl = (sec.bit_length() + 7) // 8
            s += [["dhgetsec", i, ln] for i in (1, 2) for ln in (nb, sl, max(0, sl - 1), sl + 1, nb + 9)]
            sc.append(s)
    for i, c in enumerate(named):
        n = c[5]
        for _ in range(ctx.pick(1, 5)):
            a, b = (r.choice((1, 2, n - 1, n - 2, r.randrange(1, n), r.randrange(1, n), r.getrandbits(64))) for _ in range(2))
            s = mk.new(60) + [["edhload", 1, i, N(a)], ["edhload", 2, i, N(b)], ["edhagree", 1], ["edhagree", 2], ["edhswap"], ["edhfinal", 2], ["edhfinal", 1]]
            sc.append(s)
    conform(ctx, sc, ctx.pick(("std", "rel", "d8"), ("std", "rel", "d8", "d16", "d32", "alt64")))
    return "model_checking"


# ---------------------------------------- several contexts at once (C28) ----
def interleaved(ctx, num, steps):
    """every scheme's context alive at once, used, cleared and keyed again in any order"""
    r = ctx.rng
    named = named_curves(ctx)
    p, q, g = dsa_group(r, 192, 100)
    egp = c_mpi.rand_prime(r, 96)
    rk = [rsa_key(r, 160, 17)[:3] for _ in range(2)]
    dhp = c_mpi.rand_prime(r, 128)
    small = [(101,) + x[1:] for x in prime_order_curves(101, 3, r)]

    def msg():
        return bytes(r.randrange(256) for _ in range(r.choice((1, 8, 11))))

    def key(k, i):
        if k == "dsa":
            x = r.randrange(1, q)
            return ["dsakey", N(p), N(q), N(g), N(x), N(pow(g, x, p))], x
        if k == "elgamal":
            x = r.randrange(2, egp - 1)
            return ["egkey", N(egp), N(3), N(pow(3, x, egp)), N(x)], x
        if k == "rsa":
            n, e, d = r.choice(rk)
            return ["rsakey", r.randrange(2), N(n), N(e), N(d)], (n, e, d)
        if k == "dh":
            return ["dhinit", i, N(dhp), N(r.choice((2, 5))), N(r.randrange(1, dhp))], 0
        cv = r.choice(small + named[:1])
        if k == "ecdsa":
            return ["edcust"] + [N(v) for v in cv], cv
        return ["edhcust", i] + [N(v) for v in cv] + [N(r.randrange(1, cv[5]))], cv

    scens = []
    for _ in range(num):
        s, on = [["new", 60, r.getrandbits(30)]], {}
        for _ in range(steps):
            k, i = r.choice(("dsa", "elgamal", "ecdsa", "rsa", "dh", "ecdh", "dh", "ecdh")), 1
            if k in ("dh", "ecdh"):
                i = r.randrange(1, 3)
            if (k, i) not in on:
                c, v = key(k, i)
                s.append(c)
                on[k, i] = v
                if k == "ecdsa":
                    if r.randrange(3):
                        d = r.randrange(1, v[5])
                        Q = ec_mul(v, d, (v[3], v[4]))
                        s.append(["edset", N(d), 0, N(Q[0]), N(Q[1])])
                    else:
                        s.append(["edkeygen"])
            elif not r.randrange(4):
                s.append(["pkclear", k] + ([i] if k in ("dh", "ecdh") else []))
                del on[k, i]
            elif k == "dsa":
                s.append(r.choice((["dsasign", msg()], ["dsaver", N(r.randrange(1, q)), N(r.randrange(1, q)), msg()])))
            elif k == "elgamal":
                s.append(r.choice((["egsign2", msg()], ["egver2", N(r.randrange(1, egp)), N(r.randrange(1, egp)), msg()])))
            elif k == "ecdsa":
                if on[k, i][5] < 1000:      # signing may rightly give up in a tiny group
                    s.append(["edver", N(r.randrange(on[k, i][5] + 1)), N(r.randrange(on[k, i][5] + 1)), msg()])
                else:
                    s.append(["edsign", msg()])
            elif k == "rsa":
                s.append(r.choice((["rsasign", msg()], ["rsaenc", msg()])))
            elif k == "dh":
                s.append(r.choice((["dhagree", i], ["dhfinal", i], ["dhsettok", i, msg()])))
            else:
                s.append(r.choice((["edhagree", i], ["edhfinal", i])))
        scens.append(s)
    return scens


TABLE = {"C06": c06, "C07": c07, "C08": c08, "C09": c09, "C10": c10}
