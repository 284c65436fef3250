"""C27: every allocation fails in turn."""
import os

import c_mpi
import c_pk
import c_sym
from vf import N

MPI_CFG = "CONSTANT NReg = 4\nSPECIFICATION FaultSpec\nPOSTCONDITION Accepted\nCHECK_DEADLOCK FALSE\n"
PK_CFG = "SPECIFICATION FaultSpec\nPOSTCONDITION Accepted\nCHECK_DEADLOCK FALSE\n"


def outputs(op):
    """registers a call may leave undefined when it fails"""
    if op[0] in ("bin", "un", "init"):
        return [op[2]]
    if op[0] in ("div", "divabs"):
        return [x for x in op[1:3] if x]
    if op[0] in ("cmp", "cmpabs", "info", "getint", "storebin", "storestr", "print", "isprime", "swap"):
        return []
    return [op[1]]


def count(ctx, variant, cases):
    """allocations each call makes when none fails, and the first and the last one from each chain of callers:
    the case is (set-up, call)"""
    scens = [setup + [["sites", 1], ["fail", 0], call, ["faults"], ["sites"]] for setup, call in cases]
    out = []
    for s, e in zip(scens, ctx.replay(variant, scens)):
        if e[-1]["op"] != "sites":
            out.append((1, []))
            continue
        v = e[-1]["r"]
        out.append((e[-2]["r"][1], [(v[i], v[i + 1]) for i in range(0, len(v), 2)]))
    return out


def points(r, n, sites, most):
    """which allocation fails: all of them, or the first from every place, as many of the last, and some others"""
    if n <= most:
        return list(range(1, n + 1))
    sites = [x for x in sites]
    r.shuffle(sites)
    ks = {a for a, _ in sites[:most]} | {b for _, b in sites[:most // 3]} | {1, n}
    for _ in range(most // 4):
        ks.add(r.randrange(1, n + 1))
    return sorted(ks)


def scan(ctx, module, cfg, variant, cases, most, tail):
    """one scenario per failing allocation: set up, failing call, the same call again, everything given back"""
    counts = count(ctx, variant, cases)
    scens = []
    for (setup, call), (n, sites) in zip(cases, counts):
        for k in points(ctx.rng, n, sites, most):
            scens.append(setup + [["fail", k], call, ["faults"]] + tail(call) + [["giveback"]])
    ctx.extra["calls"] = ctx.extra.get("calls", 0) + len(cases)
    ctx.extra["failing_allocations"] = ctx.extra.get("failing_allocations", 0) + len(scens)
    evs = ctx.replay(variant, scens)
    ctx.validate(module, scens, evs, variant, cfg=cfg)
    ctx.log("%s: %d calls, %d failing allocations (variant %s)" % (module, len(cases), len(scens), variant))


def mpi_cases(ctx):
    r = ctx.rng
    out = []

    def num(nb):
        return int.from_bytes(bytes([r.randrange(1, 256)]) + bytes(r.randrange(256) for _ in range(nb - 1)), "big") * r.choice((1, 1, -1)) if nb else 0

    def case(call, *vals):
        s = [["new", 20, r.getrandbits(30)]]
        for i, v in enumerate(vals):
            s.append(["mset", i + 1, N(v), r.choice((0, 0, 0, 2, 9))])
        out.append((s, call))
    sizes = ctx.pick((1, 8, 24, 100, 300), (0, 1, 7, 8, 9, 16, 24, 63, 64, 100, 300))
    for op in ("add", "sub", "mul", "add_abs", "mul_abs", "mul_baseline", "mul_comba"):
        for nb in sizes:
            for d in ctx.pick((3, r.choice((1, 2))), (3, 1, 2)):
                case(["bin", op, d, 1, r.choice((2, 2, 1))], num(nb), num(r.choice(sizes)), num(r.choice((0, 1))))
    for nb in (8, 24, 100):
        case(["bin", "sub_abs", 3, 1, 2], num(nb) * 256, num(nb), 1)
    for op, nb in (("mul_karatsuba", 600), ("mul_karatsuba", 40), ("mul_toom3", 40), ("mul_toom3", 2500), ("mul", 600), ("mul", 2500)):
        for d in (3, 1):
            case(["bin", op, d, 1, 2], num(nb), num(nb + r.randrange(9)), 0)
    for op in ("gcd", "lcm"):
        for nb in (1, 8, 16, 40):
            case(["bin", op, r.choice((3, 1, 2)), 1, 2], num(nb), num(r.choice((1, 9, 20))), 0)
    for nb in (1, 8, 20, 33):
        m = abs(num(nb)) | 1
        a = m + 2 if nb > 1 else 1
        case(["bin", "inv", 3, 1, 2], a, max(m, 3), 0)
        case(["bin", "inv", 1, 1, 2], a, max(m, 3), 0)
        case(["bin", "inv", 3, 1, 2], num(nb) * 2, abs(num(nb)) * 2 + 2, 0)
    case(["bin", "exp", 3, 1, 2], num(5), 11, 0)
    case(["bin", "exp", 1, 1, 2], num(9), 6, 0)
    for op in ("abs", "copy", "sqr", "sqr_baseline", "sqr_comba", "sqrt"):
        for nb in (0, 1, 9, 40, 200):
            v = num(nb)
            case(["un", op, r.choice((3, 1)), 1], abs(v) if op == "sqrt" else v, 0, r.choice((0, 1)))
    for nb in (60, 600, 900):
        case(["un", "sqr_karatsuba", r.choice((3, 1)), 1], num(nb), 0, 0)
        case(["un", "sqr", r.choice((3, 1)), 1], num(nb), 0, 0)
    for nb in (1, 9, 40):
        case(["muldig", r.choice((3, 1)), 1, r.randrange(1, 256)], num(nb), 0, 0)
    for a, b in ((40, 9), (9, 40), (300, 100), (1, 1), (16, 8), (0, 8), (24, 24)):
        for q, rem in ((3, 4), (1, 2), (2, 1), (3, 0), (0, 4)):
            case([r.choice(("div", "div", "divabs")), q, rem, 1, 2], num(a), num(b), 0, 0)
        case(["mod", r.choice((1, 2, 3)), 1, 2], num(a), num(b), 0)
    case(["div", 3, 4, 1, 2], num(8), 0, 0, 0)
    for nb in (1, 8, 20):
        case(["modexp", r.choice((4, 1)), 1, 2, 3], num(nb), abs(num(r.choice((1, 2)))), abs(num(nb)) | 1, 0)
        case(["modexp", 4, 1, 2, 3], num(nb), abs(num(2)), abs(num(nb)) * 2, 0)
    for n in (0, 1, 8, 63, 64, 65, 700):
        case(["shl", r.choice((3, 1)), 1, n], num(9), 0, 0)
        case(["shr", r.choice((3, 1)), 1, n], num(90), 0, 0)
    case(["setint", 1, N(1 << 62)], 0)
    case(["setint", 1, N(-77)], num(3))
    for nb in (0, 1, 8, 33, 300):
        b = bytes(r.randrange(256) for _ in range(nb))
        case(["loadbin", 1, b], num(1))
        case(["init", "bin", 2, b], num(1), num(1))
    for rad in (2, 10, 16):
        t = "".join(r.choice("01") for _ in range(150)).encode()
        case(["loadstr", 1, rad, t], num(1))
        case(["init", "str", 2, rad, b"-" + t], num(1), num(2))
        case(["loadstr", 1, rad, t + b"!"], num(1))
        for nb in (0, 1, 30):
            case(["storestr", 1, rad, 8 * nb + 3], num(nb))
            case(["print", 1, rad], num(nb))
    case(["init", "plain", 2], 1, 2)
    case(["init", "size", 2, 30], 1, 2)
    case(["init", "copy", 2, 1], num(100), 2)
    case(["init", "int", 2, N(-5)], 1, 2)
    for n in (1, 2, 3, 4, 5):
        case(["initlist", n])
    for bits in (1, 8, 65, 500):
        case(["rand", 1, bits], 0)
        case(["randrange", 1, 2], 0, abs(num((bits + 7) // 8)) or 1)
    for v in (2, 97, 1009, 1013, 1009 * 1013, (1 << 61) - 1, (1 << 61) - 3, 1013 * 1019):
        case(["isprime", 1], v)
    for bits in (130, 600):
        p = c_mpi.rand_prime(r, bits)
        case(["isprime", 1], p)
        case(["isprime", 1], p * c_mpi.rand_prime(r, 20))
    case(["prime", 1, 16, 0], 0)
    case(["prime", 1, 64, 0], 0)
    return out


def mpi_tail(call):
    # what the failed call left behind is a destination, and the call can be made again
    if call[0] == "initlist":
        return [call]
    pre = [["zero", k] for k in outputs(call)] if call[0] != "init" else []
    if call[0] in ("bin", "un", "div", "divabs", "mod", "modexp", "shl", "shr", "muldig"):
        ins = {"bin": call[3:], "un": call[3:], "div": call[3:], "divabs": call[3:], "mod": call[2:], "modexp": call[2:],
               "shl": call[2:3], "shr": call[2:3], "muldig": call[2:3]}[call[0]]
        over = [k for k in outputs(call) if k in ins]
        # an operand that was also the destination is lost: give it a value
        pre = [["mset", k, N(0x123456789abcdef0123456789abcdef01 + k)] for k in over]
    return pre + [call, ["info", 1]]


def sig_cases(ctx):
    r = ctx.rng
    out = []

    def case(setup, call):
        out.append(([["new", 60, r.getrandbits(30)]] + setup, call))
    # contexts
    for k in ("ecp", "ecpint", "ecplist", "grp", "dsa", "elgamal", "ecdsa", "ecdsa3", "rsa", "dh", "ecdh"):
        case([], ["initctx", k])
    # points: a small curve and a long one
    named = c_pk.named_curves(ctx)
    c = named[r.choice((0, 5))]
    sm = (101,) + r.choice([x[1:] for x in c_pk.prime_order_curves(101, 3, r)])
    for cv in (sm, c):
        G = (cv[3], cv[4])
        P2, P3 = c_pk.ec_mul(cv, 2, G), c_pk.ec_mul(cv, 3, G)
        s = [["ecgrp"] + [N(v) for v in cv], ["ecset", 1, 0, N(P2[0]), N(P2[1])], ["ecset", 2, 0, N(P3[0]), N(P3[1])]]
        for d in (3, 1, 2):
            case(s, ["ecadd", d, 1, 2])
        case(s, ["ecadd", 3, 1, 1])
        case(s, ["ecadd", 3, 1, 3])
        case(s, ["ecadd", 3, 3, 2])
        case(s, ["ecdbl", 3, 1])
        case(s, ["ecdbl", 1, 1])
        case(s, ["eccopy", 3, 1])
        for k in (0, 1, 2, 5, 200, r.randrange(cv[5]), r.getrandbits(70)):
            case(s, ["ecmul", r.choice((3, 1)), 1, N(k)])
    # DSA
    p, q, g = c_pk.dsa_group(r, 192, 100)
    x = r.randrange(1, q)
    key = [["dsakey", N(p), N(q), N(g), N(x), N(pow(g, x, p))]]
    m = bytes(r.randrange(256) for _ in range(20))
    z = int.from_bytes(m, "big") >> (160 - 100) if True else 0
    z = int.from_bytes(m[:13], "big") >> 4
    n = r.randrange(2, q)
    rr = pow(g, n, p) % q
    ss = c_pk.inv(n, q) * (z + x * rr) % q
    case(key, ["dsasign", m])
    case(key, ["dsaver", N(rr), N(ss), m])
    case(key, ["dsaver", N(rr), N(ss), m[:-9] + b"x" * 9 if r.randrange(2) else b"zz" + m])
    case(key, ["dsaver", N(rr), N(ss ^ 1), m])
    case(key, ["dsaver", N(rr + q), N(ss), m])
    # ElGamal
    p, g = 0xfffffffffffffffffffffffffffffffffffffffffffffffffffffffffffd7b5f, 3
    while not c_mpi.is_prime(p):
        p -= 2
    x = r.randrange(2, p - 1)
    key = [["egkey", N(p), N(g), N(pow(g, x, p)), N(x)]]
    m = bytes(r.randrange(256) for _ in range(20))
    while True:
        n = r.randrange(2, p - 1)
        if c_pk.math.gcd(n, p - 1) == 1:
            break
    rr = pow(g, n, p)
    ss = (int.from_bytes(m, "big") - x * rr) * c_pk.inv(n, p - 1) % (p - 1)
    rb, sb = rr.to_bytes(32, "big"), ss.to_bytes(32, "big")
    case(key, ["egsign2", m])
    case(key, ["egsign", m, 32])
    for mm in (m, b"y" + m[1:]):
        case(key, ["egver2", N(rr), N(ss), mm])
        case(key, ["egver", rb + sb, mm])
    # ECDSA
    for cv in (sm, named[0]):
        d = r.randrange(1, cv[5])
        Q = c_pk.ec_mul(cv, d, (cv[3], cv[4]))
        key = [["edcust"] + [N(v) for v in cv], ["edset", N(d), 0, N(Q[0]), N(Q[1])]]
        m = bytes(r.randrange(256) for _ in range(24))
        z = int.from_bytes(m, "big") >> (192 - cv[5].bit_length())
        while True:
            n = r.randrange(1, cv[5])
            rr = c_pk.ec_mul(cv, n, (cv[3], cv[4]))[0] % cv[5]
            ss = c_pk.inv(n, cv[5]) * (z + d * rr) % cv[5]
            if rr and ss:
                break
        case(key, ["edsign", m])
        case(key, ["edver", N(rr), N(ss), m])
        case(key, ["edver", N(rr), N(ss % (cv[5] - 1) + 1), m])
        case(key, ["edkeygen"])
    # RSA
    n, e, d, _, _ = c_pk.rsa_key(r, 160, 17)
    for pad in (0, 1):
        key = [["rsakey", pad, N(n), N(e), N(d)]]
        room = 9 if pad else 20
        for ln in (1, room, 2 * room + 1):
            m = bytes([r.randrange(1, 100)] * ln)
            case(key, ["rsaenc", m])
            case(key, ["rsasign", m])
            blocks = [m[i:i + room] for i in range(0, ln, room)]
            enc = sig = b""
            for b in blocks:
                if pad:
                    b2 = b"\0\2" + bytes([7] * (17 - len(b))) + b"\0" + b
                    b1 = b"\0\1" + b"\xff" * (17 - len(b)) + b"\0" + b
                else:
                    b1 = b2 = b + b"\0" * (20 - len(b))
                enc += pow(int.from_bytes(b2, "big"), e, n).to_bytes(20, "big")
                sig += pow(int.from_bytes(b1, "big"), d, n).to_bytes(20, "big")
            case(key, ["rsadec", enc])
            case(key, ["rsaver", sig, m])
            case(key, ["rsaver", sig, m[:-1] + b"\x7f"])
    case([], ["rsakeygen", 0, 64, 17])
    for _ in range(ctx.pick(3, 20)):    # each with failures of its own: most fall into the search for p
        case([], ["dsakeygen", 0])
    # Diffie-Hellman
    p = c_mpi.rand_prime(r, 128)
    a = r.randrange(p)
    s = [["dhinit", 1, N(p), N(5), N(a)], ["dhinit", 2, N(p), N(7), N(a)]]
    case(s, ["dhagree", 1])
    case(s, ["dhsettok", 2, bytes(r.randrange(1, 256) for _ in range(50))])
    case(s + [["dhsettok", 1, b"\x12\x34\x56"]], ["dhfinal", 1])
    s = [["edhcust", i] + [N(v) for v in sm] + [N(3 + i)] for i in (1, 2)]
    case(s, ["edhagree", 1])
    case(s + [["edhagree", 2], ["edhswap"]], ["edhfinal", 1])
    return out


def pk_tail(call):
    if call[0] == "dsakeygen":
        return []
    if call[0] in ("ecadd", "ecdbl", "ecmul") and call[1] in call[2:4]:
        return []       # the operand was the destination
    return [call]


def c27(ctx):
    r = ctx.rng
    for n, m in ctx.pick(((3, 3), (5, 1)), ((3, 3), (5, 1), (4, 7), (8, 3))):
        ctx.mc("AllocMC", "CONSTANTS N = %d\nM = %d\nSPECIFICATION Spec\nINVARIANTS Outcome Once\nCHECK_DEADLOCK FALSE\n" % (n, m),
               label="AllocMC(%d objects of %d)" % (n, m))
    mc = mpi_cases(ctx)
    for v in ctx.pick(("std", "alt64"), ("std", "alt64", "d8", "d32", "rel")):
        scan(ctx, "MpiFault", MPI_CFG, v, [c for c in mc if not (v in ("d8", "alt8") and c_mpi.comba8(c[0] + [c[1]]))], ctx.pick(24, 80), mpi_tail)
        if ctx.violations:
            return "model_checking"
    # TLC's behaviours of Mpi, with failures strewn in
    ops = ["add", "sub", "mul", "div", "mod", "gcd", "shl", "shr", "sqr", "copy", "abs", "mul_abs"]
    scens = []
    for w in c_mpi.walks(ctx, ops, ctx.pick(60, 400), 30, 60, 40):
        s = [["new", 20, r.getrandbits(30)]]
        for h in w[1:]:
            if h[0] in ("bin", "un", "div", "divabs", "mod", "shl", "shr") and r.randrange(2):
                s += [["fail", r.choice((1, 1, 2, 3, 4, 5, 6, 8))], h, ["faults"]] + [["zero", k] for k in outputs(h)]
            else:
                s.append(h)
        scens.append(s + [["giveback"]])
    ctx.validate("MpiFault", scens, ctx.replay("std", scens), "std", cfg=MPI_CFG)
    ctx.log("MpiFault: %d walks with failures" % len(scens))
    scan(ctx, "PkFault", PK_CFG, "std", sig_cases(ctx), ctx.pick(16, 80), pk_tail)
    sym(ctx)
    return "model_checking"


FINDING = "cry_memxor2 with the destination between two sources that all overlap"


def sym(ctx):
    """the symmetric code allocates only temporary buffers: without them the answers are the same"""
    r = ctx.rng
    rb = c_sym.rb
    scens = []
    for ciph, kl, bl in (("aes", 16, 16), ("des", 8, 8), ("aes", 32, 16), ("des", 24, 8)):
        for mode in ("cbc", "ctr", "cfb", "cfb8"):
            for _ in range(ctx.pick(3, 20)):
                s = [["new", 20, r.getrandbits(30)], ["minit", 1, mode, ciph], ["mkey", 1, rb(r, kl)], ["miv", 1, rb(r, bl)]]
                for _ in range(6):
                    n = r.choice((0, 1, 2, 3, 5, 31, 32, 33, 64, 65, 100)) * bl
                    s.append([r.choice(("menc", "mdec", "mdec", "mdec")), 1, rb(r, n), r.choice((0, 1, 1, 1)), r.choice((1, 1, 1, 2, 0))])
                scens.append(s)
    tangled, plain = [], []
    for _ in range(ctx.pick(3000, 30000)):
        n = r.choice((1, 2, 3, 4, 5, 6, 7, 8, 9, 16, 17, 33))
        size = n + r.choice((1, 2, 3, n, n + 1, 2 * n))
        d, a, b = (r.randrange(size - n + 1) for _ in range(3))
        lo, hi = min(a, b), max(a, b)
        hard = lo < d < hi and d < lo + n and hi < d + n and hi <= lo + n
        (tangled if hard else plain).append([["memxor2", rb(r, size), d, a, b, n, 1]])
    scens += c_sym.group(plain, 60)
    ctx.validate("SymTrace", scens, ctx.replay("std", scens), "std", cfg=c_sym.CFG)
    ctx.log("SymTrace: %d scenarios without temporary buffers" % len(scens))
    listed = [k for k in ctx.findings if FINDING in k]
    hard = c_sym.group(tangled, 40)
    evs = ctx.replay("std", hard)
    if listed:
        cfg = "CONSTANT NSlot = 4\nSPECIFICATION FaultSpec\nPOSTCONDITION Accepted\nCHECK_DEADLOCK FALSE\n"
        ctx.validate("SymFault", hard, evs, "std", cfg=cfg)
        same = sum(1 for s, e in zip(hard, evs) for c, x in zip(s, e) if x["op"] == "memxor2" and x["r"][0] == x["a"][0])
        if same and not ctx.violations:
            ctx.known += listed
    else:
        ctx.validate("SymTrace", hard, evs, "std", cfg=c_sym.CFG)


TABLE = {"C27": c27}


