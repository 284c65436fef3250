"""C01-C05: the multiple precision integers."""
import json
import os

from vf import N, big


# ------------------------------------------------------------- operands ----
def edge_bytes(r, n):
    """n bytes of the kind that make carries and borrows run."""
    k = r.randrange(7)
    if k == 0:
        return bytes(r.choice((0, 0xff)) for _ in range(n))
    if k == 1:
        return b"\xff" * n
    if k == 2:
        return bytes([r.choice((1, 0x80, 0x7f, 0xff))]) + b"\0" * (n - 1)
    if k == 3:
        return bytes(r.choice((0, 1, 0x7f, 0x80, 0xfe, 0xff)) for _ in range(n))
    if k == 4:   # runs
        out = b""
        while len(out) < n:
            out += bytes([r.choice((0, 0xff, r.randrange(256)))]) * r.randrange(1, 12)
        return out[:n]
    return bytes(r.randrange(256) for _ in range(n))


def number(r, maxlen, signed=True):
    n = r.choice((0, 1, 1, 2, 3, 7, 8, 8, 9, 15, 16, 17, 24, 31, 32, 33, 40, r.randrange(1, maxlen + 1)))
    v = int.from_bytes(edge_bytes(r, min(n, maxlen)), "big") if n else 0
    if r.randrange(8) == 0 and v:
        v = 1 << r.randrange(v.bit_length())
        v += r.choice((-1, 0, 0, 1))
    return -v if signed and r.randrange(3) == 0 else v


def scen_from_walk(hist, pool, r):
    out = [["new"]]
    for h in hist:
        if h[0] == "mset":
            out.append(["mset", h[1], N(pool[h[2] - 1]), r.choice((0, 0, 1, 8))])
        else:
            out.append(h)
    return out


def walks(ctx, ops, num, depth, maxlen, plen, shifts=(0, 1, 7, 8, 9, 63, 64, 65, 128, 200)):
    """Behaviours of Mpi produced by TLC."""
    r = ctx.rng
    pool = [number(r, plen) for _ in range(400)]
    pf, sf = os.path.join(ctx.tmp, "pool"), os.path.join(ctx.tmp, "par")
    with open(pf, "w") as f:
        f.write("".join(json.dumps(big(v)) + "\n" for v in pool))
    with open(sf, "w") as f:
        f.write(json.dumps({"ops": list(ops), "shifts": list(shifts), "depth": depth, "maxlen": maxlen}) + "\n")
    beh = ctx.simulate("MpiSim", "CONSTANT NReg = 4\nSPECIFICATION SimSpec\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n",
                       num, depth + 1, env={"POOL": pf, "SIMPAR": sf})
    ctx.extra["behaviours_generated_by_tlc"] = ctx.extra.get("behaviours_generated_by_tlc", 0) + len(beh)
    return [scen_from_walk(h, pool, r) for h in beh]


TRACE_CFG = "CONSTANT NReg = 4\nSPECIFICATION TraceSpec\nPOSTCONDITION Accepted\nCHECK_DEADLOCK FALSE\n"


def laws(ctx, invs, k=None):
    k = k or ctx.pick(24, 60)
    ctx.mc("MpiLaws", "CONSTANTS NReg = 1\nK = %d\nSPECIFICATION LawSpec\n%s\nCHECK_DEADLOCK FALSE\n" %
           (k, "\n".join("INVARIANT " + i for i in invs)), label="MpiLaws(%s)" % ",".join(invs))


def machine(ctx):
    ctx.mc("MpiMC", "CONSTANTS NReg = 2\nMaxV = %d\nSPECIFICATION MSpec\nINVARIANT TypeOK\nPROPERTY Frame\n"
           "CONSTRAINT Bound\nVIEW View\nCHECK_DEADLOCK FALSE\n" % ctx.pick(40, 120), label="MpiMC")


def conform(ctx, scens, variants):
    for v in variants:
        if v in ("d8", "alt8"):
            scens = [s for s in scens if not comba8(s)]
        evs = ctx.replay(v, scens)
        ctx.validate("MpiTrace", scens, evs, v, cfg=TRACE_CFG)
        ctx.log("MpiTrace: %d scenarios, %d events (variant %s)" % (len(scens), sum(map(len, evs)), v))
        if ctx.violations:
            return


RING2 = ["add", "sub", "mul", "add_abs", "sub_abs", "mul_abs", "mul_baseline", "mul_comba", "mul_karatsuba", "mul_toom3"]
RING1 = ["abs", "sqr", "sqr_baseline", "sqr_comba", "sqr_karatsuba"]


def pairs(r, sizes, count, signed=True):
    for _ in range(count):
        la, lb = r.choice(sizes), r.choice(sizes)
        yield tuple((-1 if signed and r.randrange(3) == 0 else 1) * int.from_bytes(edge_bytes(r, n), "big") for n in (la, lb))


def two(r, a, b, op, alias):
    """one binary call with aliasing pattern: 0 none, 1 r=a, 2 r=b, 3 a=b, 4 r=a=b; destination dirty"""
    s = [["new"], ["mset", 1, N(a), r.choice((0, 0, 3))], ["mset", 2, N(b), r.choice((0, 0, 3))],
         ["mset", 3, N(number(r, 40)), r.choice((0, 0, 20))]]
    x = {0: (3, 1, 2), 1: (1, 1, 2), 2: (2, 1, 2), 3: (3, 1, 1), 4: (1, 1, 1)}[alias]
    s.append(["bin", op] + list(x))
    return s


def comba8(scen):
    """8-bit digits: the column accumulator of the comba algorithms holds 257 products (documented
    limit of the algorithm; the library itself only calls it below 65 digits)"""
    ops = [c for c in scen if c[0] in ("bin", "un") and "comba" in c[1]]
    return bool(ops) and any(abs(c[2]).bit_length() > 8 * 250 for c in scen if c[0] == "mset")



def chunked(calls, r, per=12):
    """group single calls (lists of commands without `new`) into scenarios"""
    out = []
    for i in range(0, len(calls), per):
        sc = [["new"]]
        for c in calls[i:i + per]:
            sc += c
        out.append(sc)
    return out


def dirty(r, k):
    return ["mset", k, N(number(r, 40)), r.choice((0, 0, 1, 3, 20))]


def put(r, k, v):
    return ["mset", k, N(v), r.choice((0, 0, 0, 1, 4))]


def digvals(r, ndig, dbytes):
    """ndig digits of dbytes bytes, each an edge value more often than not"""
    top = (1 << (8 * dbytes)) - 1
    edges = [0, 0, 1, 2, top, top, top - 1, top >> 1, (top >> 1) + 1, (top >> 1) + 2]
    v = 0
    for i in range(ndig):
        d = r.choice(edges) if r.randrange(3) else r.randrange(top + 1)
        if i == 0 and d == 0:
            d = r.choice((1, top, (top >> 1) + 1))
        v = v * (top + 1) + d
    return v


def c01(ctx):
    r = ctx.rng
    selfcheck(ctx)
    laws(ctx, ["Ring"])
    machine(ctx)
    ops = RING2 + RING1 + ["cmp", "cmpabs", "muldig", "swap"]
    sc = walks(ctx, ops, ctx.pick(250, 2500), 24, 120, 40)
    # every operation, every aliasing, small and edge operands
    small = [0, 1, -1, 255, -256, (1 << 64) - 1, -(1 << 64), (1 << 128) - 1, 1 << 127]
    for op in RING2:
        for alias in range(5):
            for _ in range(ctx.pick(3, 12)):
                sc.append(two(r, r.choice(small), r.choice(small), op, alias))
    # digits at their edges, for each digit width
    calls = []
    for _ in range(ctx.pick(900, 20000)):
        w = r.choice((1, 8))
        n1, n2 = r.choice((1, 1, 2, 2, 3, 4, 5)), r.choice((1, 1, 2, 3, 4, 6))
        a, b = digvals(r, n1, w), digvals(r, n2, w)
        if r.randrange(4) == 0:
            b = a + r.choice((-1, 0, 0, 1))
        a *= r.choice((1, 1, -1))
        b *= r.choice((1, 1, -1))
        d = r.choice((3, 3, 1, 2))
        op = r.choice(RING2 + ["add", "sub", "mul"])
        calls.append([put(r, 1, a), put(r, 2, b), dirty(r, 3), ["bin", op, d, 1, 2]]
                     + ([["cmp", 1, 2], ["cmpabs", 1, 2]] if d == 3 and r.randrange(3) == 0 else []))
        if r.randrange(4) == 0:
            calls.append([put(r, 1, a), dirty(r, 2), ["un", r.choice(RING1), 2, 1]])
    sc += chunked(calls, r)
    # operands around the algorithm switches of 8-bit digits
    sizes8 = [1, 2, 3, 5, 8, 31, 32, 33, 63, 64, 65, 66, 67, 96, 127, 128, 129, 130, 131, 150, 200, 299, 300, 301, 302, 303, 310]
    for a, b in pairs(r, sizes8, ctx.pick(220, 1500)):
        op = r.choice(RING2 + ["mul"] * 4 + ["mul_karatsuba", "mul_toom3"] * 2)
        sc.append(two(r, a, b, op, r.choice((0, 0, 0, 1, 2, 3, 4))))
    for _ in range(ctx.pick(80, 600)):
        a = int.from_bytes(edge_bytes(r, r.choice(sizes8)), "big") * r.choice((1, -1))
        op = r.choice(RING1)
        sc.append([["new"], ["mset", 1, N(a)], ["mset", 2, N(number(r, 40)), 2],
                   ["un", op, 2, 1], ["un", op, 1, 1]])
    conform(ctx, sc, ctx.pick(["std", "d8"], ["std", "d8", "d16", "d32", "alt8", "alt64", "asm64", "rel"]))
    if ctx.violations:
        return "model_checking"
    # operands around the switches of the shipped 64-bit configuration
    sc = []
    sizes64 = [8 * 2, 8 * 3, 8 * 7, 8 * 16, 8 * 33, 8 * 63, 8 * 64, 8 * 64 + 1, 8 * 65, 8 * 66, 8 * 67, 8 * 100, 8 * 129, 8 * 200]
    for a, b in pairs(r, sizes64, ctx.pick(90, 600)):
        sc.append(two(r, a, b, r.choice(["mul", "mul", "mul_abs", "add", "sub", "mul_karatsuba", "mul_baseline", "mul_comba"]), r.choice((0, 0, 1, 2, 3))))
    for _ in range(ctx.pick(30, 200)):
        a = int.from_bytes(edge_bytes(r, r.choice(sizes64)), "big") * r.choice((1, -1))
        sc.append([["new"], ["mset", 1, N(a)], ["mset", 2, N(-5), 2], ["un", r.choice(["sqr", "sqr_karatsuba", "sqr_comba"]), 2, 1]])
    big64 = [8 * 299, 8 * 301, 8 * 302, 8 * 303, 8 * 310, 8 * 350, 8 * 400 - 3]
    for a, b in pairs(r, big64, ctx.pick(20, 150)):
        sc.append(two(r, a, b, r.choice(["mul", "mul_toom3"]), r.choice((0, 1, 3))))
    conform(ctx, sc, ctx.pick(["std"], ["std", "rel", "asm64"]))
    return "model_checking"


def selfcheck(ctx):
    """the override class of TLC against the TLA+ definitions it stands for"""
    r = ctx.rng
    nums = [0, 1, -1, 2, 3, 255, 256, -257, 65535, 65537] + \
           [number(r, r.choice((1, 2, 3, 6))) for _ in range(ctx.pick(6, 30))]
    nf = os.path.join(ctx.tmp, "nums")
    with open(nf, "w") as f:
        f.write("".join(json.dumps(big(v)) + "\n" for v in nums))
    ctx.self_check("BigNum", "", env={"NUMS": nf})


# ------------------------------------------------------------------ C02 ----
def div_calls(r, count, widths, maxd=6):
    calls = []
    for _ in range(count):
        w = r.choice(widths)
        b = digvals(r, r.choice((1, 1, 2, 2, 3, 4, maxd)), w)
        k = r.randrange(8)
        if k < 4:       # quotient digits at their edges, remainder at its edges
            q = digvals(r, r.choice((1, 1, 2, 3, maxd)), w)
            a = q * b + r.choice((0, 0, 1, b - 1, b - 1, b // 2, r.randrange(b)))
            if r.randrange(6) == 0:
                a = max(0, q * b - 1)
        elif k < 7:
            a = digvals(r, r.choice((1, 2, 3, 4, 5, maxd + 3)), w)
        else:           # leading digits equal: the estimate saturates
            top = b >> max(0, b.bit_length() - 8 * w)
            n = r.choice((1, 2, 3))
            a = (b << (8 * w * n)) - r.choice((1, 2, r.randrange(1 << (8 * w * n))))
            if a < 0:
                a = top
        a *= r.choice((1, 1, 1, -1))
        b *= r.choice((1, 1, 1, -1))
        pre = [put(r, 1, a), put(r, 2, b)]
        qq, rr = r.choice(((3, 4), (3, 4), (3, 0), (0, 4), (1, 2), (2, 1), (1, 3), (2, 3), (3, 1), (3, 2), (0, 1), (0, 2), (1, 0), (2, 0), (0, 0)))
        op = r.choice(("div", "div", "divabs", "mod"))
        pre += [dirty(r, x) for x in (3, 4) if x in (qq, rr)]
        if op == "mod":
            calls.append(pre + [["mod", rr or 4, 1, 2]])
        else:
            calls.append(pre + [[op, qq, rr, 1, 2]])
        if r.randrange(15) == 0:
            calls.append([put(r, 1, a), [op] + [3, 4, 1, 1][(0 if op != "mod" else 1):]])
        if r.randrange(25) == 0:
            calls.append([put(r, 1, a), ["zero", 2], ["mset", 3, N(7)], ["mset", 4, N(7)], [op] + [3, 4, 1, 2][(0 if op != "mod" else 1):]])
    return calls


def c02(ctx):
    r = ctx.rng
    laws(ctx, ["Division"])
    machine(ctx)
    sc = walks(ctx, ["div", "div", "div", "divabs", "mod", "mod", "mul", "sub", "add"], ctx.pick(250, 2500), 24, 60, 30)
    sc += chunked(div_calls(r, ctx.pick(2500, 40000), (1, 1, 8)), r)
    conform(ctx, sc, ctx.pick(["std", "d8"], ["std", "d8", "d16", "d32", "alt8", "alt64", "asm64", "rel"]))
    if ctx.violations:
        return "model_checking"
    # two-digit by one- and two-digit division with 8-bit digits: every pair of edge digits
    if ctx.thorough:
        e = [0, 1, 2, 3, 0x7f, 0x80, 0x81, 0xfe, 0xff]
        vals = sorted({x * 65536 + y * 256 + z for x in e for y in e for z in e})
        calls = [[["mset", 1, N(a)], ["mset", 2, N(b)], ["div", 3, 4, 1, 2]] for a in vals for b in vals if b]
        r.shuffle(calls)
        conform(ctx, chunked(calls[:100000], r, 50), ["d8"])
    # large operands
    calls = div_calls(r, ctx.pick(150, 1500), (8,), maxd=70)
    conform(ctx, chunked(calls, r), ctx.pick(["std"], ["std", "rel", "alt64", "asm64"]))
    return "model_checking"


# ------------------------------------------------------------------ C03 ----
LONGS = [0, 1, -1, 2, 127, 128, 255, 256, -255, -256, 65535, 65536, (1 << 31) - 1, 1 << 31, -(1 << 31), (1 << 32) - 1,
         1 << 32, (1 << 62), (1 << 63) - 1, -(1 << 63), -(1 << 63) + 1]


def text(v, radix):
    d = "0123456789abcdefghijklmnopqrstuvwxyz"
    m, s = abs(v), ""
    while m:
        s = d[m % radix] + s
        m //= radix
    return ("-" if v < 0 else "") + (s or "0")


def conv_calls(r, count):
    calls = []
    for _ in range(count):
        v = number(r, 45)
        if r.randrange(5) == 0:
            v = r.choice(LONGS) + r.choice((0, 0, 1, -1))
        pre = [put(r, 1, v), dirty(r, 2)]
        k = r.randrange(12)
        if k == 0:
            n = r.choice((0, 1, 7, 8, 9, 15, 16, 31, 32, 33, 63, 64, 65, 127, 128, 129, 192, 300, r.randrange(500)))
            n = r.choice((n, abs(v).bit_length(), abs(v).bit_length() + 1, max(0, abs(v).bit_length() - 1)))
            calls.append(pre + [[r.choice(("shl", "shr", "shr")), r.choice((1, 2)), 1, n]])
        elif k == 1:
            calls.append(pre + [["info", 1]])
        elif k == 2:
            calls.append(pre + [["getint", 1]])
        elif k == 3:
            calls.append(pre + [["setint", r.choice((1, 2)), N(r.choice(LONGS + [r.getrandbits(63), -r.getrandbits(40)]))],
                                ["getint", 2]])
        elif k == 4:
            b = b"\0" * r.choice((0, 0, 0, 1, 7, 8, 9)) + edge_bytes(r, r.choice((0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 24, 25, 31, 32, 33, 40)))
            calls.append(pre + [["loadbin", 2, b]])
        elif k == 5:
            n = (abs(v).bit_length() + 7) // 8
            n = max(0, n + r.choice((0, 0, 0, 1, 2, 7, 8, 9, 20, -1, -1, -n)))
            calls.append(pre + [["storebin", 1, n, r.choice((0, 1))]])
        elif k in (6, 7):
            radix = r.choice((2, 3, 7, 8, 10, 10, 11, 15, 16, 16, 16, 17, 20, 32, 35, 36))
            t = text(v, radix)
            if r.randrange(3) == 0:
                t = t.upper()
            if r.randrange(4) == 0:
                t = t.replace("-", "-" + "0" * r.randrange(4)) if v < 0 else "0" * r.randrange(1, 9) + t
            if v >= 0 and r.randrange(5) == 0:
                t = "+" + t
            if r.randrange(4) == 0:     # spoil it
                bad = r.choice((" ", "g", "z", "-", ".", "/", ":", "@", "[", "`", "{", "\x7f", "\xff", "\x80", "x", "8", "2", "\n"))
                i = r.randrange(len(t) + 1)
                t = t[:i] + bad + t[i + r.choice((0, 1)):]
            if r.randrange(30) == 0:
                t = r.choice(("", "-", "+", "0", "-0", "--1", "+-1"))
            calls.append(pre + [[r.choice((["loadstr", 2], ["loadstr", 2], ["loadstr", 2])), 0][0] + [radix, t.encode("latin1")]])
        elif k in (8, 9):
            radix = r.choice((2, 3, 4, 5, 6, 7, 8, 9, 10, 10, 11, 12, 13, 14, 15, 16, 16, 16, 0, 1, 17, 36))
            size = len(text(v, radix)) + 1 if 2 <= radix <= 16 else 400
            if radix == 16:
                size = max(size, 2 * ((abs(v).bit_length() + 7) // 8) + 1)
            if 2 <= radix <= 16 and r.randrange(4) == 0:
                calls.append(pre + [["print", 1, radix]])
            else:
                calls.append(pre + [["storestr", 1, radix, size]])
        elif k == 10:
            kind = r.choice(("plain", "copy", "int", "size", "bin", "str"))
            arg = {"plain": [], "copy": [1], "int": [N(r.choice(LONGS))], "size": [r.choice((0, 1, 2, 30))],
                   "bin": [b"\0" * r.choice((0, 0, 1, 9)) + edge_bytes(r, r.choice((0, 1, 7, 8, 9, 33)))],
                   "str": [16, text(v, 16).encode()]}[kind]
            calls.append(pre + [["init", kind, 2] + arg, ["un", "copy", 3, 2]])
        else:
            calls.append(pre + [["un", "copy", r.choice((2, 3, 1)), 1], ["swap", 1, 2], ["clear", 1], ["un", "copy", 1, 2]])
    return calls


def c03(ctx):
    r = ctx.rng
    laws(ctx, ["Shifts", "Sizes", "Texts", "Bytes"], ctx.pick(150, 700))
    machine(ctx)
    sc = walks(ctx, ["shl", "shr", "shl", "shr", "info", "getint", "copy", "swap", "zero", "sub"], ctx.pick(200, 2000), 24, 90, 40)
    sc += chunked(conv_calls(r, ctx.pick(4000, 60000)), r, 20)
    conform(ctx, sc, ctx.pick(["std", "d8"], ["std", "d8", "d16", "d32", "rel"]))
    if ctx.violations:
        return "model_checking"
    calls = []
    for _ in range(ctx.pick(60, 600)):
        v = int.from_bytes(edge_bytes(r, r.choice((256, 257, 500, 511, 512, 520))), "big") * r.choice((1, -1))
        calls.append([put(r, 1, v), dirty(r, 2), ["shl", 2, 1, r.randrange(2000)], ["shr", 2, 1, r.randrange(4200)],
                      ["storebin", 1, 530, 1], ["storestr", 1, r.choice((2, 10, 16)), 4400],
                      ["loadstr", 3, 10, text(v, 10).encode()], ["loadstr", 3, 16, text(v, 16).encode()]])
    # every length of a number, every shift count, and lengths beyond what a narrow counter holds
    for k in range(ctx.pick(260, 1200)):
        for v in {(1 << k) - 1, 1 << k, (1 << k) + 1, ((1 << k) - 1) ^ (1 << (k // 2))}:
            calls.append([put(r, 1, v), ["info", 1]])
        v = number(r, 30) * 2 + 1
        calls.append([put(r, 1, v), dirty(r, 2), ["shl", 2, 1, k], ["shr", 3, 2, k], ["shr", 3, 2, max(0, k - 1)], ["shr", 1, 1, k]])
    for n in (255, 256, 257, 1023, 2040, 2047, 2048, 2049, 2056, 4097) + ctx.pick((), (16384, 32769, 65536, 70001)):
        b = edge_bytes(r, n)
        v = int.from_bytes(b, "big")
        calls.append([dirty(r, 2), ["loadbin", 1, b], ["un", "copy", 2, 1], ["info", 2], ["storebin", 2, n, 0], ["init", "copy", 3, 1]])
        calls.append([put(r, 1, v), ["storebin", 1, n + r.choice((1, 255, 256, 257, 512)), 1], ["shl", 2, 1, 8 * n + 3], ["shr", 3, 2, 8 * n + 3],
                      ["shr", 1, 1, r.randrange(8 * n)]])
        calls.append([put(r, 1, r.randrange(300)), ["storebin", 1, n, 1], ["shl", 2, 1, 8 * n + r.randrange(70)], ["storebin", 2, n + 16, 1]])
        t = text(v, 16)
        calls.append([dirty(r, 1), ["loadstr", 1, 16, t.encode()], ["storestr", 1, 16, 2 * n + 2], ["loadstr", 1, 16, b"0" * n + t[:9].encode()]])
        if n < 1100:
            t = text(v, 36 if n < 300 else 32)
            calls.append([dirty(r, 1), ["loadstr", 1, 36 if n < 300 else 32, t.encode()], ["loadstr", 1, 10, b"0" * n + b"17"]])
            calls.append([put(r, 1, -v), ["storestr", 1, 10 if n < 300 else 15, 8 * n + 2]])
    conform(ctx, chunked(calls, r, 6), ["std"])
    return "model_checking"


# ------------------------------------------------------------------ C04 ----
def num_calls(r, count, small=False):
    calls = []
    for _ in range(count):
        k = r.randrange(12)
        L = 6 if small else 24
        a, b = number(r, L), number(r, L)
        d = r.choice((3, 3, 1, 2))
        if k < 2:
            g = abs(number(r, L)) << r.choice((0, 0, 1, 5, 63, 64, 65))
            calls.append([put(r, 1, a * g), put(r, 2, b * g), dirty(r, 3), ["bin", r.choice(("gcd", "gcd", "lcm")), d, 1, 2]])
        elif k == 2:
            calls.append([put(r, 1, r.choice((0, a))), put(r, 2, r.choice((0, b, 1))), dirty(r, 3), ["bin", r.choice(("gcd", "lcm")), d, 1, 2]])
        elif k < 6:
            m = abs(b) + r.choice((1, 2))
            if m < 2:
                m = 2
            if r.randrange(3) == 0:
                m |= 1
            if r.randrange(3) == 0:
                a = a * m + r.choice((1, -1, m - 1, m // 2))
            calls.append([put(r, 1, a), put(r, 2, m), dirty(r, 3), ["bin", "inv", d, 1, 2]])
            if r.randrange(20) == 0:
                calls.append([put(r, 1, a), put(r, 2, r.choice((0, -m))), dirty(r, 3), ["bin", "inv", 3, 1, 2]])
        elif k < 9:
            m = abs(b) + 1
            e = r.choice((0, 1, 2, 3, 65537, r.getrandbits(r.choice((8, 16, 64, 65, 130))), (1 << r.choice((7, 8, 63, 64, 65))) - r.choice((0, 1))))
            if r.randrange(12) == 0:
                m = r.choice((1, 1, 2, 0, -m))
            if r.randrange(30) == 0:
                e = -e
            if r.randrange(4) == 0:
                a = a * abs(m) + r.choice((0, 1, -1))
            d4 = r.choice((4, 4, 1, 2, 3))
            calls.append([put(r, 1, a), put(r, 2, e), put(r, 3, m), dirty(r, 4), ["modexp", d4, 1, 2, 3]])
        elif k == 9:
            a = number(r, 6)
            e = r.choice((0, 0, 1, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 40, 64, 65, -1, -3))
            calls.append([put(r, 1, a), put(r, 2, e), dirty(r, 3), ["bin", "exp", d, 1, 2]])
        else:
            if r.randrange(2):
                a = a * a + r.choice((0, 0, -1, 1, 2 * abs(a), 2 * abs(a) + 1))
            calls.append([put(r, 1, a), dirty(r, 3), ["un", "sqrt", r.choice((1, 3)), 1]])
    return calls


def c04(ctx):
    r = ctx.rng
    laws(ctx, ["Number"], ctx.pick(12, 30))
    machine(ctx)
    sc = walks(ctx, ["gcd", "lcm", "sqrt", "mul", "sub", "gcd", "add", "inv"], ctx.pick(120, 1200), 20, 50, 20)
    sc += chunked(num_calls(r, ctx.pick(2200, 30000)), r)
    sc += chunked(num_calls(r, ctx.pick(800, 10000), True), r)
    # all small cases
    small = []
    for a in range(-9, 17):
        for b in range(-9, 17):
            small.append([["mset", 1, N(a)], ["mset", 2, N(b)], ["mset", 3, N(-77)], ["bin", "gcd", 3, 1, 2], ["bin", "lcm", 3, 1, 2]]
                         + [["bin", "inv", 3, 1, 2]])
    for a in range(0, 300):
        small.append([["mset", 1, N(a)], ["un", "sqrt", 3, 1]])
    for a in range(-4, 9):
        for e in range(0, 7):
            for m in range(0, 9):
                small.append([["mset", 1, N(a)], ["mset", 2, N(e)], ["mset", 3, N(m)], ["modexp", 4, 1, 2, 3]])
    sc += chunked(small, r, 40)
    conform(ctx, sc, ctx.pick(["std", "d8"], ["std", "d8", "d16", "d32", "alt8", "alt64", "asm64", "rel"]))
    if ctx.violations:
        return "model_checking"
    calls = []
    for _ in range(ctx.pick(25, 250)):
        n = r.choice((64, 65, 128, 129, 256))
        m = int.from_bytes(edge_bytes(r, n), "big") | 1
        a = int.from_bytes(edge_bytes(r, n), "big")
        e = r.choice((3, 65537, r.getrandbits(200)))
        calls.append([put(r, 1, a), put(r, 2, e), put(r, 3, m), dirty(r, 4), ["modexp", 4, 1, 2, 3], ["bin", "gcd", 4, 1, 3],
                      ["bin", "inv", 4, 1, 3], ["un", "sqrt", 4, 3], ["bin", "lcm", 4, 1, 3]])
    # long exponents
    for n in (255, 256, 257, 511, 512, 513, 1023, 1025, 1536, 2047, 2048, 2049, 2300, 3072, 4095, 4097, 4500) + ctx.pick((), (8191, 8193, 16400)):
        for e in (1 << (n - 1), (1 << n) - 1, r.getrandbits(n) | 1 << (n - 1)):
            m = r.getrandbits(r.choice((8, 60, 64, 65, 128, 200))) + 2
            calls.append([put(r, 1, r.getrandbits(130)), put(r, 2, e), put(r, 3, m), dirty(r, 4), ["modexp", r.choice((1, 2, 3, 4)), 1, 2, 3]])
    for n in (384, 512, 513) + ctx.pick((), (600, 768, 1024)):
        a, b, c = (int.from_bytes(edge_bytes(r, n // 2), "big") | 1 for _ in range(3))
        calls.append([put(r, 1, a * c), put(r, 2, -b * c), dirty(r, 4), ["bin", "gcd", 4, 1, 2], ["bin", "lcm", 4, 1, 2], ["bin", "inv", 4, 1, 2],
                      ["un", "sqrt", 4, 1], ["bin", "inv", 4, 2, 1]])
    conform(ctx, chunked(calls, r, 3), ["std"])
    return "model_checking"


# ------------------------------------------------------------------ C05 ----
def is_prime(n):
    if n < 2:
        return False
    for p in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
        if n % p == 0:
            return n == p
    d, s = n - 1, 0
    while d % 2 == 0:
        d, s = d // 2, s + 1
    for a in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
        x = pow(a, d, n)
        if x in (1, n - 1):
            continue
        for _ in range(s - 1):
            x = x * x % n
            if x == n - 1:
                break
        else:
            return False
    return True


def next_prime(n):
    while not is_prime(n):
        n += 1
    return n


def rand_prime(r, bits):
    return next_prime(r.getrandbits(bits) | (1 << (bits - 1)) | 1)


def hard_composites(r, count):
    """p * (2p - 1), both prime, p = 3 (mod 4): close to a quarter of all witnesses lie"""
    out = []
    while len(out) < count:
        p = r.getrandbits(r.choice((20, 24, 30))) | (1 << 12) | 3
        if is_prime(p) and is_prime(2 * p - 1):
            out.append(p * (2 * p - 1))
    return out


def c05(ctx):
    r = ctx.rng
    laws(ctx, ["Primes"], ctx.pick(400, 3000))
    variants = ctx.pick(["std", "d8"], ["std", "d8", "d16", "d32", "rel"])
    calls = []
    for _ in range(ctx.pick(1500, 20000)):
        n = r.choice((0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 66, 71, 72, 73, 127, 128, 129, 130, 192, r.randrange(300)))
        nb = (n + 7) // 8
        k = r.randrange(5)
        b = {0: b"\0" * nb, 1: b"\xff" * nb, 2: b"\0" * (nb // 2) + edge_bytes(r, nb),
             3: edge_bytes(r, nb), 4: b"\0" * r.randrange(nb + 1) + b"\xff" * nb}[k][:nb] if nb else b""
        if r.randrange(2):
            calls.append([dirty(r, 1), ["rnd", b], ["rand", 1, n]])
        else:
            m = max(1, abs(digvals(r, r.choice((1, 2, 3)), r.choice((1, 8)))) if r.randrange(2) else abs(number(r, 40)))
            if r.randrange(3) == 0:
                m = 1 << n
            nb = (m.bit_length() + 7) // 8
            b = r.choice((b"\0" * nb, b"\xff" * nb, m.to_bytes(nb, "big"), (m - 1).to_bytes(nb, "big"),
                          b"\0" * (nb // 2) + edge_bytes(r, nb), edge_bytes(r, nb)))[:nb]
            calls.append([put(r, 1, m), dirty(r, 2), ["rnd", b], ["randrange", r.choice((2, 2, 1)), 1]])
    sc = chunked(calls, r)
    # verdicts: everything small, primes and composites of all sizes
    sc += [[["new"]] + [["isprimes"] + [N(v) for v in range(s, s + 200)]] for s in range(0, ctx.pick(3000, 20000), 200)]
    sc.append([["new"], ["isprimes"] + [N(-v) for v in range(1, 60)]])
    for v in (0, 1, 2, 3, 4, 1009, 1013, 1013 * 1013, 1013 * 1019, 1021 * 1031, 2047, 3215031751, 341550071728321,
              561, 1105, 1729, 41041, 825265, 321197185, (1 << 61) - 1, (1 << 89) - 1, (1 << 64) + 13, (1 << 64) - 59, 1 << 64, 1 << 70,
              (1 << 127) - 1, (1 << 128) - 159, 1027 * 1031, 1013 * 1021 * 1033, 1013 ** 3):
        sc.append([["new"], ["mset", 1, N(v)], ["isprime", 1], ["mset", 1, N(-v)]])
    prim, comp = [], []
    for _ in range(ctx.pick(150, 1500)):
        bits = r.choice((11, 12, 16, 17, 20, 31, 32, 33, 48, 63, 64, 65, 96, 127, 128, 129))
        prim.append(rand_prime(r, bits))
        p, q = rand_prime(r, max(11, bits // 2)), rand_prime(r, max(12, bits - bits // 2))
        comp.append(p * q)
        comp.append(rand_prime(r, bits) * r.choice((2, 3, 5, 7, 997, 1009)))
        comp.append(rand_prime(r, bits) + 1)
        comp.append(max(11, p) ** 2)
    allv = prim + comp
    r.shuffle(allv)
    for i in range(0, len(allv), 60):
        sc.append([["new"], ["isprimes"] + [N(v) for v in allv[i:i + 60]]])
    for _ in range(ctx.pick(2, 10)):
        sc.append([["new"], ["isprimes"] + [N(v) for v in hard_composites(r, 240)]])
    # one witness that is the modulus itself (zero after reduction)
    for v in [p for p in prim if p > (1 << 20)][:ctx.pick(40, 300)]:
        nb = (v.bit_length() + 7) // 8
        sc.append([["new"], ["mset", 1, N(v)], ["rnd", v.to_bytes(nb, "big") * r.choice((1, 2))], ["isprime", 1]])
    # generation
    for bits in (8, 16, 24, 32, 40, 64, 72, 128) + ctx.pick((), (192, 256)):
        for _ in range(ctx.pick(6, 40)):
            sc.append([["new"], ["rnd", bytes(r.randrange(256) for _ in range(64))], dirty(r, 1), ["prime", 1, bits, 0]])
            p = 0
            while p >> (bits - 2) != 3 or not is_prime(p):
                p = r.getrandbits(bits) | 3 << (bits - 2) | 1
            c = p - 2 if not is_prime(p - 2) else p - 4
            c = c if not is_prime(c) and c > 0 else 195
            raw = p & ~(3 << (bits - 2)) if r.randrange(2) else p
            nb = bits // 8
            sc.append([["new"], ["rnd", raw.to_bytes(nb, "big")], dirty(r, 1), ["prime", 1, bits, 1, 1]])
            sc.append([["new"], ["rnd", bytes(r.randrange(256) for _ in range(nb))], dirty(r, 1), ["prime", 1, bits, r.choice((1, 2, 3, 5))]])
    conform(ctx, sc, variants)
    return "model_checking"


TABLE = {"C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05}
