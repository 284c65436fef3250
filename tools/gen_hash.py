"""Writes the constant tables of spec/Hash.tla (run once; the result is committed)."""
import math
from fractions import Fraction

def primes(n):
    p, c = [], 2
    while len(p) < n:
        if all(c % q for q in p):
            p.append(c)
        c += 1
    return p

def iroot(x, k):
    lo, hi = 0, 1 << (x.bit_length() // k + 2)
    while lo < hi:
        m = (lo + hi + 1) // 2
        if m ** k <= x: lo = m
        else: hi = m - 1
    return lo

def frac(p, k, bits):
    return iroot(p << (k * bits), k) & ((1 << bits) - 1)

def w(v, limbs):
    return "<<" + ",".join(str((v >> (16 * (limbs - 1 - i))) & 0xffff) for i in range(limbs)) + ">>"

def tab(name, vals, limbs):
    rows = []
    for i in range(0, len(vals), 4):
        rows.append("    " + ", ".join(w(v, limbs) for v in vals[i:i + 4]))
    return "%s == <<\n%s >>\n" % (name, ",\n".join(rows))

P = primes(80)
print(tab("K256", [frac(p, 3, 32) for p in P[:64]], 2))
print(tab("H256", [frac(p, 2, 32) for p in P[:8]], 2))
print(tab("K512", [frac(p, 3, 64) for p in P], 4))
print(tab("H512", [frac(p, 2, 64) for p in P[:8]], 4))
print(tab("H384", [frac(p, 2, 64) for p in P[8:16]], 4))
print(tab("KMd5", [int(abs(math.sin(i + 1)) * 2 ** 32) & 0xffffffff for i in range(64)], 2))
print(tab("HMd5", [0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476], 2))
print(tab("HSha1", [0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0], 2))
print(tab("KSha1", [0x5a827999, 0x6ed9eba1, 0x8f1bbcdc, 0xca62c1d6], 2))
