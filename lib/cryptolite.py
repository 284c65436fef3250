"""AES encryption of a block: used to generate inputs only, never to judge a result."""


def _xt(a):
    return ((a << 1) ^ 0x1b) & 0xff if a & 0x80 else a << 1


def _mul(a, b):
    p = 0
    while b:
        if b & 1:
            p ^= a
        a, b = _xt(a), b >> 1
    return p


def _sbox():
    out = []
    for x in range(256):
        i = x
        for _ in range(253):
            i = _mul(i, x)
        i = i if x else 0
        v = i
        for k in range(1, 5):
            v ^= ((i << k) | (i >> (8 - k))) & 0xff
        out.append(v ^ 0x63)
    return out


S = _sbox()


def _expand(key):
    nk = len(key) // 4
    w = [list(key[4 * i:4 * i + 4]) for i in range(nk)]
    rc = 1
    while len(w) < 4 * (nk + 7):
        t = w[-1]
        if len(w) % nk == 0:
            t = [S[b] for b in t[1:] + t[:1]]
            t[0] ^= rc
            rc = _xt(rc)
        elif nk > 6 and len(w) % nk == 4:
            t = [S[b] for b in t]
        w.append([a ^ b for a, b in zip(w[-nk], t)])
    return [sum(w[4 * r:4 * r + 4], []) for r in range(nk + 7)]


def aes_enc(key, block):
    ks = _expand(key)
    s = [a ^ b for a, b in zip(block, ks[0])]
    for r in range(1, len(ks)):
        s = [S[b] for b in s]
        s = [s[4 * ((c + i) % 4) + i] for c in range(4) for i in range(4)]
        if r < len(ks) - 1:
            t = []
            for c in range(4):
                a = s[4 * c:4 * c + 4]
                t += [_xt(a[i]) ^ _xt(a[(i + 1) % 4]) ^ a[(i + 1) % 4] ^ a[(i + 2) % 4] ^ a[(i + 3) % 4] for i in range(4)]
            s = t
        s = [a ^ b for a, b in zip(s, ks[r])]
    return bytes(s)
