#!/usr/bin/env python3
"""Writes spec/Curves.tla, the published domain parameters (SEC 2 v1/v2, RFC 5639) as OpenSSL lists them."""
import os
import re
import subprocess

NAMES = ["prime192v1", "secp224r1", "prime256v1", "secp384r1", "secp521r1", "secp192k1", "secp224k1", "secp256k1",
         "brainpoolP256r1", "brainpoolP384r1", "brainpoolP512r1"]
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def params(name):
    t = subprocess.run(["openssl", "ecparam", "-name", name, "-param_enc", "explicit", "-text", "-noout",
                        "-conv_form", "uncompressed"], stdout=subprocess.PIPE, text=True, check=True).stdout
    f = {}
    for lab, body in re.findall(r"^(Prime|A|B|Generator \(uncompressed\)|Order):\s+((?:[0-9a-f:]|\s)+?)(?=^[A-Z])", t + "Z", re.M):
        f[lab.split()[0]] = int(re.sub(r"[^0-9a-f]", "", body), 16)
    for lab, v in re.findall(r"^(Prime|A|B|Order):\s+(\d+) \(0x", t, re.M):
        f[lab] = int(v)
    p = f["Prime"]
    n = (p.bit_length() + 7) // 8
    g = f["Generator"].to_bytes(2 * n + 1, "big")
    assert g[0] == 4
    return p, f["A"], f["B"], int.from_bytes(g[1:n + 1], "big"), int.from_bytes(g[n + 1:], "big"), f["Order"]


def tla(v):
    return "<<0, <<%s>>>>" % ", ".join(str(b) for b in v.to_bytes((v.bit_length() + 7) // 8, "little"))


def main():
    out = ["------------------------------- MODULE Curves -------------------------------",
           "\\* generated by tools/gen_curves.py: SEC 2 curves 192r1 .. 521r1, 192k1 .. 256k1, RFC 5639 P256r1 .. P512r1",
           "\\* in the order of the library's group numbers", "EXTENDS BigNum", "CurveTab == <<"]
    rows = []
    for n in NAMES:
        ps = params(n)
        p, a, b, x, y, q = ps
        assert (y * y - x ** 3 - a * x - b) % p == 0
        rows.append("  [" + ",\n   ".join("%s |-> %s" % (k, tla(v)) for k, v in zip(("p", "a", "b", "gx", "gy", "n"), ps)) + "]")
    out.append(",\n".join(rows) + ">>")
    out.append("=" * 77)
    with open(os.path.join(HERE, "spec", "Curves.tla"), "w") as f:
        f.write("\n".join(out) + "\n")


if __name__ == "__main__":
    main()
