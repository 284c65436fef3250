#!/usr/bin/env python3
"""mkseed.py SPEC.py [ID...]: makes /verif/seeded/<id>/ from planted-bug descriptions and confirms each one.

SPEC.py defines SEEDS = [dict(id=, property=, edits=[(file, old, new), ...], demo=C source, needs=, breaks=)].
A bug is kept only if it compiles, passes the stable tests, and its demo passes without and fails with it.
Works in /repo (build.sh is bound to it) and restores it."""
import json, os, subprocess, sys, runpy

REPO, OUT = "/repo", "/verif/seeded"
DEMO = '''#!/bin/bash
# run in the source tree after the build; uses the library that was built
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 99
trap 'rm -f "$t/demo"; rmdir "$t"' EXIT
gcc -w -Iinclude -Isrc -o "$t/demo" "$d/demo.c" libcry.a || exit 99
timeout 120 "$t/demo"
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def tests():
    o = "/tmp/seedtest.json"
    sh("timeout 300 bash /opt/vp/test.sh " + o)
    got = set(json.load(open(o))["passed"])
    base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    return [t for t in base if t not in got]


def main():
    seeds = runpy.run_path(sys.argv[1])["SEEDS"]
    want = sys.argv[2:]
    for s in seeds:
        if want and s["id"] not in want:
            continue
        d = os.path.join(OUT, s["id"])
        if not want and os.path.exists(d):
            continue
        assert not sh("git -C /repo status --porcelain -uno").stdout.strip(), "dirty /repo"
        tmp = "/tmp/seed_" + s["id"]
        os.makedirs(tmp, exist_ok=True)
        open(tmp + "/demo.c", "w").write(s["demo"])
        open(tmp + "/demo.sh", "w").write(DEMO)
        ok = True
        try:
            b = sh("bash /opt/vp/build.sh")
            r0 = sh("bash %s/demo.sh" % tmp, cwd=REPO)
            if r0.returncode != 0:
                print(s["id"], "demo fails on the clean tree", r0.returncode, r0.stdout[-500:], r0.stderr[-500:])
                ok = False
                continue
            for f, old, new in s["edits"]:
                p = os.path.join(REPO, f)
                t = open(p).read()
                assert t.count(old) == 1, (s["id"], f, t.count(old), old)
                open(p, "w").write(t.replace(old, new))
            diff = sh("git -C /repo diff").stdout
            open(tmp + "/patch.diff", "w").write(diff)
            b = sh("bash /opt/vp/build.sh")
            if b.returncode != 0:
                print(s["id"], "does not build", b.stderr[-600:])
                ok = False
                continue
            miss = tests()
            if miss:
                print(s["id"], "breaks tests:", miss[:5], len(miss))
                ok = False
                continue
            r1 = sh("bash %s/demo.sh" % tmp, cwd=REPO)
            if r1.returncode in (0, 99):
                print(s["id"], "demo does not fail with the patch", r1.returncode)
                ok = False
                continue
        finally:
            sh("git -C /repo checkout -- .")
            if ok:
                os.makedirs(d, exist_ok=True)
                for f in ("demo.c", "demo.sh", "patch.diff"):
                    sh("cp %s/%s %s/%s" % (tmp, f, d, f))
                json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
                          open(d + "/meta.json", "w"), indent=1)
                print(s["id"], "kept")
    sh("bash /opt/vp/build.sh")


main()
