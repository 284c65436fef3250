"""Framework: build the harness from /repo, replay behaviours, validate traces with TLC."""
import concurrent.futures
import glob
import hashlib
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(HERE, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = os.cpu_count() or 4


class ToolError(Exception):
    """The machinery failed: neither 'held' nor 'violated'."""


class N(int):
    """A big integer argument (plain ints are machine integers)."""


# ---------------------------------------------------------------- tokens ----
def token(x):
    if isinstance(x, N):
        v = abs(int(x))
        h = "%x" % v if v else ""
        if len(h) & 1:
            h = "0" + h
        return "n%s%s" % ("-" if x < 0 else "", h)
    if isinstance(x, bool):
        return str(int(x))
    if isinstance(x, int):
        return str(x)
    if isinstance(x, (bytes, bytearray)):
        return "x" + bytes(x).hex()
    return str(x)


def big(v):
    """JSON form of an integer: BigNum.tla's <<neg, little-endian magnitude>>."""
    m = abs(v)
    return [1 if v < 0 else 0, list(m.to_bytes((m.bit_length() + 7) // 8, "little"))]


def untoken(t):
    """Harness result token -> JSON value."""
    if t[0] == "x":
        return list(bytes.fromhex(t[1:]))
    if t[0] == "n":
        if t[1:2] in ("C", "D"):        # corrupt structure; a leading zero digit
            return [9, [1 if t[1] == "C" else 0]]
        neg = t[1:2] == "-"
        mag = list(reversed(bytes.fromhex(t[2:] if neg else t[1:])))
        return [1 if neg else 0, mag]
    return int(t)


def jarg(x):
    if isinstance(x, N):
        return big(int(x))
    if isinstance(x, (bytes, bytearray)):
        return list(x)
    if isinstance(x, int):
        return int(x)
    return x


def command_line(cmd):
    return " ".join(token(x) for x in cmd)


# -------------------------------------------------------------- variants ----
ALL_CURVES = ["SECP192R1", "SECP224R1", "SECP256R1", "SECP384R1", "SECP521R1", "SECP192K1",
              "SECP224K1", "SECP256K1", "BP256R1", "BP384R1", "BP512R1"]


def config_h(*opts):
    lines = ["#define %s" % o for o in opts]
    lines += ["#define CRY_ECP_GRP_%s_ENABLE" % c for c in ALL_CURVES]
    return "\n".join(lines) + "\n"


FULL = ("CRY_MPI_INV_EUCLID", "CRY_MPI_MUL_COMBA", "CRY_MPI_MUL_KARATSUBA", "CRY_MPI_MUL_TOOM3",
        "CRY_ECP_MUL_WIN", "CRY_ECP_MUL_SLIDING_WIN")
ASAN = ["-fsanitize=address", "-fno-omit-frame-pointer"]
# name -> (cc, cflags, config.h text or None for the repository's own)
VARIANTS = {
    # the shipped configuration, 64-bit digits
    "std": ("gcc", ["-O1", "-g"] + ASAN + ["-ftrivial-auto-var-init=pattern"], None),
    # the shipped configuration as the Makefile's release build compiles it
    "rel": ("gcc", ["-O3", "-DNDEBUG"], None),
    # 8-bit digits, allocation quantum 1
    "d8": ("gcc", ["-O1", "-g"] + ASAN + ["-ftrivial-auto-var-init=zero"],
           config_h("CRY_MPI_DEBUG_CONF", *FULL)),
    "d16": ("gcc", ["-O1", "-g", "-DCRY_MPI_DIGIT_MAX=65535UL"] + ASAN, config_h(*FULL)),
    "d32": ("gcc", ["-O1", "-g", "-DCRY_MPI_DIGIT_MAX=4294967295UL"] + ASAN, config_h(*FULL)),
    # alternative algorithms
    "alt8": ("gcc", ["-O1", "-g"] + ASAN,
             config_h("CRY_MPI_DEBUG_CONF", "CRY_MPI_INV_EUCLID", "CRY_MPI_DIV_SMALL")),
    "alt64": ("gcc", ["-O1", "-g"] + ASAN,
              config_h("CRY_MPI_INV_EUCLID", "CRY_MPI_DIV_SMALL", "CRY_MPI_MUL_KARATSUBA")),
    "asm64": ("gcc", ["-O2", "-g"] + ASAN, config_h("CRY_ARCH_X86_64", *FULL)),
}


class Ctx:
    """One run of one check."""

    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.rng = random.Random("%s/%d" % (pid, seed))
        self.tmp = tempfile.mkdtemp(prefix="cryv-%s-" % pid)
        self.bins = {}
        self.accepted = set()
        self.t0 = time.time()
        self.states = self.transitions = self.traces = self.events = 0
        self.samples = []
        self.notes = []
        self.mc_runs = []
        self.violations = []
        self.known = []
        self.findings = []
        self.extra = {}

    spec_dir = SPEC

    @property
    def thorough(self):
        return self.tier == "thorough"

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def log(self, *a):
        print("[%s %6.1fs]" % (self.pid, time.time() - self.t0), *a, flush=True)

    def close(self):
        shutil.rmtree(self.tmp, ignore_errors=True)

    # ---- build -----------------------------------------------------------
    def build(self, variant):
        if variant in self.bins:
            return self.bins[variant]
        cc, flags, cfg = VARIANTS[variant]
        d = os.path.join(self.tmp, "b-" + variant)
        os.makedirs(d, exist_ok=True)
        inc = []
        if cfg is not None:
            os.makedirs(os.path.join(d, "cfg", "cry"), exist_ok=True)
            with open(os.path.join(d, "cfg", "cry", "config.h"), "w") as f:
                f.write(cfg)
            inc += ["-I", os.path.join(d, "cfg")]
        inc += ["-I", os.path.join(REPO, "include")]
        lib = sorted(glob.glob(os.path.join(REPO, "src", "**", "*.c"), recursive=True))
        har = sorted(glob.glob(os.path.join(HERE, "harness", "*.c")))
        if not lib:
            raise ToolError("no library sources in " + REPO)
        jobs = []
        for s in lib:
            o = os.path.join(d, s[len(REPO) + 1:].replace("/", "_") + ".o")
            jobs.append([cc, "-c", "-w"] + flags + inc + ["-I", os.path.join(REPO, "src"), s, "-o", o])
        for s in har:
            o = os.path.join(d, "h_" + os.path.basename(s) + ".o")
            jobs.append([cc, "-c", "-Wall", "-Wno-unused-function"] + flags + inc + [s, "-o", o])

        def run(j):
            return subprocess.run(j, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
            for j, r in zip(jobs, ex.map(run, jobs)):
                if r.returncode:
                    raise ToolError("compile failed: %s\n%s" % (" ".join(j), r.stdout[-3000:]))
        exe = os.path.join(d, "harness")
        wraps = ["-Wl,--wrap=%s" % f for f in ("malloc", "calloc", "realloc", "free", "cry_prng_aes_rand")]
        r = run([cc] + flags + [j[-1] for j in jobs] + wraps + ["-o", exe])
        if r.returncode:
            raise ToolError("link failed: " + r.stdout[-3000:])
        self.bins[variant] = exe
        return exe

    # ---- replay ----------------------------------------------------------
    def _run_harness(self, exe, scens, fill):
        """Execute scenarios (lists of commands); return one event list per scenario."""
        env = dict(os.environ, H_FILL=str(fill),
                   ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:"
                                "detect_stack_use_after_return=0:exitcode=97",
                   MALLOC_PERTURB_="0")
        out = []
        i = crashes = 0
        # a handful of failures is enough: what was executed until then is judged, the rest is skipped
        while i < len(scens) and crashes < 3:
            lines = []
            for s in scens[i:]:
                lines += [command_line(c) for c in s]
            p = subprocess.run([exe], input="\n".join(lines) + "\n", stdout=subprocess.PIPE,
                               stderr=subprocess.PIPE, text=True, errors="replace", env=env)
            res = p.stdout.split("\n")
            if res and res[-1] == "":
                res.pop()
            k = 0
            for s in scens[i:]:
                evs = []
                for c in s:
                    if k < len(res) and res[k].startswith("="):
                        body = res[k][1:].split(" | ")
                        if len(body) == 1 and res[k].rstrip().endswith("|"):
                            body = [res[k][1:].rstrip()[:-1], ""]
                        r = [untoken(t) for t in body[0].split()]
                        st = [untoken(t) for t in body[1].split()] if len(body) > 1 else []
                        evs.append({"op": c[0], "a": [jarg(x) for x in c[1:]], "r": r, "s": st})
                        k += 1
                    else:
                        why = res[k] if k < len(res) else ""
                        if why.startswith("!") and "timeout" not in why:
                            raise ToolError("harness: %s at %s" % (why, command_line(c)[:300]))
                        evs.append({"op": "CRASH", "a": [], "r": [], "s": []})
                        self.last_crash = {
                            "command": command_line(c)[:2000], "exit": p.returncode,
                            "timeout": "timeout" in why, "stderr": p.stderr[:3000]}
                        break
                out.append(evs)
                i += 1
                if evs[-1]["op"] == "CRASH":
                    crashes += 1
                    break
            else:
                if p.returncode != 0:
                    raise ToolError("harness exit %d: %s" % (p.returncode, p.stderr[-2000:]))
                break
        return out

    def replay(self, variant, scens, fill=0xA5, per=8):
        exe = self.build(variant)
        n = max(1, min(6 * NCPU, (len(scens) + per - 1) // per))
        parts = [scens[k::n] for k in range(n)]
        with concurrent.futures.ThreadPoolExecutor(min(n, NCPU)) as ex:
            res = list(ex.map(lambda p: self._run_harness(exe, p, fill), parts))
        out = [[] for _ in scens]
        for k in range(n):
            for j, e in enumerate(res[k]):
                out[k + j * n] = e
        return out

    # ---- TLC -------------------------------------------------------------
    def java_dir(self):
        d = os.path.join(self.tmp, "classes")
        if not os.path.isdir(d):
            os.makedirs(d)
            src = sorted(glob.glob(os.path.join(HERE, "java", "*.java")))
            r = subprocess.run(["javac", "-nowarn", "-cp", JARS, "-d", d] + src,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                raise ToolError("javac: " + r.stdout)
        return d

    def tlc(self, module, cfg, env=None, args=(), workers=1, timeout=800, heap="2g", lib=None):
        """Run TLC on spec/<module>.tla with config text cfg."""
        self._tlcn = getattr(self, "_tlcn", 0) + 1
        meta = tempfile.mkdtemp(prefix="tlc", dir=self.tmp)
        cfgf = os.path.join(meta, module + ".cfg")
        with open(cfgf, "w") as f:
            f.write(cfg)
        cmd = ["java", "-XX:+UseParallelGC" if workers > 1 else "-XX:+UseSerialGC", "-Xss512m", "-Xmx" + heap,
               "-DTLA-Library=" + (lib or ""), "-cp", self.java_dir() + ":" + JARS, "tlc2.TLC",
               "-noGenerateSpecTE", "-nowarning", "-metadir", meta, "-workers", str(workers),
               "-config", cfgf] + list(args) + [os.path.join(SPEC, module + ".tla")]
        e = dict(os.environ)
        e.update(env or {})
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=e,
                               stdin=subprocess.DEVNULL, cwd=SPEC, timeout=timeout, errors="replace")
        except subprocess.TimeoutExpired:
            raise ToolError("TLC timeout on %s" % module)
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        return p.returncode, p.stdout

    def mc(self, module, cfg, env=None, workers=NCPU, timeout=800, heap="8g", label=None, lib=None):
        """Model-check a specification; any error is an error of the model, hence of the machinery."""
        t = time.time()
        rc, out = self.tlc(module, cfg, env=env, workers=workers, timeout=timeout, heap=heap, lib=lib)
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        if rc != 0 or "No error has been found" not in out or not m:
            raise ToolError("model checking of %s failed:\n%s" % (module, out[-4000:]))
        gen, dist = int(m[-1][0]), int(m[-1][1])
        self.states += dist
        self.transitions += gen
        self.mc_runs.append({"model": label or module, "states": dist, "transitions": gen,
                             "wall_s": round(time.time() - t, 1)})
        self.log("model %s: %d distinct states, %d transitions" % (label or module, dist, gen))
        return out

    def self_check(self, module, cfg, env=None):
        """TLC's override class for a module against the TLA+ definitions it stands for: <module>Self compares
        the overridden operators with those of a copy of the module that has no override."""
        d = os.path.join(self.tmp, "pure")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(SPEC, module + ".tla")) as f:
            src = f.read().replace("MODULE %s " % module, "MODULE %sPure " % module, 1)
        with open(os.path.join(d, module + "Pure.tla"), "w") as f:
            f.write(src)
        self.mc(module + "Self", cfg + "\nSPECIFICATION Spec\nINVARIANT Agree\nCHECK_DEADLOCK FALSE\n", env=env,
                label=module + "Self(override = definition)", lib=d)

    def simulate(self, module, cfg, num, depth, env=None, timeout=300, workers=1):
        """Behaviours of a specification: JSON after the marker BEHAV printed by the module."""
        rc, out = self.tlc(module, cfg, env=env, workers=workers, timeout=timeout,
                           args=["-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(self.seed)])
        beh = behaviours(out)
        if not beh or rc != 0:
            raise ToolError("no behaviours from %s:\n%s" % (module, (re.findall(r"Error:[\s\S]{0,900}", out) or [out])[0][-3000:]))
        return beh

    def enumerate(self, module, cfg, env=None, timeout=600, heap="4g"):
        out = self.mc(module, cfg, env=env, workers=1, timeout=timeout, heap=heap)
        return behaviours(out)

    # ---- trace validation ------------------------------------------------
    def _validate_shard(self, module, cfg, evlists, env, tag):
        path = os.path.join(self.tmp, "trace-%s.ndjson" % tag)
        with open(path, "w") as f:
            for evs in evlists:
                for e in evs:
                    f.write(json.dumps(e, separators=(",", ":")) + "\n")
        e = {"TRACE": path}
        e.update(env or {})
        rc, out = self.tlc(module, cfg, env=e, timeout=850)
        os.unlink(path)
        acc = re.search(r'<<"ACCEPTED", (\d+)>>', out)
        rej = re.search(r'<<"REJECTED", (\d+)>>', out)
        st = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
        if acc and rc == 0:
            return ("ok", int(acc.group(1)), int(st.group(2)), int(st.group(1)))
        if rej:
            return ("rejected", int(rej.group(1)))
        raise ToolError("trace validation with %s failed:\n%s" % (module, out[-4000:]))

    def validate(self, module, scens, evlists, variant, cfg=None, env=None, fill=0xA5, per=150):
        """TLC decides whether every recorded scenario is a behaviour of the specification."""
        cfg = cfg or TRACE_CFG
        # a trace that was already accepted in this run (from another build of the library) stays accepted
        key = [hashlib.sha256((module + str(cfg) + str(env) + json.dumps(e)).encode()).digest() for e in evlists]
        same = [i for i in range(len(evlists)) if evlists[i] and key[i] in self.accepted]
        self.traces += len(same)
        self.events += sum(len(evlists[i]) for i in same)
        done = [i for i in range(len(evlists)) if evlists[i] and key[i] not in self.accepted]
        if not done:
            return
        scens, evlists, key = [scens[i] for i in done], [evlists[i] for i in done], [key[i] for i in done]
        total = sum(len(e) for e in evlists)
        n = max(1, min(NCPU, total // per, len(evlists)))
        # balance the shards by size
        idx = sorted(range(len(evlists)), key=lambda i: -weight(evlists[i]))
        shards = [[] for _ in range(n)]
        load = [0] * n
        for i in idx:
            k = load.index(min(load))
            shards[k].append(i)
            load[k] += weight(evlists[i])
        self._vn = getattr(self, "_vn", 0) + 1
        tagb = "%d" % self._vn

        def run(k):
            return self._validate_shard(module, cfg, [evlists[i] for i in shards[k]], env, "%s-%d" % (tagb, k))
        with concurrent.futures.ThreadPoolExecutor(n) as ex:
            res = list(ex.map(run, range(n)))
        for k, r in enumerate(res):
            if r[0] == "ok":
                self.states += r[2]
                self.transitions += r[3]
                self.traces += len(shards[k])
                self.events += r[1]
                self.accepted.update(key[i] for i in shards[k])
                continue
            if len(self.violations) >= 2:
                continue
            pos = r[1]
            for i in shards[k]:
                if pos <= len(evlists[i]):
                    break
                pos -= len(evlists[i])
            self._confirm(module, scens[i], evlists[i], pos, variant, cfg, env, fill)
        if evlists and len(self.samples) < 12:
            i = self.rng.randrange(len(evlists))
            self.samples.append({"variant": variant, "spec": module,
                                 "trace": json.loads(clip(json.dumps(evlists[i][:6])))})

    def _confirm(self, module, scen, evs, pos, variant, cfg, env, fill):
        """A rejection counts only if it repeats: on a fresh run of the real code, or at least on the recorded one alone."""
        again = self._run_harness(self.build(variant), [scen], fill)[0]
        r = self._validate_shard(module, cfg, [again], env, "confirm")
        if r[0] == "ok":
            # the code behaves differently from run to run: the recorded execution still has to be explained
            again = evs
            r = self._validate_shard(module, cfg, [again], env, "confirm")
            if r[0] == "ok":
                raise ToolError("rejection by %s did not repeat: %s" % (module, clip(json.dumps(evs[pos - 1]))))
        self._record(module, scen, again, r[1], variant)

    def _record(self, module, scen, evs, pos, variant):
        d = os.path.join(HERE, "out")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%d.json" % (self.pid, len(self.violations) + 1))
        bad = evs[pos - 1]
        info = {"property": self.pid, "spec": module, "variant": variant,
                "commands": [command_line(c) for c in scen], "rejected_event_index": pos,
                "rejected_event": bad, "events": evs}
        if bad["op"] == "CRASH":
            info["crash"] = getattr(self, "last_crash", None)
        with open(path, "w") as f:
            json.dump(info, f)
        self.violations.append(path)
        self.log("REJECTED by %s (variant %s) at event %d: %s" %
                 (module, variant, pos, clip(command_line(scen[pos - 1]) if pos <= len(scen) else "?", 400)))
        self.log("  recorded: " + clip(json.dumps(bad), 600))

    def conform(self, module, scens, variants, env=None, fill=0xA5):
        for v in variants:
            if self.violations:
                return
            evs = self.replay(v, scens, fill)
            self.validate(module, scens, evs, v, env=env, fill=fill)
            self.log("%s: %d scenarios, %d events validated (variant %s)" %
                     (module, len(scens), sum(len(e) for e in evs), v))


TRACE_CFG = "SPECIFICATION TraceSpec\nPOSTCONDITION Accepted\nCHECK_DEADLOCK FALSE\n"


def weight(evs):
    return sum(20 + len(str(e["a"])) + len(str(e["r"])) for e in evs)


def clip(s, n=3000):
    if len(s) <= n:
        return s
    return s[:n] + "..." if not s.startswith("[") else json.dumps(["clipped", s[:n]])


def behaviours(out):
    res = []
    for line in out.split("\n"):
        m = re.match(r'^<<"BEHAV", "(.*)">>$', line)
        if m:
            res.append(json.loads(m.group(1).replace('\\"', '"').replace("\\\\", "\\")))
    return res
