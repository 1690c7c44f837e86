"""Driver shared by the checks: runs enumerated cases on the real interpreter, compares, reports, writes evidence."""
import argparse, json, os, subprocess, sys, tempfile, time, shutil, hashlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
sys.set_int_max_str_digits(0)
import mvbuild

VERIF = mvbuild.VERIF
NPROC = 8
MAX_REPORTED = 12

class Known:
    def __init__(self, pid):
        self.entries = []
        p = os.path.join(VERIF, "known_findings.txt")
        if os.path.exists(p):
            for line in open(p, encoding="utf-8"):
                if line.startswith("{"):
                    e = json.loads(line)
                    if e["property"] == pid:
                        self.entries.append(e)

def unescape_output(s):
    o, i = [], 0
    while i < len(s):
        if s[i] == "\\" and i + 1 < len(s):
            c = s[i + 1]
            if c == "n": o.append("\n"); i += 2; continue
            if c == "t": o.append("\t"); i += 2; continue
            if c == "\\": o.append("\\"); i += 2; continue
            if c == "x": o.append(chr(int(s[i + 2:i + 4], 16))); i += 4; continue
        o.append(s[i]); i += 1
    return "".join(o)

class R(tuple):
    """(status, value, trace, output) of one case"""
    __slots__ = ()
    @property
    def status(self): return self[0]
    @property
    def value(self): return self[1]
    @property
    def trace(self): return self[2]
    @property
    def output(self): return self[3]
    def brief(self): return "%s %s | trace %s | output %s" % (self[0], self[1], self[2], self[3])

class Check:
    def __init__(self, pid, level="exploration"):
        ap = argparse.ArgumentParser()
        ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
        ap.add_argument("--only", default=None, help="run only the named part(s), comma separated (development)")
        a = ap.parse_args()
        self.pid, self.tier, self.level = pid, a.tier, level
        self.only = a.only.split(",") if a.only else None
        self.quick = a.tier == "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.t0 = time.time()
        self.known = Known(pid)
        self.violations = []      # (key, text, replay path)
        self.known_hit = {}
        self.evaluations = 0
        self.distinct = set()
        self.samples = []
        self.parts = {}
        self.cov = {}
        self.assumptions = []
        self.work = tempfile.mkdtemp(prefix="mvx-%s-" % pid)
        self.built = {}
        self.replay_dir = os.path.join(VERIF, "evidence", "replay")
        self.states = 0
        self.transitions = 0
        self.traces_validated = 0

    # ---- building and running
    def build(self, flavour="rel", harnesses=("mvx",), shell=False):
        try:
            b = mvbuild.build(flavour, harnesses, shell)
        except mvbuild.BuildError as e:
            print("BUILD FAILED\n" + str(e), flush=True)
            sys.exit(3)
        self.built.setdefault(flavour, {}).update(b)
        return b

    def part(self, name):
        return self.only is None or name in self.only

    def run(self, cases, preamble="", flavour="rel", each=False, shared=False, cpu_ms=4000, batch=100000, exe="mvx", env=None, nproc=NPROC, args=(), confirming=False, grain=50):
        """Runs the programs (list of str); returns a list of R in order."""
        if not cases:
            return []
        exe = self.built[flavour][exe]
        pre = os.path.join(self.work, "pre-%s.ss" % hashlib.md5(preamble.encode()).hexdigest())
        open(pre, "w", encoding="utf-8").write(preamble)
        n = max(1, min(nproc, (len(cases) + grain - 1) // grain if not each else (len(cases) + 3) // 4))
        procs = []
        size = (len(cases) + n - 1) // n
        for k in range(n):
            chunk = cases[k * size:(k + 1) * size]
            if not chunk:
                continue
            f = tempfile.NamedTemporaryFile("wb", dir=self.work, delete=False)
            f.write(b"\0".join(c.encode("utf-8", "surrogatepass") for c in chunk) + b"\0"); f.close()
            o = open(f.name + ".out", "wb"); e = open(f.name + ".err", "wb")
            cmd = [exe, "-p", pre, "-t", str(cpu_ms), "-b", str(batch)] + (["-e"] if each else []) + (["-s"] if shared else []) + list(args) + [f.name]
            en = dict(os.environ); en["LC_ALL"] = "C.UTF-8"; en["TMPDIR"] = self.work
            en["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:symbolize=0:detect_stack_use_after_return=0:malloc_context_size=1:quarantine_size_mb=8"
            en["MALLOC_PERTURB_"] = "165" # freed memory is overwritten
            if env: en.update(env)
            procs.append((subprocess.Popen(cmd, stdout=o, stderr=e, env=en, cwd=self.work), f.name, k * size, len(chunk)))
        out = [None] * len(cases)
        for p, name, base, cnt in procs:
            rc = p.wait()
            data = open(name + ".out", "rb").read().decode("utf-8", "surrogateescape")
            err = open(name + ".err", "rb").read().decode("utf-8", "replace")
            for line in data.split("\n"):
                if not line:
                    continue
                f = line.split("\t")
                if len(f) != 5:
                    continue
                out[base + int(f[0])] = R((f[1], f[2], f[3], f[4]))
            for x in (name, name + ".out", name + ".err"):
                os.unlink(x)
            missing = [i for i in range(base, base + cnt) if out[i] is None]
            if missing:
                if rc == 3 and "preamble failed" in err and not confirming:
                    # the definitions shared by the cases do not even evaluate: every case that needs them fails
                    pass
                for i in missing:
                    out[i] = R(("K", "runner rc %d: %s" % (rc, err.strip()[-300:].replace("\n", "\\n").replace("\t", " ")), "", ""))
        return out

    # ---- judging
    def compare(self, name, cases, expected, preamble="", key=None, describe=None, norm=None, nontrivial=None, **kw):
        """cases: list of programs; expected: list of predicates/values.
        An expected item is a string (the value, status v), a tuple (status, value[, trace[, output]]) with None = any,
        or a callable R -> True/str (str: the reason it is wrong)."""
        if not self.part(name):
            return None
        t = time.time()
        res = self.run(cases, preamble, **kw)
        bad = []
        for i, (c, x, r) in enumerate(zip(cases, expected, res)):
            why = self.judge(x, r, norm)
            if why is not None:
                bad.append((i, why))
        self.account(name, cases, expected, res, nontrivial, time.time() - t)
        self.confirm(name, cases, expected, preamble, bad, norm, kw)
        return res

    def judge(self, x, r, norm=None):
        if callable(x):
            w = x(r)
            return None if w is True or w is None else (w if isinstance(w, str) else "rejected")
        if isinstance(x, str):
            x = ("v", x)
        for a, b, what in zip(x, r, ("status", "value", "trace", "output")):
            if a is None:
                continue
            if norm is not None:
                b = norm(b) if what == "value" else b
            if a != b:
                return "%s should be %s" % (what, a)
        return None

    def confirm(self, name, cases, expected, preamble, bad, norm, kw):
        if not bad:
            return
        kw = dict(kw)
        kw["cpu_ms"] = kw.get("cpu_ms", 4000) * 5
        kw["each"] = True
        head = bad[:40]
        res = self.run([cases[i] for i, _ in head], preamble, confirming=True, **kw)
        unconfirmed = []
        for (i, why), r in zip(head, res):
            why2 = self.judge(expected[i], r, norm)
            if why2 is None:
                unconfirmed.append((i, why))
            else:
                self.violate(name, cases[i], why2, r, preamble, expected[i])
        extra = len(bad) - len(head)
        if unconfirmed and not [1 for v in self.violations]:
            # fails only after the cases before it in the same process: repeat the whole run, history included
            kw2 = dict(kw); kw2["each"] = False
            res = self.run(cases, preamble, **kw2)
            again = [(i, self.judge(expected[i], res[i], norm)) for i, _ in bad if self.judge(expected[i], res[i], norm) is not None]
            for i, why in again[:3]:
                self.violate(name, "; after the preceding cases of the part\n" + cases[i], why, res[i], preamble, expected[i], history=cases[:i + 1])
            if not again:
                print("note: %d case(s) of part %s failed once and not again; not reported" % (len(unconfirmed), name), flush=True)
        if extra > 0:
            print("note: %d further failing case(s) in part %s" % (extra, name), flush=True)

    def is_known(self, case):
        for e in self.known.entries:
            if e["program"] == case:
                return e
        return None

    def violate(self, name, case, why, r, preamble="", expected=None, history=None):
        e = self.is_known(case)
        if e is not None and (e.get("observed") is None or r is None or self.judge(tuple(e["observed"]), R(r)) is None):
            self.known_hit[e["program"]] = e
            return
        os.makedirs(self.replay_dir, exist_ok=True)
        path = os.path.join(self.replay_dir, "%s-%d.json" % (self.pid, len(self.violations)))
        if len(self.violations) < 200:
            json.dump({"property": self.pid, "part": name, "case": case, "why": why, "observed": list(r) if r is not None else None,
                       "expected": expected if isinstance(expected, (str, tuple, list)) else repr(expected), "preamble": preamble, "history": history},
                      open(path, "w"), indent=1, ensure_ascii=True)
        self.violations.append((name, case, path))
        if len(self.violations) <= MAX_REPORTED:
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
            print("  part %s: %s" % (name, case.encode("ascii", "backslashreplace").decode()[:600]))
            print("  %s" % str(why).encode("ascii", "backslashreplace").decode()[:600])
            if r is not None:
                print("  got: %s" % R(r).brief().encode("ascii", "backslashreplace").decode()[:600], flush=True)

    def account(self, name, cases, expected, res, nontrivial=None, secs=0.0):
        n = len(cases)
        self.evaluations += n
        d = set()
        for c, r in zip(cases, res):
            if nontrivial is None or nontrivial(c, r):
                d.add(hash((r[0], r[1], r[2], r[3], name)))
        # distinct outcomes are counted over (part, observable outcome); distinct inputs are the cases themselves
        self.distinct |= d
        p = self.parts.setdefault(name, {"cases": 0, "distinct_outcomes": 0, "wall_s": 0.0})
        p["cases"] += n; p["distinct_outcomes"] += len(d); p["wall_s"] = round(p["wall_s"] + secs, 1)
        if len(self.samples) < 60:
            for k in (0, n // 3, 2 * n // 3):
                if k < n:
                    self.samples.append({"part": name, "case": cases[k][:300], "result": R(res[k]).brief()[:200]})
        print("part %-28s %8d cases %8d outcomes  %6.1f s" % (name, n, len(d), secs), flush=True)

    def known_probes(self, **kw):
        """Runs every known finding of the property and prints its KNOWN-FINDING line while it still fails as recorded."""
        es = [e for e in self.known.entries if e.get("probe", True)]
        by = {}
        for e in es:
            by.setdefault((e.get("preamble", ""), e.get("flavour", "rel"), e.get("shared", False)), []).append(e)
        for (pre, fl, sh), g in by.items():
            if fl not in self.built: self.build(fl)
            res = self.run([e["program"] for e in g], pre, flavour=fl, each=True, shared=sh, confirming=True, cpu_ms=3000, **kw)
            for e, r in zip(g, res):
                if self.judge(tuple(e["expected"]), r) is None:
                    continue
                if e.get("observed") is None or self.judge(tuple(e["observed"]), r) is None:
                    self.known_hit[e["program"]] = e
                else:
                    # fails differently from what is on record
                    self.known.entries.remove(e)
                    self.violate("known", e["program"], "expected %s; recorded failure %s" % (e["expected"], e["observed"]), r, pre, tuple(e["expected"]))

    def finish(self, rule, exhaustive=True, bounds=None, **extra):
        self.known_probes()
        for e in self.known_hit.values():
            print("KNOWN-FINDING: property=%s %s" % (self.pid, e["what"]))
        cov = {"evaluations": self.evaluations, "distinct_nontrivial": len(self.distinct), "rule": rule,
               "samples": self.samples[:40], "exhaustive": exhaustive, "parts": self.parts}
        if bounds: cov["bounds"] = bounds
        if self.states:
            cov["states"] = self.states
            cov["transitions"] = self.transitions
            cov["traces_validated_against_impl"] = self.traces_validated
        cov.update(self.cov); cov.update(extra)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "wall_s": round(time.time() - self.t0, 1), "assumptions": self.assumptions,
              "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w"), indent=1, ensure_ascii=True)
        shutil.rmtree(self.work, ignore_errors=True)
        print("%s %s: %d cases, %d distinct outcomes, %d violation(s), %d known finding(s), %.1f s" % (
            self.pid, self.tier, self.evaluations, len(self.distinct), len(self.violations), len(self.known_hit), time.time() - self.t0), flush=True)
        sys.exit(1 if self.violations else 0)

# ---- canonical serialisation of Python values, matching harness/mvx.hpp
import struct, fractions

class Sym(str):
    __slots__ = ()
class Char(int):
    __slots__ = ()
class Pair:
    __slots__ = ("car", "cdr")
    def __init__(self, a, d): self.car, self.cdr = a, d
class Nil:
    pass
NIL = Nil()
class Unspec:
    pass
UNSPEC = Unspec()
class Eof:
    pass
EOF = Eof()

def lst(xs, tail=NIL):
    r = tail
    for x in reversed(list(xs)):
        r = Pair(x, r)
    return r

def quoted(s, q):
    o = [q]
    for ch in s:
        k = ord(ch)
        if 0x20 <= k < 0x7f and ch not in '"|\\': o.append(ch)
        else: o.append("\\x%x;" % k)
    o.append(q)
    return "".join(o)

SYMOK = set("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789!$%&*/<=>?^_~+-.@")
def ser_symbol(n):
    if n in ("+", "-", "..."): return n
    if n and all(c in SYMOK for c in n) and not n[0].isdigit() and n[0] not in "+-.": return n
    return quoted(n, "|")

def ser_double(d):
    if d != d: return "f:nan"
    return "f:%016x" % struct.unpack("<Q", struct.pack("<d", d))[0]

def ser(x):
    """Python value -> canonical text. lists are Scheme proper lists, tuples are vectors, str strings, bytes bytevectors."""
    if x is True: return "#t"
    if x is False: return "#f"
    if isinstance(x, Char): return "c:%x" % int(x)
    if isinstance(x, int): return str(x)
    if isinstance(x, fractions.Fraction):
        return str(x.numerator) if x.denominator == 1 else "q:%d/%d" % (x.numerator, x.denominator)
    if isinstance(x, float): return ser_double(x)
    if isinstance(x, Sym): return ser_symbol(str(x))
    if isinstance(x, str): return quoted(x, '"')
    if isinstance(x, (bytes, bytearray)): return "#u8(" + " ".join(str(b) for b in x) + ")"
    if isinstance(x, list): return "(" + " ".join(ser(e) for e in x) + ")"
    if isinstance(x, tuple): return "#(" + " ".join(ser(e) for e in x) + ")"
    if x is NIL: return "()"
    if x is UNSPEC: return "<unspecified>"
    if x is EOF: return "<eof>"
    if isinstance(x, Pair):
        o = []
        while isinstance(x, Pair):
            o.append(ser(x.car)); x = x.cdr
        if x is NIL or x == []: return "(" + " ".join(o) + ")"
        if isinstance(x, list): return "(" + " ".join(o + [ser(e) for e in x]) + ")"
        return "(" + " ".join(o) + " . " + ser(x) + ")"
    raise TypeError(repr(x))

def lit(x):
    """Python value -> Scheme source text of a quoted datum."""
    if x is True: return "#t"
    if x is False: return "#f"
    if isinstance(x, Char): return "#\\x%x" % int(x)
    if isinstance(x, int): return str(x)
    if isinstance(x, fractions.Fraction): return str(x)
    if isinstance(x, float):
        if x != x: return "+nan.0"
        if x == float("inf"): return "+inf.0"
        if x == float("-inf"): return "-inf.0"
        return repr(x)
    if isinstance(x, Sym):
        s = ser_symbol(str(x)); return s
    if isinstance(x, str): return quoted(x, '"')
    if isinstance(x, (bytes, bytearray)): return "#u8(" + " ".join(str(b) for b in x) + ")"
    if isinstance(x, list): return "(" + " ".join(lit(e) for e in x) + ")"
    if isinstance(x, tuple): return "#(" + " ".join(lit(e) for e in x) + ")"
    if x is NIL: return "()"
    if isinstance(x, Pair):
        o = []
        while isinstance(x, Pair):
            o.append(lit(x.car)); x = x.cdr
        if x is NIL or x == []: return "(" + " ".join(o) + ")"
        if isinstance(x, list): return "(" + " ".join(o + [lit(e) for e in x]) + ")"
        return "(" + " ".join(o) + " . " + lit(x) + ")"
    raise TypeError(repr(x))

IMPORTS = "(import (scheme base) (scheme char) (scheme complex) (scheme cxr) (scheme eval) (scheme file) (scheme inexact) (scheme lazy) (scheme process-context) (scheme read) (scheme time) (scheme write) (scheme case-lambda) (verif))\n"
