"""M02: syntax-rules matches and instantiates as specified. Every pattern of a grammar, against every form in its neighbourhood, with a family of templates; oracle: a matcher written from R7RS 4.3.2."""
import sys, os, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

# data: symbols are str, numbers int, strings ("s", text), vectors ["v", ...], lists nested tuples (car, cdr) ending in ()
def L(xs, tail=()):
    for x in reversed(list(xs)): tail = (x, tail)
    return tail
def V(xs): return ("v", tuple(xs)) if False else Vec(xs)
class Vec:
    __slots__ = ("xs",)
    def __init__(self, xs): self.xs = tuple(xs)
    def __eq__(self, o): return isinstance(o, Vec) and self.xs == o.xs
    def __hash__(self): return hash(("vec", self.xs))
class Str(str): __slots__ = ()
class Esc:                                   # template (... t)
    __slots__ = ("t",)
    def __init__(self, t): self.t = t
def is_sym(x): return isinstance(x, str) and not isinstance(x, Str)
def is_pair(x): return isinstance(x, tuple) and x != ()
def show(x):
    if isinstance(x, Str): return '"%s"' % x
    if is_sym(x): return x
    if isinstance(x, bool): return "#t" if x else "#f"
    if isinstance(x, int): return str(x)
    if isinstance(x, Vec): return "#(" + " ".join(map(show, x.xs)) + ")"
    if isinstance(x, Esc): return "(... %s)" % show(x.t)
    o = []
    while is_pair(x): o.append(show(x[0])); x = x[1]
    return "(" + " ".join(o) + ("" if x == () else " . " + show(x)) + ")"
def canon(x):
    if isinstance(x, Str): return '"%s"' % x
    if is_sym(x): return ser_symbol(x)
    if isinstance(x, bool): return "#t" if x else "#f"
    if isinstance(x, int): return str(x)
    if isinstance(x, Vec): return "#(" + " ".join(map(canon, x.xs)) + ")"
    o = []
    while is_pair(x): o.append(canon(x[0])); x = x[1]
    return "(" + " ".join(o) + ("" if x == () else " . " + canon(x)) + ")"

def split(x):                                # list -> (items, tail)
    o = []
    while is_pair(x): o.append(x[0]); x = x[1]
    return o, x

class Rules:
    def __init__(self, ellipsis="...", lits=()): self.e, self.lits = ellipsis, lits
    def is_ell(self, x): return x == self.e and is_sym(x) and x not in self.lits
    def match(self, p, f, b):
        if is_sym(p):
            if p in self.lits: return is_sym(f) and f == p
            if p == "_": return True
            b[p] = f; return True
        if isinstance(p, Vec): return isinstance(f, Vec) and self.match(L(p.xs), L(f.xs), b)
        if is_pair(p):
            if is_pair(p[1]) and self.is_ell(p[1][0]):
                rest = p[1][1]; need = len(split(rest)[0])
                items, tail = split(f)
                n = len(items) - need
                if n < 0: return False
                rows = []
                for x in items[:n]:
                    r = {}
                    if not self.match(p[0], x, r): return False
                    rows.append(r)
                for v in self.vars(p[0]): b[v] = [r[v] for r in rows]
                for _ in range(n): f = f[1]
                return self.match(rest, f, b)
            return is_pair(f) and self.match(p[0], f[0], b) and self.match(p[1], f[1], b)
        if p == (): return f == ()
        return type(p) is type(f) and p == f
    def vars(self, p, d=0, out=None):        # pattern variable -> depth
        out = {} if out is None else out
        if is_sym(p):
            if p not in self.lits and p != "_" and not self.is_ell(p): out[p] = d
        elif isinstance(p, Vec): self.vars(L(p.xs), d, out)
        elif is_pair(p):
            if is_pair(p[1]) and self.is_ell(p[1][0]): self.vars(p[0], d + 1, out); self.vars(p[1][1], d, out)
            else: self.vars(p[0], d, out); self.vars(p[1], d, out)
        return out
    def tvars(self, t, out, esc=False):
        if is_sym(t): out.add(t)
        elif isinstance(t, Vec): self.tvars(L(t.xs), out, esc)
        elif isinstance(t, Esc): self.tvars(t.t, out, True)
        elif is_pair(t): self.tvars(t[0], out, esc); self.tvars(t[1], out, esc)
        return out
    def build(self, t, b, esc=False):
        if is_sym(t): return b.get(t, t) if not isinstance(b.get(t), list) else (_ for _ in ()).throw(ValueError("depth"))
        if isinstance(t, Vec): return Vec(split(self.build(L(t.xs), b, esc))[0])
        if isinstance(t, Esc): return self.build(t.t, b, True)
        if is_pair(t):
            n = 0; rest = t[1]
            while not esc and is_pair(rest) and self.is_ell(rest[0]): n += 1; rest = rest[1]
            if n: return L(self.rep(t[0], b, n, esc), self.build(rest, b, esc))
            return (self.build(t[0], b, esc), self.build(t[1], b, esc))
        return t
    def rep(self, t, b, n, esc):
        if n == 0: return [self.build(t, b, esc)]
        vs = [v for v in self.tvars(t, set()) if isinstance(b.get(v), list)]
        ls = {len(b[v]) for v in vs}
        if len(ls) != 1: raise ValueError("lengths")
        out = []
        for i in range(ls.pop()): out += self.rep(t, {**b, **{v: b[v][i] for v in vs}}, n - 1, esc)
        return out

# ---- patterns
VARS = "abcdefgh"
def patterns(size):
    """Pattern shapes with `size` leaves-or-ellipses; '?' stands for the next variable."""
    out = []
    def element(n):
        if n == 1: return ["?", "lit", "_", 1, Str("s"), ()] if size <= 3 else ["?", "lit", "_"] if size == 4 else ["?", "lit"] if size == 5 else ["?"]
        return [L(xs, tl) for xs, tl in lists(n - 1)] + [Vec(xs) for xs, tl in lists(n - 1) if tl == ()]
    memo_e, memo_l = {}, {}
    def el(n):
        if n not in memo_e: memo_e[n] = element(n)
        return memo_e[n]
    def seqs(n, ell):                        # sequences of items using n units; at most one ellipsis
        if n == 0: yield ([], False); return
        for k in range(1, n + 1):
            for e in el(k):
                for rest, used in seqs(n - k, ell): yield ([e] + rest, used)
                if ell and n - k >= 1 and e != ():
                    for rest, used in seqs(n - k - 1, False): yield ([e, "..."] + rest, True)
    def lists(n):
        r = []
        for xs, _ in seqs(n, True):
            r.append((xs, ()))
        if n >= 2:
            for xs, _ in seqs(n - 1, True): r.append((xs, "?"))
        # proper lists of no element are the atom ()
        return [x for x in r if x[0]]
    for xs, tl in lists(size): out.append(L(xs, tl))
    return out
def label(p, names):
    if p == "?" : return next(names)
    if isinstance(p, Vec): return Vec([label(x, names) for x in p.xs])
    if is_pair(p): a = label(p[0], names); return (a, label(p[1], names))
    return p

# ---- forms near a pattern
LEAVES = itertools.cycle([3, "x", L(["y", 4]), Str("z"), Vec([5]), ()])
def instances(p, R, counts=(0, 1, 2)):
    """All forms obtained by choosing a repetition count for every ellipsis; leaves vary in rotation."""
    def go(p):
        if is_sym(p):
            if p in R.lits: return [p]
            return [next(LEAVES)]
        if isinstance(p, Vec): return [Vec(split(x)[0]) for x in go(L(p.xs))]
        if is_pair(p):
            if is_pair(p[1]) and R.is_ell(p[1][0]):
                rests = go(p[1][1]); out = []
                for n in counts:
                    subs = [go(p[0]) for _ in range(n)]
                    picks = [[s[i % len(s)] for s in subs] for i in range(max([len(s) for s in subs] or [1]))]
                    picks += [[s[(i + j) % len(s)] for j, s in enumerate(subs)] for i in range(max([len(s) for s in subs] or [1]))] if n > 1 else []
                    for xs in picks:
                        for r in rests: out.append(L(xs, r))
                return out
            return [(a, d) for a in go(p[0]) for d in go(p[1])]
        return [p]
    return go(p)
def near(f):
    """All single edits of a form."""
    if is_pair(f):
        yield f[1]
        yield (f[0], f)
        yield 7
        for a in near(f[0]): yield (a, f[1])
        for d in near(f[1]): yield (f[0], d)
    elif isinstance(f, Vec):
        yield L(f.xs)
        for x in near(L(f.xs)):
            if split(x)[1] == (): yield Vec(split(x)[0])
    elif f == (): yield L([8]); yield 9
    else:
        yield "lit"; yield 1; yield L([f])
def ok_form(f): return split(f)[1] == () or True

# ---- templates
def templates(p, R):
    vs = R.vars(p); out = []
    def dots(t, d): return L([t] + ["..."] * d)
    for v, d in vs.items():
        if d == 0: out += [v, L(["k", v]), (v, v), Vec([v, 1])]
        if d == 1: out += [dots(v, 1), L([L([v, "k"]), "..."]), L([1, v, "...", v, "...", 2]), L([v, "..."], "k"), Vec([v, "..."])]
        if d == 2: out += [L([L([v, "..."]), "..."]), L([v, "...", "..."]), L([L(["k", v, "...", 1]), "..."]), Vec([Vec([v, "..."]), "...", 3])]
        if d == 3: out += [L([L([L([v, "..."]), "..."]), "..."]), L([v, "...", "...", "..."])]
    # two variables under one ellipsis: a row of one pattern, or one of them not repeated
    groups = group(p, R)
    for g in groups:
        if len(g) > 1 and all(vs[v] == 1 for v in g): out += [L([L(list(g)), "..."]), L([(g[1], g[0]), "..."])]
    d0 = [v for v in vs if vs[v] == 0]; d1 = [v for v in vs if vs[v] == 1]; d2 = [v for v in vs if vs[v] == 2]
    if d0 and d1: out.append(L([L([d0[0], d1[0]]), "..."])); out.append(L([d1[0], "..."], d0[0]))
    for g in groups2(p, R):
        a = [v for v in g if vs[v] == 1]; b = [v for v in g if vs[v] == 2]
        if a and b: out.append(L([L([a[0], b[0], "..."]), "..."]))
    # the pattern itself
    out.append(mirror(p, R))
    return out
def mirror(p, R):
    if is_sym(p): return "u" if p == "_" else p
    if isinstance(p, Vec): return Vec(split(mirror(L(p.xs), R))[0])
    if is_pair(p):
        if is_pair(p[1]) and R.is_ell(p[1][0]):
            t = mirror(p[0], R); rest = mirror(p[1][1], R)
            return L([t, R.e], rest) if R.vars(p[0]) else (t, rest)
        return (mirror(p[0], R), mirror(p[1], R))
    return p
def group(p, R):
    out = []
    def go(p):
        if isinstance(p, Vec): go(L(p.xs))
        elif is_pair(p):
            if is_pair(p[1]) and R.is_ell(p[1][0]): out.append([v for v, d in R.vars(p[0]).items() if d == 0]); go(p[0]); go(p[1][1])
            else: go(p[0]); go(p[1])
    go(p); return out
def groups2(p, R):
    out = []
    def go(p):
        if isinstance(p, Vec): go(L(p.xs))
        elif is_pair(p):
            if is_pair(p[1]) and R.is_ell(p[1][0]): out.append(list(R.vars(p[0]))); go(p[1][1])
            else: go(p[0]); go(p[1])
    go(p); return out

def main():
    c = Check("M02", "model_checking")
    c.build("rel")
    quick = c.quick
    PRE = "(import (scheme base) (verif))\n"
    def expansion(rules, f, R):
        for p, t in rules:
            b = {}
            if R.match(p, f, b): return canon(R.build(t, b))
        return None
    def emit(name, machines, per=60):
        """machines: (syntax-rules head, rules [(pattern, template)], R, forms)"""
        cases, exp, fails = [], [], []
        for k, (head, rules, R, forms) in enumerate(machines):
            good, want = [], []
            bad = []
            for f in dict.fromkeys(forms):
                try: x = expansion(rules, f, R)
                except ValueError: continue
                if x is None: bad.append(f)
                else: good.append("(m . %s)" % show(f)); want.append(x)
            define = "(define-syntax m (%s %s))\n" % (head, " ".join("(%s '%s)" % (show(("_", p)), show(t)) for p, t in rules))
            other = define.replace("define-syntax m ", "define-syntax m ", 1)
            for i in range(0, len(good), per):
                cases.append(define + "(list " + " ".join(good[i:i + per]) + ")"); exp.append("(" + " ".join(want[i:i + per]) + ")")
            for f in bad[:: max(1, len(bad) // (2 if quick else 6))]:
                fails.append(define + "(m . %s)" % show(f))
        c.compare(name, cases, exp, PRE)
        c.states += len(cases); c.transitions += sum(e.count("(m . ") for e in cases)
        c.compare(name + ", no match", fails, [("e", None)] * len(fails), PRE)
    R = Rules("...", ("lit",))
    allp = []
    for size in range(1, int(os.environ.get("M02N", 5)) if quick else 6):
        for p in patterns(size): allp.append(label(p, iter(VARS)))
    small = [p for p in allp if len(show(p)) < 16]
    print(len(allp), "patterns")
    if c.part("single rule"):
        ms = []
        for p in allp:
            fs = instances(p, R)[:6 if quick else 12]
            forms = fs + [g for f in fs[:3 if quick else 12] for g in near(f)]
            ts = templates(p, R)
            ms.append(("syntax-rules (lit)", [(p, L(ts))], R, forms))
        emit("single rule", ms)
    if c.part("two rules"):
        ps = [label(p, iter(VARS)) for n in range(1, 4) for p in patterns(n)]
        if quick: ps = ps[::7]
        forms = [L(xs, tl) for n in range(0, 4) for xs in itertools.product([1, "lit", L(["x"])], repeat=n) for tl in ((), 1) if n or tl == ()]
        ms = [("syntax-rules (lit)", [(p, L([1, mirror(p, R)])), (q, L([2, mirror(q, R)])), ("rest", L([3, "rest"]))], R, forms) for p, q in itertools.product(ps, repeat=2)]
        emit("two rules", ms)
    if c.part("ellipsis forms"):
        # custom ellipsis, the ellipsis as a literal, escaped ellipses
        ms = []
        for p in small[::3 if quick else 1]:
            sub = lambda x: ":::" if x == "..." else tuple(map(sub, x)) if isinstance(x, tuple) else Vec(map(sub, x.xs)) if isinstance(x, Vec) else x
            q = sub(p); R2 = Rules(":::", ("lit",))
            fs = instances(q, R2)[:5]
            ms.append(("syntax-rules ::: (lit)", [(q, L([mirror(q, R2), "...", L(["k", "..."])]))], R2, fs + [g for f in fs[:2] for g in near(f)]))
            R3 = Rules("...", ("lit", "..."))
            if "..." in show(p):
                fs = instances(p, R3)[:3]
                vs = R3.vars(p)
                ms.append(("syntax-rules (lit ...)", [(p, L(list(vs) + ["k"]))], R3, fs + [g for f in fs for g in near(f)]))
            fs = instances(p, R)[:5]
            vs = [v for v, d in R.vars(p).items() if d == 0]; ws = [v for v, d in R.vars(p).items() if d == 1]
            ts = [Esc("..."), Esc(L(["k", "..."])), L([1, Esc("..."), 2])] + [t for v in vs for t in (Esc(v), Esc(L([v, "..."])), L([v, Esc("...")]))]
            ts += [L([L([v, Esc("...")]), "..."]) for v in ws] + [L([Esc(L([v, "..."])), "..."]) for v in ws]
            ms.append(("syntax-rules (lit)", [(p, L(ts))], R, fs))
        emit("ellipsis forms", ms)
    c.traces_validated = c.transitions
    c.finish("every pattern up to the size, with the family of templates its variables admit, applied to every instance with 0-2 repetitions per ellipsis and every single edit of those; expansions compared as data with a reference matcher, unmatched uses must be errors",
             bounds={"pattern size": 4 if quick else 5, "rule pairs": "patterns up to size 3 x forms of length 0-3 over three elements, proper and dotted"})
if __name__ == "__main__": main()
