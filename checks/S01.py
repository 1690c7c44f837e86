"""S01: strings, vectors, bytevectors. Every operation with every valid combination of lengths, start, end, destination and aliasing up to a bound, and every sequence of mutations up to a depth on two objects; oracle: Python sequences."""
import sys, os, re, itertools, struct
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

c = Check("S01", "model_checking")
c.build("rel")
quick = c.quick
L = 4 if quick else 5
PRE = IMPORTS + "(import (meevax vector homogeneous))\n"

class Kind: pass
def kind(name, alphabet, lit1, wrap, ops):
    k = Kind(); k.name = name; k.alphabet = alphabet; k.lit = lit1; k.wrap = wrap
    for o, v in ops.items(): setattr(k, o, v)
    return k
STR = kind("string", [Char(ord(x)) for x in "ab\u03bb\U0001f642c\u00e9"], lit, lambda xs: "".join(chr(x) for x in xs),
  dict(make="make-string", new="string", ref="string-ref", set="string-set!", length="string-length", copy="string-copy", copyx="string-copy!", fill="string-fill!", append="string-append", tolist="string->list", fromlist="list->string", pred="string?"))
VEC = kind("vector", [Sym("a"), 1, "s", 2.5, [1], Char(65)], lambda x: "'" + lit(x), tuple,
  dict(make="make-vector", new="vector", ref="vector-ref", set="vector-set!", length="vector-length", copy="vector-copy", copyx="vector-copy!", fill="vector-fill!", append="vector-append", tolist="vector->list", fromlist="list->vector", pred="vector?"))
BYT = kind("bytevector", [0, 255, 65, 128, 7, 195], str, bytes,
  dict(make="make-bytevector", new="bytevector", ref="bytevector-u8-ref", set="bytevector-u8-set!", length="bytevector-length", copy="bytevector-copy", copyx="bytevector-copy!", fill=None, append="bytevector-append", tolist=None, fromlist=None, pred="bytevector?"))
def homog(tag, alphabet):
    v = tag + "vector"
    f = tag[0] == "f"
    return kind(v, alphabet, lit, list, dict(make="make-" + v, new=v, ref=v + "-ref", set=v + "-set!", length=v + "-length", copy=v + "-copy", copyx=v + "-copy!", fill=None, append=v + "-append", tolist=v + "->list", fromlist="list->" + v, pred=v + "?"))
HOM = [homog("u%d" % b, [0, 2 ** b - 1, 65, 2 ** (b - 1), 7, 3]) for b in (8, 16, 32, 64)] + [homog("s%d" % b, [0, 2 ** (b - 1) - 1, -1, -2 ** (b - 1), 7, -3]) for b in (8, 16, 32, 64)] + \
      [homog("f32", [0.0, 1.5, -2.25, 65536.0, -0.5, 3.0]), homog("f64", [0.0, 1.1, -2.25, 1e300, 5e-324, 3.0])]
KINDS = [STR, VEC, BYT] + HOM

def src(k, xs): return "(%s%s)" % (k.new, "".join(" " + k.lit(x) for x in xs))
def out(k, xs): return k.wrap(xs)
def show(k, v): return "(%s %s)" % (k.tolist, v) if k.name[-6:] == "vector" and k not in (VEC, BYT) else v
def base(k, n, off=0): return [k.alphabet[(off + i) % len(k.alphabet)] for i in range(n)]
def ranges(n):
    yield (), 0, n
    for s in range(n + 1):
        yield (s,), s, n
        for e in range(s, n + 1): yield (s, e), s, e
def args(t): return "".join(" %d" % x for x in t)

cases, want, part = [], [], None
def begin(p):
    global cases, want, part
    cases, want, part = [], [], p
def add(prog, value): cases.append(prog); want.append(ser(value))
def done(pre=None, **kw):
    if c.part(part):
        if part.startswith("f32"): want[:] = [re.sub("f:([0-9a-f]{16})", lambda m: "s:%08x" % struct.unpack("<I", struct.pack("<f", struct.unpack("<d", struct.pack("<Q", int(m.group(1), 16)))[0])), w) for w in want]
        c.states += len(set(want)); c.transitions += len(cases)
        c.compare(part, cases, want, pre or PRE, **kw)

# ---- single operations
for k in KINDS:
    begin(k.name + "/access")
    for n in range(L + 2):
        xs = base(k, n)
        add("(let ((v %s)) (list (%s v) (%s v) %s))" % (src(k, xs), k.pred, k.length, show(k, "v")), [True, n, out(k, xs)])
        for x in k.alphabet: add("(let ((v (%s %d %s))) (list (%s v) %s))" % (k.make, n, k.lit(x), k.length, show(k, "v")), [n, out(k, [x] * n)])
        add("(%s (%s %d))" % (k.length, k.make, n), n)
        for i in range(n):
            add("(%s %s %d)" % (k.ref, src(k, xs), i), xs[i])
            for x in k.alphabet:
                ys = xs[:i] + [x] + xs[i + 1:]
                add("(let ((v %s)) (%s v %d %s) (list %s (%s v %d)))" % (src(k, xs), k.set, i, k.lit(x), show(k, "v"), k.ref, i), [out(k, ys), x])
    for n in (100, 1000, 70000):
        x, y = k.alphabet[0], k.alphabet[1]
        for i in (0, 63, 99, n - 1): add("(let ((v (%s %d %s))) (%s v %d %s) (list (%s v) (%s v %d) (%s v %d)))" % (k.make, n, k.lit(x), k.set, i, k.lit(y), k.length, k.ref, i, k.ref, (i + 1) % n), [n, y, x])
    done()
    begin(k.name + "/copy")
    for n in range(L + 1):
        xs = base(k, n)
        for a, s, e in ranges(n):
            ops = [k.copy] + (["substring"] if k is STR and len(a) == 2 else [])
            for op in ops:
                # a fresh object: changing the result leaves the argument, and the other way round
                add("(let* ((v %s) (r (%s v%s)) (n (%s r))) (if (< 0 n) (begin (%s r 0 %s) (%s v %d %s))) (list n %s %s (eq? v r)))" % (
                    src(k, xs), op, args(a), k.length, k.set, k.lit(k.alphabet[5]), k.set, max(e - 1, 0), k.lit(k.alphabet[4]), show(k, "r"), show(k, "v")),
                    [e - s, out(k, ([k.alphabet[5]] + xs[s + 1:e]) if s < e else []), out(k, xs[:e - 1] + [k.alphabet[4]] + xs[e:] if s < e else xs), False])
            if k.tolist and (k in (STR, VEC) or not a):
                add("(let* ((v %s) (r (%s v%s))) (list r %s))" % (src(k, xs), k.tolist, args(a), show(k, "v")), [xs[s:e], out(k, xs)])
        if k.fromlist:
            add("(let* ((l (list%s)) (r (%s l))) (if (pair? l) (set-car! l %s)) (list %s (length l)))" % ("".join(" " + k.lit(x) for x in xs), k.fromlist, k.lit(k.alphabet[5]), show(k, "r")), [out(k, xs), n])
            if k in (STR, VEC): add("(%s (%s %s))" % (k.fromlist, k.tolist, src(k, xs)), out(k, xs))
    done()
    begin(k.name + "/copy!")
    for n in range(L + 1):
        for m in range(L + 1):
            xs, ys = base(k, n), base(k, m, 3)
            for a, s, e in ranges(m):
                for at in range(0, n - (e - s) + 1):
                    zs = xs[:at] + ys[s:e] + xs[at + e - s:]
                    add("(let ((v %s) (w %s)) (%s v %d w%s) (list %s %s))" % (src(k, xs), src(k, ys), k.copyx, at, args(a), show(k, "v"), show(k, "w")), [out(k, zs), out(k, ys)])
    for n in range(L + 3):
        xs = base(k, n)
        for a, s, e in ranges(n):
            for at in range(0, n - (e - s) + 1):
                add("(let ((v %s)) (%s v %d v%s) %s)" % (src(k, xs), k.copyx, at, args(a), show(k, "v")), out(k, xs[:at] + xs[s:e] + xs[at + e - s:]))
    done()
    begin(k.name + "/fill and append")
    if k.fill:
        for n in range(L + 1):
            xs = base(k, n)
            for a, s, e in ranges(n):
                for x in k.alphabet[:3]:
                    add("(let ((v %s)) (%s v %s%s) v)" % (src(k, xs), k.fill, k.lit(x), args(a)), out(k, xs[:s] + [x] * (e - s) + xs[e:]))
    for cnt in (range(0, 4) if k in (STR, VEC, BYT) else (2,)):
        for ns in itertools.product(range(L if cnt < 3 else 3), repeat=cnt):
            vs = [base(k, n, i * 2) for i, n in enumerate(ns)]
            let = " ".join("(v%d %s)" % (i, src(k, v)) for i, v in enumerate(vs))
            add("(let* (%s (r (%s%s))) (if (< 0 (%s r)) (%s r 0 %s)) (list %s%s))" % (let, k.append, "".join(" v%d" % i for i in range(cnt)), k.length, k.set, k.lit(k.alphabet[5]), show(k, "r"), "".join(" " + show(k, "v%d" % i) for i in range(cnt))),
                [out(k, ([k.alphabet[5]] + sum(vs, [])[1:]) if sum(ns) else [])] + [out(k, v) for v in vs])
    add("(let ((v %s)) (let ((r (%s v v))) %s))" % (src(k, base(k, 3)), k.append, show(k, "r")), out(k, base(k, 3) * 2))
    done()

# ---- conversions between kinds
begin("conversions")
for n in range(L + 1):
    xs = base(STR, n)
    s = out(STR, xs)
    for a, b, e in ranges(n):
        add("(let* ((s %s) (r (string->vector s%s))) (if (< 0 (vector-length r)) (vector-set! r 0 'z)) (list r s))" % (lit(s), args(a)), [tuple(([Sym("z")] + xs[b + 1:e]) if b < e else []), s])
        add("(let* ((v %s) (r (vector->string v%s))) (list r v))" % (src(VEC, xs), args(a)), [s[b:e], tuple(xs)])
        add("(string->utf8 %s%s)" % (lit(s), args(a)), s[b:e].encode())
        add("(utf8->string (string->utf8 %s)%s)" % (lit(s), args((len(s[:b].encode()), len(s[:e].encode())) if len(a) == 2 else (len(s[:b].encode()),) if len(a) == 1 else ())), s[b:e])
        add("(substring %s %d %d)" % (lit(s), b, e), s[b:e])
for bs in itertools.product([0x41, 0x7f, 0], repeat=3): add("(utf8->string %s)" % src(BYT, bs), bytes(bs).decode())
done()

# ---- comparison
ST = ["".join(x) for n in range(4 if quick else 5) for x in itertools.product("aB\u03bb" if quick else "aB\u03bb", repeat=n)] + ["ab", "abc", "\U0001f642", "z", "a\u0000", "\uffff", "\U00010000"]
import operator
OPS = {"string=?": operator.eq, "string<?": operator.lt, "string>?": operator.gt, "string<=?": operator.le, "string>=?": operator.ge}
begin("comparison")
for a in ST:
    add("(map (lambda (b) (list (string=? %s b) (string<? %s b) (string>? %s b) (string<=? %s b) (string>=? %s b))) (list %s))" % ((lit(a),) * 5 + (" ".join(map(lit, ST)),)), [[f([ord(x) for x in a], [ord(x) for x in b]) for f in OPS.values()] for b in ST])
SM = ["", "a", "b", "ab", "\u03bb"]
for t in itertools.chain(itertools.product(SM, repeat=3), itertools.product(SM[1:4], repeat=4)):
    add("(list %s)" % " ".join("(%s %s)" % (o, " ".join(map(lit, t))) for o in OPS), [all(f(x, y) for x, y in zip(t, t[1:])) for f in OPS.values()])
VS = [list(x) for n in range(3) for x in itertools.product([1, 2], repeat=n)]
for k in KINDS:
    for a in VS:
        for b in VS:
            if k is STR: x, y = src(k, [Char(64 + i) for i in a]), src(k, [Char(64 + i) for i in b])
            elif k.name[0] == "f": x, y = src(k, [float(i) for i in a]), src(k, [float(i) for i in b])
            else: x, y = src(k, a), src(k, b)
            add("(let ((a %s) (b %s)) (list (equal? a b) (equal? b a) (eqv? a a)))" % (x, y), [a == b, a == b, True])
done()

# ---- mapping
begin("mapping")
def q(xs): return [Sym("a%d" % x) if False else x for x in xs]
for cnt in (1, 2, 3):
    for ns in itertools.product(range(L if cnt < 3 else 4), repeat=cnt):
        m = min(ns)
        vs = [list(range(10 * i, 10 * i + n)) for i, n in enumerate(ns)]
        V = " ".join(src(VEC, v).replace("'", "") for v in vs)
        rows = [[v[i] for v in vs] for i in range(m)]
        add("(vector-map list %s)" % V if cnt > 1 else "(vector-map (lambda (x) (list x)) %s)" % V, tuple(rows))
        add("(let ((r '())) (vector-for-each (lambda x (set! r (cons x r))) %s) (reverse r))" % V, rows)
        ss = ["".join(chr(97 + 8 * i + j) for j in range(n)) for i, n in enumerate(ns)]
        S = " ".join(map(lit, ss)); srows = [[Char(ord(s[i])) for s in ss] for i in range(m)]
        add("(let ((r '())) (string-for-each (lambda x (set! r (cons x r))) %s) (reverse r))" % S, srows)
        add("(string-map (lambda (x . r) (if (pair? r) (car (reverse r)) (char-upcase x))) %s)" % S, "".join(s[-1:] if False else chr(row[-1]) if cnt > 1 else chr(row[0]).upper() for row in srows for s in [""]))
        add("(let* ((v %s) (w (vector-map (lambda x 0) v))) (if (< 0 (vector-length w)) (vector-set! w 0 9)) v)" % src(VEC, vs[0]).replace("'", ""), tuple(vs[0]))
for n in range(5):
    for i in range(n):
        # an escape in the middle leaves the elements before it done and those after it untouched
        add("(let ((r '())) (call/cc (lambda (k) (vector-for-each (lambda (x) (if (= x %d) (k 0)) (set! r (cons x r))) %s))) (reverse r))" % (i, src(VEC, range(n)).replace("'", "")), list(range(i)))
        add("(let ((r '())) (call/cc (lambda (k) (string-for-each (lambda (x) (if (char=? x #\\%s) (k 0)) (set! r (cons x r))) \"%s\"))) (reverse r))" % (chr(97 + i), "abcde"[:n]), [Char(97 + j) for j in range(i)])
done()

# ---- sequences of mutations on two objects: explicit exploration of the state space, every transition replayed on the implementation
def alphabet(k, n):
    ops = []
    A = k.alphabet
    for i in range(n):
        ops.append(("(%s v %d %s)" % (k.set, i, k.lit(A[0])), ("set", "v", i, A[0])))
        ops.append(("(%s w %d %s)" % (k.set, i, k.lit(A[5])), ("set", "w", i, A[5])))
    for d, s in (("v", "w"), ("w", "v"), ("v", "v")):
        for b in range(n):
            for e in range(b + 1, n + 1):
                for at in range(n - (e - b) + 1):
                    if (d, at) != (s, b): ops.append(("(%s %s %d %s %d %d)" % (k.copyx, d, at, s, b, e), ("copy", d, at, s, b, e)))
    if k.fill:
        for d in "vw":
            for b in range(n): ops.append(("(%s %s %s %d)" % (k.fill, d, k.lit(A[1]), b), ("fill", d, A[1], b, n)))
    ops.append(("(set! v (%s w))" % k.copy, ("dup", "v", "w")))
    ops.append(("(set! w (%s (%s v 0 1) (%s w 1)))" % (k.append, k.copy, k.copy), ("app", "w", "v", 1)))
    return ops
def apply_op(st, op):
    st = {"v": list(st[0]), "w": list(st[1])}
    if op[0] == "set": st[op[1]][op[2]] = op[3]
    elif op[0] == "copy": _, d, at, s, b, e = op; x = st[s][b:e]; st[d][at:at + e - b] = x
    elif op[0] == "fill": _, d, x, b, e = op; st[d][b:e] = [x] * (e - b)
    elif op[0] == "dup": st[op[1]] = list(st[op[2]])
    elif op[0] == "app": _, d, s, b = op; st[d] = st[s][:b] + st[d][b:]
    return (tuple(map(tuple, [])) if False else tuple(map(freeze, st["v"])), tuple(map(freeze, st["w"])))
def freeze(x): return x if not isinstance(x, list) else ("L",) + tuple(x)
def thaw(x): return list(x[1:]) if isinstance(x, tuple) else x
for k in (STR, VEC, BYT, HOM[0], HOM[5], HOM[9]) if quick else KINDS:
    begin(k.name + "/sequences")
    n = 3
    ops = alphabet(k, n)
    init = (tuple(map(freeze, base(k, n))), tuple(map(freeze, base(k, n, 2))))
    seen = {init: ()}; frontier = [init]; depth = 0
    limit = 9000 if quick else 60000
    while frontier and len(cases) < limit:
        nxt = []
        for st in frontier:
            for t, op in ops:
                st2 = apply_op(tuple([thaw(x) for x in s] for s in st), op)
                path = seen[st] + (t,)
                add("(let ((v %s) (w %s)) %s (list %s %s))" % (src(k, base(k, n)), src(k, base(k, n, 2)), " ".join(path), show(k, "v"), show(k, "w")), [out(k, [thaw(x) for x in st2[0]]), out(k, [thaw(x) for x in st2[1]])])
                if st2 not in seen: seen[st2] = path; nxt.append(st2)
            if len(cases) >= limit: break
        else: depth += 1
        frontier = nxt
    c.cov.setdefault("sequence_state_spaces", {})[k.name] = {"states": len(seen), "transitions": len(cases), "complete_depth": depth}
    done()
c.traces_validated = c.transitions
c.finish("every operation x every length up to the bound x every valid start, end and destination (same and different objects); sequences: breadth-first exploration of the contents of two objects of length 3 under every mutation, each transition replayed from the initial state", bounds={"length": L})
