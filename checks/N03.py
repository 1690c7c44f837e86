"""N03: numbers to text and back, exactness conversions, comparisons of mixed exactness; oracle: Python's integers, fractions and correctly rounded floats."""
import sys, os, itertools, math, struct
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
from fractions import Fraction as F

c = Check("N03")
c.build()
quick = c.quick
PRE = IMPORTS + """
(define BIG (expt 2 70))
(define (dn x) (- (+ x BIG) BIG))
"""
INF, NAN = float("inf"), float("nan")
def bits(b): return struct.unpack("<d", struct.pack("<Q", b))[0]
DIG = "0123456789abcdefghijklmnopqrstuvwxyz"
def rad(n, r):
    if n < 0: return "-" + rad(-n, r)
    s = ""
    while True:
        s = DIG[n % r] + s; n //= r
        if n == 0: return s
def radq(x, r):
    x = F(x)
    return rad(x.numerator, r) + ("" if x.denominator == 1 else "/" + rad(x.denominator, r))

def split_top(s):
    o, d, cur = [], 0, ""
    for ch in s:
        if ch == " " and d == 0: o.append(cur); cur = ""; continue
        d += (ch == "(") - (ch == ")"); cur += ch
    return o + [cur]

# ---- exact numbers <-> text in every radix
mags = sorted(set(range(0, 40)) | {2**k + d for k in (5, 8, 16, 24, 31, 32, 33, 47, 48, 53, 62, 63, 64, 65, 70, 100, 128, 200) for d in (-1, 0, 1)} | {10**k + d for k in (1, 2, 5, 9, 10, 18, 19, 20, 21, 40) for d in (-1, 0, 1)} | {0xdeadbeef, 0xcafebabecafebabe})
ints = sorted({s * m for m in mags for s in (1, -1)})
dens = [2, 3, 7, 10, 16, 255, 2**32, 2**63 + 1, 10**19] + ([] if quick else [5, 6, 9, 2**31 - 1, 2**64, 3**50])
rats = sorted({F(n, d) for n in ints for d in dens})
cs, xs = [], []
for r in (2, 8, 10, 16):
    for x in ints + rats:
        if quick and r != 10 and isinstance(x, F) and x.denominator not in (3, 10, 2**32, 10**19): continue
        t = radq(x, r)
        cs.append('(let* ((x %s) (s (number->string x %d)) (y (string->number s %d))) (list s y (eqv? x y) (exact? y) (string->number "%s" %d)))' % (lit(x), r, r, t.upper() if r == 16 else t, r))
        xs.append(ser([t, x, True, True, x]))
for x in ints + rats:
    t = radq(x, 10)
    cs.append('(let* ((x %s) (s (number->string x)) (y (string->number s))) (list s (eqv? x y)))' % lit(x))
    xs.append(ser([t, True]))
    if isinstance(x, int):
        cs.append('(list #x%s #b%s #o%s #d%s #e%s #xa)' % (radq(x, 16), radq(x, 2), radq(x, 8), t, t)); xs.append(ser([x] * 5 + [10]))
c.compare("exact text", cs, xs, PRE)

# ---- doubles <-> decimal text, every binade
ms = [0, 1, 2, 0x5555555555555, 0x8000000000000, 0x8000000000001, 0xfffffffffffff, 0xaaaaaaaaaaaab] + ([] if quick else [3, 7, 0x123456789abcd, 0xffffffffffffe, 0x4000000000000, 0x7ffffffffffff, 0xfedcba9876543, 0x0000000ffffff])
es = range(0, 2047)
ds = [bits(e << 52 | m) for e in es for m in ms]
ds += [float("%de%d" % (m, e)) for m in (1, 2, 3, 5, 7, 9, 12, 25, 99, 123, 625, 999999, 1234567, 123456789012345678) for e in range(-30 if quick else -320, 31 if quick else 300, 1)]
ds = sorted(set(ds)); ds = ds + [-d for d in ds if d]
cs, xs = [], []
def dbl(d):
    b = ser_double(d)
    def ok(r):
        if r.status != "v" or not r.value.startswith('("'): return "expected a list"
        s = r.value[2:r.value.index('"', 2)]; rest = r.value[r.value.index('"', 2) + 1:]
        if rest != " %s %s #t)" % (b, b): return "expected %s back from the text" % b
        try: v = float(s)
        except ValueError: return "no decimal numeral: " + s
        return True if ser_double(v) == b else "text denotes %r, the number is %r" % (v, d)
    return ok
for d in ds:
    cs.append("(let* ((x %r) (s (number->string x)) (y (string->number s))) (list s x y (inexact? y)))" % d); xs.append(dbl(d))
c.compare("double text", cs, xs, PRE)

# ---- decimal literals: every composition of the grammar's parts
cs, xs = [], []
ips = ["", "0", "1", "7", "10", "12", "007", "123", "99999", "4294967296", "12345678901234567890"]
fps = [None, "", "0", "5", "25", "125", "001", "3333333333333333333", "10"]
exps = ["", "e0", "e1", "e-1", "e+2", "e10", "e-10", "e22", "e23", "e300", "e-300", "e308", "e309", "e-324", "e-400", "E2"]
for sg in ("", "+", "-"):
    for ip in ips:
        for fp in fps:
            for ex in exps:
                if not ip and not fp: continue
                t = sg + ip + ("" if fp is None else "." + fp) + ex
                if fp is None and not ex: v = int(sg + ip)
                else: v = float((sg + (ip or "0") + ("" if fp is None else "." + (fp or "0")) + ex))
                cs.append('(list (quote %s) (string->number "%s"))' % (t, t)); xs.append(ser([v, v]))
                if ex == "" and ip and (fp is None):
                    cs.append("(list #i%s #e%s)" % (t, t)); xs.append(ser([float(v), v]))
c.compare("decimal literals", cs, xs, PRE)

# ---- exact -> inexact is the nearest double; inexact -> exact is exact
near = set()
for k in (1, 23, 24, 52, 53, 54, 62, 63, 64, 65, 100, 1023, 1024):
    b = 2**k; u = max(1, 2**(k - 52))
    for off in (0, 1, -1):
        for q in (F(0), F(u, 2), F(u, 2) + F(1, 3), F(u, 2) - F(1, 3), F(u), F(3 * u, 2), F(u, 4), F(5 * u, 2)):
            near.add(F(b) + off * q)
for n in (1, 2, 3, 5, 7, 10, 22, 100, 355, 2**53 - 1, 2**53 + 1, 10**25, 10**400, 3**100):
    for d in (1, 2, 3, 7, 9, 10, 113, 1000, 2**53 - 1, 2**53 + 1, 2**60, 10**22, 10**25, 2**1074, 3 * 2**1073, 2**1075, 2**1076, 10**330, 7**200, 10**420):
        near.add(F(n, d))
for e in (0, 1, 2, 500, 1022, 1023, 1024, 1075, 1500, 2045, 2046):
    for m in (0, 1, 0xfffffffffffff, 0x8000000000000):
        x = bits(e << 52 | m); y = math.nextafter(x, INF)
        if y == INF: continue
        near.add((F(x) + F(y)) / 2); near.add((F(x) * 3 + F(y)) / 4); near.add((F(x) + 3 * F(y)) / 4)
near = sorted(near | {-x for x in near})
def tofloat(x):
    try: return float(F(x))
    except OverflowError: return INF if x > 0 else -INF
def fl0(x, v): return lambda r: True if r.status == "v" and r.value.replace("f:8000000000000000", "f:0000000000000000") == v.replace("f:8000000000000000", "f:0000000000000000") else "expected " + v
cs, xs = [], []
for x in near:
    if abs(x.numerator) > 10**900 or x.denominator > 10**900: continue
    d = tofloat(x)
    s = str(x)
    cs.append("(list (inexact %s) (* 1.0 %s))" % (s, s)); xs.append(fl0(x, ser([d, d])))
for d in sorted(set(ds[::(7 if quick else 1)])):
    cs.append("(let ((x (exact %r))) (list x (eqv? (inexact x) %r) (exact? x)))" % (d, d)); xs.append(ser([F(d), d != 0 or math.copysign(1, d) > 0, True]))
for d in (INF, -INF, NAN):
    cs.append("(call/cc (lambda (k) (with-exception-handler (lambda (e) (k 'error)) (lambda () (exact %s)))))" % lit(d)); xs.append(ser(Sym("error")))
c.compare("exactness", cs, xs, PRE)

# ---- mixed comparisons and extrema
A = [0, 1, -1, 2, 3, 2**31 - 1, 2**31, 2**53 - 1, 2**53, 2**53 + 1, 2**63, 2**64 + 1, 10**30, -2**53 - 1, -10**30, 10**310,
     F(1, 2), F(1, 3), F(-1, 3), F(2, 3), F(1, 10), F(3, 2), F(2**53 + 1, 2), F(10**30 + 1, 3), F(1, 10**30), F(7, 2)]
B = [0.0, -0.0, 0.5, 1.0, -1.0, 1.5, 2.0, 1/3, -1/3, 2/3, 0.1, 3.5, 2.0**31, 2.0**53, 2.0**53 + 2, 2.0**63, 2.0**64, 1e30, -1e30, 1e-30, 1e300, 5e-324, 1.7976931348623157e308, INF, -INF, NAN, math.nextafter(1.0, 2), math.nextafter(1/3, 1)]
EPS = 2.0**-52
def cmp(x, y):
    if x != x or y != y: return None
    if x == y: return 0
    fx = x if isinstance(x, float) and math.isinf(x) else F(x); fy = y if isinstance(y, float) and math.isinf(y) else F(y)
    return -1 if fx < fy else 1 if fx > fy else 0
OPS = {"<": lambda k: k == -1, ">": lambda k: k == 1, "<=": lambda k: k in (-1, 0), ">=": lambda k: k in (1, 0), "=": lambda k: k == 0}
def scoped(o, x, y):
    "False where = and the ordering with a NaN are recorded findings (tolerance of =, NaN)"
    if x != x or y != y: return o in "<>" and len(o) == 1
    if o == "=" and (isinstance(x, float) or isinstance(y, float)) and not isinstance(x, int) and not isinstance(y, int):
        if x == y or (isinstance(x, float) and math.isinf(x)) or (isinstance(y, float) and math.isinf(y)): return True
        return abs(F(x) - F(y)) > 2 * F(EPS)
    return True
cs, xs = [], []
def name(v): return lit(v)
for x in A + B:
    for y in A + B:
        k = cmp(x, y)
        for o, f in OPS.items():
            if scoped(o, x, y):
                cs.append("(%s %s %s)" % (o, name(x), name(y))); xs.append(ser(bool(f(k))))
        if k is None: continue
        for o, m in (("max", x if k >= 0 else y), ("min", x if k <= 0 else y)):
            inex = isinstance(x, float) or isinstance(y, float)
            v = tofloat(m) if inex and not isinstance(m, float) else m
            cs.append("(%s %s %s)" % (o, name(x), name(y))); xs.append(fl0(0, ser(v)))
c.compare("mixed comparison", cs, xs, PRE)
cs, xs = [], []
S = [0, 1, 2**53 + 1, F(1, 3), 10**30, 0.5, 1/3, 2.0**53, 1e30, INF, -INF, 2.0] + ([] if quick else A[:20:2] + B[:16:2])
for x, y, z in itertools.product(S, repeat=3):
    for o, f in OPS.items():
        if scoped(o, x, y) and scoped(o, y, z):
            cs.append("(%s %s %s %s)" % (o, name(x), name(y), name(z))); xs.append(ser(f(cmp(x, y)) and f(cmp(y, z))))
c.compare("ternary comparison", cs, xs, PRE)

# ---- rounding and classification of inexact numbers
def rnd(x):
    if math.isinf(x) or x != x: return x
    return math.copysign(float(round(F(x))), x)
R = sorted(set([0.0, 0.25, 0.5, 0.75, 1.0, 1.25, 1.5, 2.5, 3.5, 4.5, 1e15 + 0.5, 2.0**52 + 1, 2.0**52 - 0.5, 2.0**53, 1e300, 5e-324, 0.49999999999999994, INF] + [k / 8 for k in range(0, 48)] + [2.0**k + f for k in range(0, 53) for f in (0.5, 0.25, -0.5, 1.5)]))
R = R + [-x for x in R]
cs, xs = [], []
for x in R:
    fin = not math.isinf(x)
    f = lambda g: math.copysign(float(g(x)), x) if fin else x
    fx, ce, tr, ro = f(math.floor), f(math.ceil), f(math.trunc), rnd(x)
    if math.floor(x) == 0 if fin else False: fx = float(abs(fx))
    integral = fin and x == math.floor(x)
    cs.append("(list (floor %s) (ceiling %s) (truncate %s) (round %s))" % ((lit(x),) * 4)); xs.append(fl0(0, ser([fx, ce, tr, ro])))
    cs.append("(let ((x %s)) (list (integer? x) (rational? x) (real? x) (complex? x) (number? x) (exact? x) (inexact? x) (exact-integer? x) (finite? x) (infinite? x) (nan? x)))" % lit(x))
    xs.append(ser([integral, fin, True, True, True, False, True, False, fin, not fin, False]))
    cs.append("(let ((x %s)) (list (zero? x) (positive? x) (negative? x)))" % lit(x)); xs.append(ser([x == 0, x > 0, x < 0]))
    if fin:
        cs.append("(list (exact (floor %s)) (exact (ceiling %s)) (exact (truncate %s)) (exact (round %s)))" % ((lit(x),) * 4)); xs.append(ser([math.floor(x), math.ceil(x), math.trunc(x), round(F(x))]))
    if integral:
        cs.append("(list (even? %s) (odd? %s))" % ((lit(x),) * 2)); xs.append(ser([x % 2 == 0, x % 2 == 1]))
    cs.append("(list (abs %s) (- %s) (square %s))" % ((lit(x),) * 3)); xs.append(fl0(0, ser([abs(x), -x if x else 0.0, x * x])))
cs.append("(list (nan? +nan.0) (finite? +nan.0) (infinite? +nan.0) (number? +nan.0) (integer? +nan.0) (zero? +nan.0) (positive? +nan.0) (negative? +nan.0))")
xs.append(ser([True, False, False, True, False, False, False, False]))
c.compare("inexact rounding", cs, xs, PRE)

# ---- inexact arithmetic is IEEE double arithmetic, with exact operands converted to the nearest double
def ieee(o, x, y):
    x, y = tofloat(x) if not isinstance(x, float) else x, tofloat(y) if not isinstance(y, float) else y
    if o == "+": return x + y
    if o == "-": return x - y
    if o == "*": return x * y
    if y == 0: return NAN if x == 0 or x != x else math.copysign(INF, x) * math.copysign(1, y)
    return x / y
cs, xs = [], []
AB = A[:9] + A[16:20] + [10**30] if quick else A
for x in AB + B:
    for y in AB + B:
        if not (isinstance(x, float) or isinstance(y, float)): continue
        for o in "+-*/":
            if (x == 0 and isinstance(x, int)) or (y == 0 and isinstance(y, int)): continue
            v = ieee(o, x, y)
            cs.append("(%s %s %s)" % (o, name(x), name(y))); xs.append(fl0(0, ser(v)))
c.compare("inexact arithmetic", cs, xs, PRE)

# ---- square roots
cs, xs = [], []
for n in sorted(set(range(0, 30)) | {2**k + d for k in (15, 16, 31, 32, 40, 63, 64, 70) for d in (-1, 0, 1)}):
    cs.append("(list (sqrt (* %d %d)) (exact? (sqrt (* %d %d))))" % (n, n, n, n)); xs.append(ser([n, True]))
    for d in (2, 3, 10, 2**33):
        q = F(n, d)
        cs.append("(sqrt %s)" % (q * q)); xs.append(lambda r, q=q: True if r.status == "v" and r.value in (ser(q), ser(float(q)), ser(math.nextafter(float(q), 0)), ser(math.nextafter(float(q), math.inf))) else "expected %s or its double" % q)
    if n: cs.append("(exact? (sqrt (+ 1 (* %d %d))))" % (n, n)); xs.append(ser(False))
for x in [0.0, 0.25, 2.0, 3.0, 1e300, 1e-300, 5e-324, 12345.678, INF] + [float(k) for k in range(40)]:
    cs.append("(sqrt %s)" % lit(x)); xs.append(fl0(0, ser(math.sqrt(x))))
c.compare("square roots", cs, xs, PRE)

# ---- every text of numeric characters through string->number: the denoted number, or #f where the grammar certainly excludes a number
if c.part("texts"):
    import refread
    texts = ["".join(w) for n in range(1, 6 if quick else 7) for w in itertools.product("10.+-e/#xi", repeat=n)]
    texts += [p + "".join(w) for p in ("#b", "#o", "#d", "#x", "#e", "#i", "#B#E", "#x#i", "#e#x", "#I#o") for n in range(1, 4 if quick else 5) for w in itertools.product("1fA/.-e", repeat=n)]
    texts += [a + b for a in ("", "#e", "#i", "#x") for b in ("+inf.0", "-inf.0", "+nan.0", "-nan.0", "inf.0", "+inf.", "nan", "1e400", "-1e400", "1e-400", "#", "##", "#x", "#e", "", "-", "+", ".", "/", "1/", "/1", "e1", "1e", "1 ", " 1", "1_", "0x1", "1,0")]
    texts = list(dict.fromkeys(texts))
    def cert(t, radix):
        v = refread.number(t if radix == 10 or t[:1] == "#" and t[1:2].lower() in "bodx" else "#%s%s" % ({2: "b", 8: "o", 16: "x"}[radix], t))
        return v
    G = 50
    for radix in (10, 2, 8, 16):
        pool = texts if radix == 10 else [t for t in texts if len(t) <= (4 if quick else 5)]
        cs, xs = [], []
        for k in range(0, len(pool), G):
            ts = pool[k:k + G]
            want = [cert(t, radix) for t in ts]
            def j(r, ts=ts, want=want):
                if r.status != "v": return "string->number must return: %s" % r.status
                got = r.value[1:-1].split(" ")
                if len(got) != len(ts): got = split_top(r.value[1:-1])
                for t, g, w in zip(ts, got, want):
                    if w is None:
                        if g == "#f": continue
                        # only an extension of the grammar may be accepted, and none of these characters alone is a number
                        if not any(ch.isalnum() for ch in t) or t.strip() != t: return "%r should be #f, not %s" % (t, g)
                    elif isinstance(w, refread.Z): continue
                    elif g != ser(w): return "%r should be %s, not %s" % (t, ser(w), g)
                return True
            cs.append("(map (lambda (s) (string->number s%s)) (list %s))" % ("" if radix == 10 else " %d" % radix, " ".join(quoted(t, '"') for t in ts))); xs.append(j)
        c.cov.setdefault("texts", {})[str(radix)] = len(pool)
        c.compare("texts", cs, xs, PRE)

c.assumptions += ["Python's float(), int and Fraction arithmetic are the oracle", "= between inexact numbers closer than the tolerance the existing tests fix, and <= >= = on NaN, are recorded as known findings and left out of the comparison"]
c.finish("enumerated completely: exact values x radix; every binade x mantissa patterns; every composition of literal parts; all pairs (and triples of a subset) of the mixed alphabet; distinct_nontrivial counts distinct (part, observed outcome)",
         bounds={"doubles": len(ds), "exact": len(ints) + len(rats)})
