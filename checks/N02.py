"""N02: division families and bit operations against their definitions over Python integers."""
import sys, os, itertools, math
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
from fractions import Fraction as F

c = Check("N02")
c.build()
quick = c.quick
PRE = IMPORTS + """
(import (srfi 141) (srfi 143) (srfi 151))
(define BIG (expt 2 70))
(define (dn x) (- (+ x BIG) BIG)) ; the same integer, arrived at through bignum arithmetic
(define-syntax two (syntax-rules () ((_ e) (call-with-values (lambda () e) list))))
"""

def rround(x):
    f = math.floor(x); d = x - f
    return f if d < F(1, 2) or (d == F(1, 2) and f % 2 == 0) else f + 1
def bal(n, d):
    # -|d/2| <= r < |d/2|
    r = n % abs(d)
    if 2 * r >= abs(d): r -= abs(d)
    return (n - r) // d
FAM = {"floor": lambda n, d: n // d,
       "truncate": lambda n, d: abs(n) // abs(d) * (1 if (n < 0) == (d < 0) else -1),
       "ceiling": lambda n, d: -((-n) // d),
       "round": lambda n, d: rround(F(n, d)),
       "euclidean": lambda n, d: n // d if d > 0 else -((-n) // d),
       "balanced": bal}
for q in FAM.values():
    pass
SIGN = lambda xs: sorted({s * x for x in xs for s in (1, -1)})
NS = SIGN(list(range(0, 14)) + [2**31 - 1, 2**31, 2**31 + 1, 2**32 - 1, 2**32, 2**62, 2**63 - 1, 2**63, 2**64 - 1, 2**64 + 1, 10**20, 3**45])
DS = [d for d in SIGN(list(range(1, 10)) + [2**31 - 1, 2**31, 2**32, 2**63 - 1, 2**63, 2**64, 10**19 + 1]) if d]
cs, xs = [], []
for fam, q in FAM.items():
    for n in NS:
        for d in DS:
            a = q(n, d); r = n - d * a
            assert {"floor": r == 0 or (r < 0) == (d < 0), "truncate": r == 0 or (r < 0) == (n < 0), "ceiling": r == 0 or (r < 0) != (d < 0),
                    "round": 2 * abs(r) <= abs(d), "euclidean": 0 <= r < abs(d), "balanced": -abs(d) <= 2 * r < abs(d)}[fam] and abs(r) <= abs(d)
            cs.append("(let ((n %d) (d %d)) (list (two (%s/ n d)) (%s-quotient n d) (%s-remainder n d) (two (%s/ (dn n) (dn d)))))" % (n, d, fam, fam, fam, fam))
            xs.append("((%d %d) %d %d (%d %d))" % (a, r, a, r, a, r))
c.compare("division families", cs, xs, PRE)

# r5rs names and (scheme base) names agree with the families
cs, xs = [], []
T, FL = FAM["truncate"], FAM["floor"]
for n in NS:
    for d in DS:
        cs.append("(let ((n %d) (d %d)) (list (quotient n d) (remainder n d) (modulo n d)))" % (n, d))
        xs.append("(%d %d %d)" % (T(n, d), n - d * T(n, d), n - d * FL(n, d)))
c.compare("quotient remainder modulo", cs, xs, PRE)

# integral inexact operands: the same quotients and remainders, inexact
cs, xs = [], []
def same(a): # -0.0 and 0.0 are the same integer
    return lambda r, a=a: True if r.status == "v" and r.value.replace("f:8000000000000000", "f:0000000000000000") == a else "expected " + a
for fam, q in FAM.items():
    for n in SIGN(range(0, 12)) + [2**40 + 1, -2**40 - 3]:
        for d in SIGN(range(1, 8)) + [2**20 + 1]:
            if d == 0: continue
            a = q(n, d); r = n - d * a
            for x, y in ((float(n), float(d)), (float(n), d), (n, float(d))):
                cs.append("(two (%s/ %s %s))" % (fam, lit(x), lit(y)))
                xs.append(same("(%s %s)" % (ser_double(float(a) + 0.0), ser_double(float(r) + 0.0))))
c.compare("inexact integers", cs, xs, PRE)

# ---- bitwise
def bitcount(n): return bin(n if n >= 0 else ~n).count("1")
def width(n): return (n if n >= 0 else ~n).bit_length()
BS = sorted({0, 1, -1, 2, -2, 3, 5, -6, 10, 255, -256, 0x5555, 2**30, 2**31 - 1, -2**31, 2**31, -2**31 - 1, 2**32 - 1, 2**32, -2**32, 2**63 - 1, 2**63, -2**63, -2**63 - 1, 2**64, 2**64 - 1, 2**64 + 5, -2**70 + 3, 0xdeadbeefcafebabe1234567})
SB = [0, 1, -1, 2, -2, 3, 5, -6, 10, 0x5555, 2**31 - 1, -2**31, 2**31, 2**32 - 1, 2**40 + 9, -2**40 - 9, 2**63 - 1, -2**63, 2**64 + 5, -2**70 + 3]
cs, xs = [], []
def add(e, v):
    cs.append(e); xs.append(ser(v))
B2 = {"bitwise-and": lambda a, b: a & b, "bitwise-ior": lambda a, b: a | b, "bitwise-xor": lambda a, b: a ^ b, "bitwise-eqv": lambda a, b: ~(a ^ b),
      "bitwise-nand": lambda a, b: ~(a & b), "bitwise-nor": lambda a, b: ~(a | b), "bitwise-andc1": lambda a, b: ~a & b, "bitwise-andc2": lambda a, b: a & ~b,
      "bitwise-orc1": lambda a, b: ~a | b, "bitwise-orc2": lambda a, b: a | ~b, "any-bit-set?": lambda a, b: (a & b) != 0, "every-bit-set?": lambda a, b: (a & b) == a}
for op, f in B2.items():
    for a in BS:
        for b in BS:
            add("(%s %d %d)" % (op, a, b), f(a, b))
    for a in (0, 1, -1, -2, 6, 2**31 - 1, -2**31, 2**33):
        for b in (0, 1, -1, 5, 2**40):
            add("(%s (dn %d) %d)" % (op, a, b), f(a, b)); add("(%s %d (dn %d))" % (op, a, b), f(a, b)); add("(%s (dn %d) (dn %d))" % (op, a, b), f(a, b))
for op, u in (("bitwise-and", -1), ("bitwise-ior", 0), ("bitwise-xor", 0), ("bitwise-eqv", -1)):
    add("(%s)" % op, u)
    for a in SB:
        add("(%s %d)" % (op, a), a)
    for t in itertools.product((0, -1, 6, 2**31, -2**33 + 5), repeat=3):
        add("(%s %d %d %d)" % ((op,) + t), B2[op](B2[op](t[0], t[1]), t[2]))
for a in BS:
    for w in ("%d", "(dn %d)"):
        s = w % a
        add("(bitwise-not %s)" % s, ~a); add("(bit-count %s)" % s, bitcount(a)); add("(integer-length %s)" % s, width(a))
        add("(first-set-bit %s)" % s, (a & -a).bit_length() - 1)
SH = sorted(set(range(-70, 71, 1 if not quick else 3)) | {-65, -64, -63, -62, -34, -33, -32, -31, -30, -2, -1, 0, 1, 2, 30, 31, 32, 33, 34, 62, 63, 64, 65, 100, -100, 128, -128, 127, -127})
for a in BS:
    for s in SH:
        v = a << s if s >= 0 else a >> -s
        add("(arithmetic-shift %d %d)" % (a, s), v)
        if -3 <= a <= 10: add("(arithmetic-shift (dn %d) %d)" % (a, s), v)
c.compare("logical operations", cs, xs, PRE)

cs, xs = [], []
def mask(s, e): return (1 << (e - s)) - 1
def rev(w, v):
    return int(bin((1 << w) | v)[3:][::-1], 2) if w else 0
IDX = [0, 1, 2, 3, 5, 8, 30, 31, 32, 33, 63, 64, 65]
for n in SB:
    for i in IDX:
        add("(bit-set? %d %d)" % (i, n), (n >> i) & 1 == 1)
        add("(copy-bit %d %d #t)" % (i, n), n | (1 << i)); add("(copy-bit %d %d #f)" % (i, n), n & ~(1 << i))
    for s in IDX:
        for e in IDX:
            if e < s: 
                b1, b2 = (n >> s) & 1, (n >> e) & 1
                v = n & ~(1 << s) & ~(1 << e) | (b1 << e) | (b2 << s)
                add("(bit-swap %d %d %d)" % (s, e, n), v); add("(bit-swap %d %d %d)" % (e, s, n), v)
                continue
            m = mask(s, e); f = (n >> s) & m
            add("(bit-field %d %d %d)" % (n, s, e), f)
            add("(bit-field-any? %d %d %d)" % (n, s, e), f != 0)
            add("(bit-field-every? %d %d %d)" % (n, s, e), f == m)
            add("(bit-field-clear %d %d %d)" % (n, s, e), n & ~(m << s))
            add("(bit-field-set %d %d %d)" % (n, s, e), n | (m << s))
            for y in (0, -1, 6, 2**33 + 1):
                add("(bit-field-replace %d %d %d %d)" % (n, y, s, e), n & ~(m << s) | ((y & m) << s))
                add("(bit-field-replace-same %d %d %d %d)" % (n, y, s, e), n & ~(m << s) | (y & (m << s)))
            w = e - s
            if w > 0:
                for k in (0, 1, 2, 3, -1, w, w + 1, -w):
                    kk = k % w
                    r = ((f << kk) | (f >> (w - kk))) & m
                    add("(bit-field-rotate %d %d %d %d)" % (n, k, s, e), n & ~(m << s) | (r << s))
            else:
                add("(bit-field-rotate %d 1 %d %d)" % (n, s, e), n)
            add("(bit-field-reverse %d %d %d)" % (n, s, e), n & ~(m << s) | (rev(w, f) << s))
c.compare("bit fields", cs, xs, PRE)

cs, xs = [], []
for m in (0, -1, 6, 2**31, 2**40 - 1, -2**33):
    for a in SB:
        for b in (0, -1, 5, 2**32 + 3, -2**64):
            add("(bitwise-if %d %d %d)" % (m, a, b), (m & a) | (~m & b))
for n in range(0, 33):
    pass
ns = list(range(0, 70)) + [2**31, 2**32 - 1, 2**63, 2**64 + 5]
for n in ns:
    bl = [bool((n >> i) & 1) for i in range(n.bit_length())]
    add("(bits->list %d)" % n, bl); add("(bits->vector %d)" % n, tuple(bl))
    add("(list->bits '%s)" % lit(bl), n); add("(vector->bits '%s)" % lit(tuple(bl)), n); add("(bits %s)" % " ".join(lit(b) for b in bl), n)
    add("(reverse (bitwise-fold cons '() %d))" % n, bl)
    add("(let ((r '())) (bitwise-for-each (lambda (b) (set! r (cons b r))) %d) (reverse r))" % n, bl)
    add("(bitwise-unfold null? car cdr '%s)" % lit(bl), n)
    add("(let ((g (make-bitwise-generator %d))) (let loop ((i 0) (r '())) (if (= i 8) (reverse r) (loop (+ i 1) (cons (g) r)))))" % n, [bool((n >> i) & 1) for i in range(8)])
for n in ns + [-1, -2, -5, -2**31, -2**40]:
    for k in (0, 1, 3, 8, 33, 65):
        bl = [bool((n >> i) & 1) for i in range(k)]
        add("(bits->list %d %d)" % (n, k), bl); add("(bits->vector %d %d)" % (n, k), tuple(bl))
for k in range(0, 6 if quick else 9):
    for t in itertools.product((True, False), repeat=k):
        add("(list->bits '%s)" % lit(list(t)), sum(1 << i for i, b in enumerate(t) if b))
c.compare("bit conversions", cs, xs, PRE)

# ---- fixnums
cs, xs = [], []
FX = sorted({0, 1, -1, 2, -2, 3, 7, -7, 10, 255, 46340, -46340, 2**16, 2**30, -2**30, 2**31 - 1, 2**31 - 2, -2**31, -2**31 + 1})
lo, hi = -2**31, 2**31 - 1
add("(list fx-width fx-greatest fx-least)", [32, hi, lo])
def fix(v): return lo <= v <= hi
for n in BS: add("(fixnum? %d)" % n, fix(n))
for e in ("1.0", "1/2", "#\\a", "\"x\"", "'()", "#t", "'a"): add("(fixnum? %s)" % e, False)
def bal32(v):
    q = bal(v, 2**32); return q, v - q * 2**32
for a in FX:
    add("(fxzero? %d)" % a, a == 0); add("(fxpositive? %d)" % a, a > 0); add("(fxnegative? %d)" % a, a < 0)
    add("(fxodd? %d)" % a, a % 2 == 1); add("(fxeven? %d)" % a, a % 2 == 0); add("(fxnot %d)" % a, ~a)
    add("(fxbit-count %d)" % a, bitcount(a)); add("(fxlength %d)" % a, width(a)); add("(fxfirst-set-bit %d)" % a, (a & -a).bit_length() - 1)
    if a != lo: add("(fxneg %d)" % a, -a); add("(fxabs %d)" % a, abs(a))
    if fix(a * a): add("(fxsquare %d)" % a, a * a)
    if a >= 0:
        s = math.isqrt(a); add("(two (fxsqrt %d))" % a, [s, a - s * s])
    for s in range(0, 32):
        if fix(a << s):
            add("(fxarithmetic-shift-left %d %d)" % (a, s), a << s); add("(fxarithmetic-shift %d %d)" % (a, s), a << s)
        add("(fxarithmetic-shift-right %d %d)" % (a, s), a >> s); add("(fxarithmetic-shift %d %d)" % (a, -s), a >> s)
        add("(fxbit-set? %d %d)" % (s, a), (a >> s) & 1 == 1)
        if s < 31:
            add("(fxcopy-bit %d %d #t)" % (s, a), a | (1 << s)); add("(fxcopy-bit %d %d #f)" % (s, a), a & ~(1 << s))
        for e in range(s, 32, 1 if not quick else 5):
            m = mask(s, e); f = (a >> s) & m; w = e - s
            add("(fxbit-field %d %d %d)" % (a, s, e), f)
            add("(fxbit-field-reverse %d %d %d)" % (a, s, e), a & ~(m << s) | (rev(w, f) << s))
            if w:
                for k in (0, 1, 3):
                    kk = k % w
                    add("(fxbit-field-rotate %d %d %d %d)" % (a, k, s, e), a & ~(m << s) | (((f << kk) | (f >> (w - kk))) & m) << s)
    for b in FX:
        for nm, v in (("fx+", a + b), ("fx-", a - b), ("fx*", a * b)):
            if fix(v): add("(%s %d %d)" % (nm, a, b), v)
        for nm, v in (("fx=?", a == b), ("fx<?", a < b), ("fx>?", a > b), ("fx<=?", a <= b), ("fx>=?", a >= b), ("fxmax", max(a, b)), ("fxmin", min(a, b)), ("fxand", a & b), ("fxior", a | b), ("fxxor", a ^ b)):
            add("(%s %d %d)" % (nm, a, b), v)
        if b and fix(T(a, b)): add("(fxquotient %d %d)" % (a, b), T(a, b)); add("(fxremainder %d %d)" % (a, b), a - b * T(a, b))
        for k in (0, 1, -1, hi, lo):
            for nm, v in (("fx+/carry", a + b + k), ("fx-/carry", a - b - k), ("fx*/carry", a * b + k)):
                q, r = bal32(v); add("(two (%s %d %d %d))" % (nm, a, b, k), [r, q])
        add("(fxif %d %d %d)" % (a, b, 12345), (a & b) | (~a & 12345))
c.compare("fixnums", cs, xs, PRE)
c.assumptions = ["Python's integer arithmetic and bit operations are correct", "fixnum operations are asked only where the exact result is a fixnum (elsewhere it is an error to use them)"]
c.finish("every division family on every pair of the operand alphabet, every bit and fixnum operation on every tuple of its alphabets; counted: distinct (part, observable result) pairs",
         bounds={"numerators": len(NS), "divisors": len(DS), "bit_alphabet": len(BS)})
