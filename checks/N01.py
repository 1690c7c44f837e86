"""N01: exact arithmetic against Python integers and fractions, over a boundary alphabet and depth-2 chains."""
import sys, os, itertools, math
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
from fractions import Fraction as F

c = Check("N01")
c.build()
PRE = IMPORTS + """
(import (only (meevax number) exact-integer-square-root))
(define probe (vector 0 1 2 3 4 5 6 7 8 9))
(define big-list '(0 1 2 3 4 5 6 7 8 9))
; the result, then: is it interchangeable with the literal of the same value?
(define (same r lit)
  (and (eqv? r lit) (equal? r lit) (eqv? lit r) (= r lit) (not (< r lit)) (not (> r lit)) (<= r lit) (>= r lit)
       (exact? r) (eq? (integer? r) (integer? lit)) (eq? (exact-integer? r) (exact-integer? lit))
       (if (memv r (list lit)) #t #f) (if (assv lit (list (cons r 1))) #t #f)
       (if (and (integer? lit) (<= 0 lit 9))
           (and (eqv? lit (vector-ref probe r)) (eqv? lit (list-ref big-list r))
                (eqv? lit (vector-length (make-vector r 0))) (eqv? lit (string-length (make-string r #\\a)))
                (eqv? (char->integer (string-ref "0123456789" r)) (+ 48 lit))
                (eqv? lit (length (make-list r 0)))
                (eqv? lit (bytevector-u8-ref (bytevector r) 0)))
           #t)
       (if (and (integer? lit) (<= 32 lit 126)) (eqv? (integer->char r) (integer->char lit)) #t)))
"""

def fdiv(a, b): return a // b
def tquo(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q
def trem(a, b): return a - b * tquo(a, b)
def rround(x):
    f = math.floor(x); d = x - f
    if d < F(1, 2): return f
    if d > F(1, 2): return f + 1
    return f if f % 2 == 0 else f + 1

ints = {0}
for k in range(1, 12): ints |= {k, -k}
for p in (15, 16, 24, 30, 31, 32, 33, 47, 52, 53, 54, 62, 63, 64, 65, 96, 127, 128):
    for d in (-1, 0, 1):
        ints |= {2**p + d, -(2**p) + d}
ints |= {10**9, 10**18, 10**19, -10**19, 10**30, -10**30, 3**40, 46341, -46341, 65537 * 65539, 3037000500, 4294967295 * 4294967297, math.factorial(25)}
INTS = sorted(ints, key=lambda x: (abs(x), x))
SMALL = [0, 1, -1, 2, -2, 3, -3, 5, 7, -7, 10, 2**15, 2**16, 2**30, 2**31 - 1, 2**31, -2**31, -2**31 - 1, -2**31 + 1, 2**32, 2**32 - 1, 2**33, 2**62, 2**63 - 1, 2**63, -2**63, -2**63 - 1, 2**64, 2**64 - 1, 10**20, -10**20]
RATS = sorted({F(n, d) for n in (1, -1, 2, -3, 5, -7, 2**31 - 1, -2**31, 2**31, 2**63, -2**64 + 1, 10**20) for d in (2, 3, 4, 7, 10, 2**31 - 1, 2**31, 2**32, 2**64)} - {F(i) for i in range(-10, 11)})
RATS = [r for r in RATS if r.denominator != 1]
RSMALL = [F(1, 2), F(-1, 2), F(1, 3), F(-2, 3), F(3, 2), F(-3, 2), F(5, 2), F(7, 2), F(-5, 2), F(1, 2**31), F(2**31, 3), F(-2**31 - 1, 2), F(2**63, 5), F(10**20, 7), F(1, 10**20), F(-2**64 + 1, 2**32)]

def val(v):
    return "(%s #t)" % ser(v)

def ask(e, v):
    """the program and what it must give: the value, and its interchangeability with the literal"""
    if isinstance(v, bool):
        return "(let ((r %s)) (list r (boolean? r)))" % e, val(v)
    return "(let ((r %s)) (list r (same r %s)))" % (e, lit(v)), val(v)

def batch(name, items):
    cs, xs = [], []
    for e, v in items:
        a, b = ask(e, v); cs.append(a); xs.append(b)
    c.compare(name, cs, xs, PRE)

CMP = {"=": lambda a, b: a == b, "<": lambda a, b: a < b, ">": lambda a, b: a > b, "<=": lambda a, b: a <= b, ">=": lambda a, b: a >= b}
ARITH = {"+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b, "max": max, "min": min}
INTDIV = {"quotient": tquo, "remainder": trem, "modulo": lambda a, b: a - b * fdiv(a, b), "floor-quotient": fdiv, "floor-remainder": lambda a, b: a - b * fdiv(a, b),
          "truncate-quotient": tquo, "truncate-remainder": trem}
def nrm(x):
    return int(x) if isinstance(x, F) and x.denominator == 1 else x

def binary(A, B, ops):
    for op, f in ops.items():
        for a in A:
            for b in B:
                yield "(%s %s %s)" % (op, lit(a), lit(b)), nrm(f(a, b))

quick = c.quick
A = INTS
batch("integer binary", itertools.chain(binary(A, A, {k: ARITH[k] for k in ("+", "-", "*")}), binary(SMALL, SMALL, {"max": max, "min": min})))
batch("integer compare", binary(A if not quick else SMALL, A if not quick else SMALL, CMP))
batch("integer division", ((e, v) for op, f in INTDIV.items() for a in (A if not quick else SMALL + [46341, 10**9, 3**40]) for b in (A if not quick else SMALL) if b != 0 for e, v in [("(%s %d %d)" % (op, a, b), f(a, b))]))
batch("integer quotient /", ((("(/ %d %d)" % (a, b)), nrm(F(a, b))) for a in A for b in SMALL if b != 0))
batch("gcd lcm", ((e, v) for a in SMALL + [12, 18, -12, 6 * 10**20] for b in SMALL + [12, 18, -18] for e, v in
                  [("(gcd %d %d)" % (a, b), math.gcd(a, b))] + [("(lcm %d %d)" % (a, b), abs(a * b) // math.gcd(a, b) if a and b else 0)]))
batch("gcd lcm n-ary", [("(gcd)", 0), ("(lcm)", 1)] + [("(gcd %d)" % a, abs(a)) for a in SMALL] + [("(lcm %d)" % a, abs(a)) for a in SMALL]
      + [("(gcd %d %d %d)" % t, math.gcd(*t)) for t in itertools.product((0, 4, -6, 2**31, 10**20), repeat=3)]
      + [("(lcm %d %d %d)" % t, math.lcm(*t)) for t in itertools.product((1, 4, -6, 2**31, 10**20), repeat=3)])
MIX = RSMALL + [0, 1, -1, 2, -3, 2**31 - 1, 2**31, -2**31, 2**63, -2**64, 10**20]
batch("rational binary", itertools.chain(binary(RATS if not quick else RSMALL, MIX, ARITH), binary(MIX, RATS if not quick else RSMALL, ARITH)))
batch("rational compare", binary(MIX + (RATS if not quick else []), MIX, CMP))
batch("rational quotient", ((("(/ %s %s)" % (lit(a), lit(b))), nrm(F(a) / F(b))) for a in MIX + RATS for b in MIX if b != 0))
EXPB = [0, 1, -1, 2, -2, 3, -3, 7, 10, -10, 2**16, 46341, 2**31 - 1, 2**31, -2**31, 2**32, 2**63, -2**64, F(1, 2), F(-1, 2), F(2, 3), F(-3, 7), F(2**31, 3), F(1, 2**33)]
batch("expt", ((("(expt %s %d)" % (lit(b), e)), nrm(F(b) ** e)) for b in EXPB for e in list(range(-5, 18)) + [30, 31, 32, 33, 62, 63, 64, 65, 100] if not (b == 0 and e < 0)))

def unary():
    for a in INTS + RATS + RSMALL:
        s = lit(a)
        yield "(+ %s)" % s, a
        yield "(- %s)" % s, -a
        yield "(* %s)" % s, a
        yield "(abs %s)" % s, abs(a)
        yield "(magnitude %s)" % s, abs(a)
        yield "(real-part %s)" % s, a
        yield "(imag-part %s)" % s, 0
        if a != 0: yield "(/ %s)" % s, nrm(1 / F(a))
        yield "(square %s)" % s, nrm(F(a) * F(a))
        yield "(numerator %s)" % s, F(a).numerator
        yield "(denominator %s)" % s, F(a).denominator
        yield "(floor %s)" % s, math.floor(a)
        yield "(ceiling %s)" % s, math.ceil(a)
        yield "(truncate %s)" % s, math.trunc(a)
        yield "(round %s)" % s, rround(F(a))
        yield "(exact %s)" % s, a
        yield "(zero? %s)" % s, a == 0
        yield "(positive? %s)" % s, a > 0
        yield "(negative? %s)" % s, a < 0
        yield "(integer? %s)" % s, F(a).denominator == 1
        yield "(exact-integer? %s)" % s, F(a).denominator == 1
        yield "(rational? %s)" % s, True
        yield "(real? %s)" % s, True
        yield "(number? %s)" % s, True
        yield "(complex? %s)" % s, True
        yield "(exact? %s)" % s, True
        yield "(inexact? %s)" % s, False
        if F(a).denominator == 1:
            yield "(even? %s)" % s, a % 2 == 0
            yield "(odd? %s)" % s, a % 2 == 1
        for e, v in (("(= %s %s)", True), ("(< %s %s)", False), ("(<= %s %s)", True), ("(eqv? %s %s)", True), ("(equal? %s %s)", True)):
            yield e % (s, s), v
batch("unary", unary())

# literals: the same value written in other ways
batch("literals", ((e, nrm(v)) for a in SMALL for e, v in [("#x%s%x" % ("-" if a < 0 else "", abs(a)), a), ("#b%s%s" % ("-" if a < 0 else "", bin(abs(a))[2:]), a), ("#o%s%o" % ("-" if a < 0 else "", abs(a)), a), ("#d%d" % a, a), ("#e%d" % a, a), ("(quote %d)" % a, a), ("%d/1" % a, a), ("%d/%d" % (a * 6, 4), F(a * 6, 4)), ("+%d" % a if a >= 0 else str(a), a)]))

# exact integer square root: around every kind of square
SQ = sorted({max(0, s * s + d) for s in [0, 1, 2, 3, 4, 10, 255, 256, 46340, 46341, 65535, 65536, 3037000499, 3037000500, 2**31, 2**32 - 1, 2**32, 10**10, 2**64 - 1, 2**64, 10**20, 3**50] for d in (-2, -1, 0, 1, 2, 2 * s)})
def isq():
    for n in SQ:
        s = math.isqrt(n)
        yield "(call-with-values (lambda () (exact-integer-sqrt %d)) (lambda (s r) s))" % n, s
        yield "(call-with-values (lambda () (exact-integer-sqrt %d)) (lambda (s r) r))" % n, n - s * s
batch("exact-integer-sqrt", isq())

# sums, products, differences of every arity to 4; monotone comparison chains
NA = [0, 1, -1, 2**31 - 1, -2**31, F(1, 2), F(-1, 2), 10**20]
def nary():
    for n in (0, 1, 2, 3) + (() if quick else (4,)):
        for t in itertools.product(NA, repeat=n):
            a = " ".join(lit(x) for x in t)
            yield "(+ %s)" % a, nrm(sum(map(F, t), F(0)))
            p = F(1)
            for x in t: p *= x
            yield "(* %s)" % a, nrm(p)
            if n >= 2:
                yield "(- %s)" % a, nrm(F(t[0]) - sum(map(F, t[1:]), F(0)))
                if all(t[1:]):
                    q = F(t[0])
                    for x in t[1:]: q /= x
                    yield "(/ %s)" % a, nrm(q)
            if n >= 1:
                yield "(max %s)" % a, max(t)
                yield "(min %s)" % a, min(t)
                for op, f in CMP.items():
                    yield "(%s %s)" % (op, a), all(f(x, y) for x, y in zip(t, t[1:]))
batch("n-ary", nary())

# depth-2 chains: results of one operation, of every size class, as operands of the next
CH = [0, 1, -1, 2, 7, 2**31 - 1, -2**31, 2**31, 2**63, -10**20, F(1, 2), F(-7, 3), F(2**31, 3)]
if not quick: CH += [3, -2, 2**32, 2**64 - 1, 10**20, F(1, 2**31), F(-3, 2)]
OPS = {"+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b, "/": lambda a, b: F(a) / F(b) if b else None}
INTOPS = {"quotient": lambda a, b: tquo(a, b) if b else None, "modulo": lambda a, b: a - b * fdiv(a, b) if b else None, "gcd": math.gcd, "max": max, "=": lambda a, b: a == b, "<": lambda a, b: a < b}
def isint(x): return F(x).denominator == 1
def chains():
    for o1, f1 in OPS.items():
        for a in CH:
            for b in CH:
                v = f1(a, b)
                if v is None: continue
                v = nrm(v)
                for o2, f2 in list(OPS.items()) + list(INTOPS.items()):
                    for d in CH:
                        if o2 in ("quotient", "modulo", "gcd") and not (isint(v) and isint(d)): continue
                        for x, y, form in ((v, d, "(%s (%s %s %s) %s)" % (o2, o1, lit(a), lit(b), lit(d))), (d, v, "(%s %s (%s %s %s))" % (o2, lit(d), o1, lit(a), lit(b)))):
                            w = f2(x, y)
                            if w is None: continue
                            yield form, nrm(w)
batch("depth-2 chains", chains())
c.assumptions = ["Python's int and fractions.Fraction arithmetic is correct", "division by exact zero is an error and not part of the enumeration"]
c.finish("every operator applied to every tuple of the listed operand alphabets (boundaries of 2^15..2^128, ratios of them), and every depth-2 composition over the chain alphabet; counted: distinct (part, observable result) pairs",
         bounds={"integers": len(INTS), "rationals": len(RATS), "chain_alphabet": len(CH)})
