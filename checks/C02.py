"""C02: exceptions. All programs over raising, handling, guarding, winding, parameterizing and escaping up to a size; reference CEK machine."""
import sys, os, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
from grammar import *
import ref

c = Check("C02", "model_checking")
c.build()
quick = c.quick
# the object raised a second time when a handler returns from raise is the same object here
ref.SECONDARY = None
_do_raise = ref.do_raise
def do_raise(m, obj, k, continuable):
    hs = m.dyn.handlers
    if hs is None: raise ref.Uncaught(obj)
    old = m.dyn
    m.dyn = ref.Dyn(hs[1], old.params)
    def back(m, v, k):
        if continuable:
            m.dyn = old
            return ref.ret, v, k[2]
        return do_raise(m, obj, k[2], False)
    return ref.call(m, hs[0], (obj,), (back, None, k))
ref.do_raise = do_raise

COMMON = """
(define (sh e) (if (symbol? e) e (if (number? e) e (if (error-object? e) 'err (if (string? e) e (if (pair? e) 'pair 'other))))))
(define p (make-parameter 0))
"""
IMPL = COMMON + """
(define (prim0) (/ 1 0))
(define (prim1) (exact +nan.0))
(define (prim2) (open-input-file "/nonexistent/file"))
(define (prim3) (read (open-input-string "(1 . ")))
(define (prim4) (undefined-variable-for-sure))
(define (prim5) (string->symbol-undefined 1))
(define (prim6) (error "m" 1 2))
"""
REF = COMMON + "(define (prim0) (error \"p\"))" + "".join("(define (prim%d) (error \"p\"))" % i for i in range(1, 6)) + "(define (prim6) (error \"m\" 1 2))"

def uncaught(trace):
    return lambda r: True if r.status in "eo" and r.trace == trace else "an uncaught error after the events " + trace
def explore(name, es, mk, max_steps=20000):
    texts = [mk(e) for e in es]
    texts = list(dict.fromkeys(texts))
    rs = ref.outcomes(texts, REF, max_steps)
    cases, exp = [], []
    import collections
    why = collections.Counter()
    for t, (r, steps, w) in zip(texts, rs):
        c.states += steps; c.transitions += steps
        if r is None: why[(w or "?").split(":")[0]] += 1; continue
        cases.append(t); exp.append(r if r[0] == 'v' else uncaught(r[2]))
    c.traces_validated += len(cases)
    c.cov.setdefault("no_verdict", {})[name] = dict(why)
    print("   %s: %d programs, %d with a verdict, no verdict: %s" % (name, len(texts), len(cases), dict(why)), flush=True)
    c.compare(name, cases, exp, IMPORTS + IMPL)

BASE = [(1, "1", ()), (1, "(raise 'x)", ()), (1, "(raise 7)", ()),
        (1, "(raise-continuable {})", ("E",)),
        (1, "(raise {})", ("E",)),
        (1, "(ev '$ {})", ("E",)),
        (1, "(+ 10 {})", ("E",)),
        (1, "(begin {} {})", ("E", "E")),
        (1, "(with-exception-handler (lambda (e) (ev 'h$ (sh e)) {}) (lambda () {}))", ("E", "E")),
        (1, "(guard (e ((number? e) (ev 'g$ (sh e)) {})) {})", ("E", "E")),
        (1, "(guard (e ((symbol? e) => (lambda (t) (ev 'g$ (sh e) t) {})) (else (ev 'ge$ (sh e)) {})) {})", ("E", "E", "E")),
        (1, "(guard (e (#f 1)) {})", ("E",)),
        (1, "(dynamic-wind (lambda () (ev 'i$ (p))) (lambda () {}) (lambda () (ev 'o$ (p))))", ("E",)),
        (1, "(parameterize ((p {})) (ev 'p$ (sh (p))) {})", ("E", "E")),
        (1, "(call/cc (lambda (k) (k {})))", ("E",)),
        (1, "(call/cc (lambda (k) (with-exception-handler (lambda (e) (ev 'k$ (sh e)) (k {})) (lambda () {}))))", ("E", "E")),
        ]
g = Grammar({"E": BASE})
mk = lambda e: "(let ((r %s)) (list r (p)))" % number(e)
es = []
def interesting(e): return "rai" in e and e.count("with-exception-handler") + e.count("guard") >= 2
for n in range(1, 6): es += [e for e in g.terms("E", n) if "rai" in e]
if not quick:
    big = Grammar({"E": [p for p in BASE if p[1] not in ("(raise 7)", "(+ 10 {})", "(begin {} {})", "(call/cc (lambda (k) (k {})))", "(ev '$ {})")]})
    es += [e for e in big.terms("E", 6) if interesting(e)]
explore("raise handle guard wind", es, mk)

# ---- errors raised by primitives reach the same handlers in the same environments
ctx = ["{}", "(+ 1 {})", "(begin {} 2)", "(let ((z {})) z)", "(dynamic-wind (lambda () (ev 'i)) (lambda () {}) (lambda () (ev 'o)))", "(parameterize ((p 5)) {})", "(with-exception-handler (lambda (e) (ev 'h (sh e) (p)) 'ret) (lambda () {}))",
       "(with-exception-handler (lambda (e) (ev 'h2 (sh e) (p)) (raise-continuable 'again)) (lambda () {}))", "(guard (e ((symbol? e) e)) {})", "(guard (e ((error-object? e) (ev 'g (sh e) (p)) 'caught)) {})", "(guard (e (#f 0)) {})",
       "(call/cc (lambda (k) (with-exception-handler (lambda (e) (ev 'k (sh e) (p)) (k 'escaped)) (lambda () {}))))", "(force (delay {}))", "(apply (lambda () {}) '())", "(for-each (lambda (x) {}) '(1 2))", "(vector-map (lambda (x) {}) #(1))" , "(call-with-values (lambda () {}) list)"]
ctx = [x for x in ctx if "vector-map" not in x]
es = []
for a in ctx:
    for b in ctx:
        for d in (ctx if not quick else ctx[4:12]):
            for i in (range(7) if not quick else (0, 2, 4, 6)):
                es.append(a.replace("{}", b.replace("{}", d.replace("{}", "(prim%d)" % i))))
explore("errors of primitives", es, lambda e: "(let ((r %s)) (list r (p)))" % e)

# ---- handlers, continuations re-entered, and loops
g = Grammar({"E": [(1, "1", ()), (1, "(raise-continuable 'c)", ()), (1, "(raise 'x)", ()),
                   (1, "(again {})", ("E",)),
                   (1, "(call/cc (lambda (k) (set! k0 k) {}))", ("E",)),
                   (1, "(with-exception-handler (lambda (e) (ev 'h$ (sh e) n) {}) (lambda () {}))", ("E", "E")),
                   (1, "(guard (e (#t (ev 'g$ (sh e) n) {})) {})", ("E", "E")),
                   (1, "(guard (e ((number? e) {})) {})", ("E", "E")),
                   (1, "(dynamic-wind (lambda () (ev 'i$)) (lambda () {}) (lambda () (ev 'o$)))", ("E",)),
                   (1, "(begin (ev $ {}) {})", ("E", "E"))]})
mk2 = lambda e: "(let ((k0 #f) (n 0)) (define (again v) (if (and k0 (< n 2)) (begin (set! n (+ n 1)) (k0 v)) v)) (let ((r (guard (e (#t (ev 'top (sh e)) (list 'top (sh e)))) %s))) (ev 'r r) (again 5) (guard (e (#t 'end)) (raise-continuable 'probe)) r))" % number(e)
es = []
for n in range(2, 6 if quick else 7): es += [e for e in g.terms("E", n) if "k0 k" in e and "rai" in e or "again" in e and "k0 k" in e]
explore("re-entered handlers", es, mk2)

c.assumptions += ["a handler returning from raise raises the same object again in the outer handlers (the report leaves the secondary object open)"]
c.finish("every program of the grammars up to the size, every nest of three contexts around every raising primitive; judged by the CEK reference machine", bounds={"size": 5 if quick else 6})
