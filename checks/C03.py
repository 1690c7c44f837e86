"""C03: parameters and promises."""
import sys, os, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
from grammar import *
import ref

c = Check("C03", "model_checking")
c.build()
quick = c.quick

# ---- parameters
E = [(1, "1", ()), (1, "(p)", ()), (1, "(q)", ()), (1, "(r)", ()),
     (1, "(begin (ev '$ {}) {})", ("E", "E")),
     (1, "(+ {} 1)", ("E",)),
     (1, "(parameterize ((p {})) {})", ("E", "E")),
     (1, "(parameterize ((q {})) {})", ("E", "E")),
     (1, "(parameterize ((p {}) (r (+ (p) 3))) (ev 'b$ (p) (q) (r)) {})", ("E", "E")),
     (1, "(call/cc (lambda (k) (set! k0 k) {}))", ("E",)),
     (1, "(call/cc (lambda (k) (+ 100 (k {}))))", ("E",)),
     (1, "(again {})", ("E",)),
     (1, "(dynamic-wind (lambda () (ev 'i$ (p) (q))) (lambda () {}) (lambda () (ev 'o$ (p) (q))))", ("E",)),
     (1, "(guard (e (#t (ev 'g$ (p) (q)) {})) (raise {}))", ("E", "E")),
     (1, "(with-exception-handler (lambda (e) (ev 'h$ (p) (q)) {}) (lambda () (+ 1 (raise-continuable {}))))", ("E", "E")),
     (1, "((parameterize ((p {})) (lambda () (p))))", ("E",)),
     ]
g = Grammar({"E": E})
mk = lambda e: "(let* ((p (make-parameter 1)) (q (make-parameter 10 (lambda (x) (ev 'cv x) (* x 2)))) (r (make-parameter 5 (lambda (x) (- x)))) (k0 #f) (n 0)) (define (again v) (if (and k0 (< n 2)) (begin (set! n (+ n 1)) (k0 v)) v)) (let ((v %s)) (ev 'v v (p) (q) (r)) (again 50) (list v (p) (q) (r))))" % number(e)
es = []
for n in range(1, 5): es += [mk(e) for e in g.terms("E", n)]
g4 = Grammar({"E": [x for x in E if x[1] not in ("(r)", "(+ {} 1)", "(call/cc (lambda (k) (+ 100 (k {}))))")]})
es += [mk(e) for e in g.terms("E", 5) if "parameterize" in e and ("again" in e and "k0 k" in e or "guard" in e and "dynamic" in e)]
if not quick: es += [mk(e) for e in g4.terms("E", 5) if "parameterize" in e] + [mk(e) for e in g4.terms("E", 6) if "parameterize" in e and "again" in e and "k0 k" in e]
ref.judge_programs(c, "parameters", es, "", preamble=IMPORTS, max_steps=20000)

# ---- promises
E = [(1, "1", ()), (1, "x", ()), (1, "(begin (set! x (+ x 1)) x)", ()),
     (1, "(force p0)", ()), (1, "(force p1)", ()),
     (1, "(fuel (lambda () (force p0)))", ()), (1, "(fuel (lambda () (force p1)))", ()),
     (1, "(begin (ev '$) {})", ("E",)),
     (1, "(+ 1 {})", ("E",)), (1, "(force {})", ("P",)),
     (1, "(call/cc (lambda (k) (set! k0 k) {}))", ("E",)), (1, "(again {})", ("E",)),
     (1, "(let ((v {})) (set! x (+ x 10)) v)", ("E",)),
     ]
P = [(1, "(delay {})", ("E",)), (1, "(delay-force {})", ("P",)), (1, "(make-promise {})", ("E",)), (0, "p0", ()), (0, "p1", ()), (1, "(begin (ev '$) {})", ("P",)), (1, "(if (< x 2) {} {})", ("P", "P"))]
g = Grammar({"E": [(a, b.replace("(ev '$)", "(ev 'e$)"), d) for a, b, d in E], "P": [(a, b.replace("(ev '$)", "(ev 'p$)"), d) for a, b, d in P]})
def mkp(a, b): return number("(let ((x 0) (n 0) (m 0) (k0 #f) (p0 (make-promise 300)) (p1 (make-promise 400))) (define (again v) (if (and k0 (< m 2)) (begin (set! m (+ m 1)) (k0 v)) v)) (define (fuel t) (if (< n 2) (begin (set! n (+ n 1)) (t)) 5)) (set! p0 %s) (set! p1 %s) (let* ((a (force p0)) (b (force p1))) (ev 'ab a b) (again 70) (list a b (force p0) (force p1) (promise? p0) (promise? p1) x)))" % (a, b))
byn = {n: [p for p in g.terms("P", n) if p not in ("p0", "p1")] for n in range(1, 5)}
es = []
for n in range(1, 5):
    for m in range(1, 5):
        if n + m > (4 if quick else 5): continue
        for a in byn[n]:
            for b in byn[m]: es.append(mkp(a, b))
for a in byn[4 if not quick else 3]:
    es.append(mkp(a, "(delay-force p0)")); es.append(mkp(a, "(make-promise 3)"))
ref.judge_programs(c, "promises", es, "", preamble=IMPORTS, max_steps=4000)

# ---- promises whose forcing raises, or is forced from different dynamic environments
E = [(1, "(raise 'x)", ()), (1, "(p)", ()), (1, "1", ()), (1, "(begin (set! x (+ x 1)) (if (< x 2) (raise 'y) x))", ()), (1, "(begin (set! x (+ x 1)) {})", ("E",)), (1, "(parameterize ((p (+ (p) 1))) {})", ("E",)),
     (1, "(guard (e (#t {})) {})", ("E", "E")), (1, "(force q0)", ()), (1, "(force (delay {}))", ("E",)), (1, "(force (delay-force (delay {})))", ("E",))]
g = Grammar({"E": E})
es = []
for n in range(1, 6 if quick else 7):
    for e in g.terms("E", n):
        for d in ("(delay %s)", "(delay-force (delay %s))", "(delay-force (begin (set! x (+ x 10)) (delay %s)))"):
            es.append("(let* ((p (make-parameter 0)) (x 0) (q0 #f)) (set! q0 %s) (define (f) (guard (e (#t (list 'raised e (p)))) (force q0))) (let* ((a (parameterize ((p 3)) (f))) (b (f)) (d (parameterize ((p 7)) (f)))) (list a b d x)))" % (d % e))
ref.judge_programs(c, "promises that raise", [e.replace("(set! q0", "(define z (set! q0", 1).replace("(define (f)", ") (define (f)", 1) if False else e.replace("(let* ((p (make-parameter 0)) (x 0) (q0 #f)) (set! q0 ", "(let* ((p (make-parameter 0)) (x 0) (q0 #f) (f (lambda () (guard (e (#t (list 'raised e (p)))) (force q0))))) (set! q0 ").replace(" (define (f) (guard (e (#t (list 'raised e (p)))) (force q0)))", "") for e in es], "", preamble=IMPORTS, max_steps=4000)

# ---- chains of delayed forces run in bounded space
chains = {
    "direct": "(define (loop n) (delay-force (if (= n 0) (delay (live)) (loop (- n 1)))))",
    "outer": "(define (loop n) (if (= n 0) (delay (live)) (delay-force (loop (- n 1)))))",
    "mutual": "(define (loop n) (delay-force (if (= n 0) (delay (live)) (other (- n 1))))) (define (other n) (delay-force (if (= n 0) (delay (live)) (loop (- n 1)))))",
    "make-promise": "(define (loop n) (delay-force (if (= n 0) (make-promise (live)) (loop (- n 1)))))",
    "stream": "(define (stream n) (delay (cons n (stream (+ n 1))))) (define (drop s n) (delay-force (if (= n 0) (delay (live)) (drop (cdr (force s)) (- n 1))))) (define (loop n) (drop (stream 0) n))",
    "filter": "(define (stream n) (delay (cons n (stream (+ n 1))))) (define (filt s k) (delay-force (let ((v (force s))) (if (= (car v) k) (delay (live)) (filt (cdr v) k))))) (define (loop n) (filt (stream 0) n))",
}
cs, xs = [], []
for name, d in chains.items():
    for a, b in ((50, 500), (100, 1000), (10, 2000)):
        cs.append("(begin %s (let* ((x (force (loop %d))) (y (force (loop %d)))) (<= (abs (- x y)) 40)))" % (d, a, b)); xs.append("#t")
c.compare("bounded chains", cs, xs, IMPORTS, cpu_ms=20000, each=True)

c.assumptions += ["programs whose reference outcome depends on the order of evaluation of operands are not judged"]
c.finish("every program of the grammars up to the size judged by the CEK reference machine; live objects of delay-force chains of different length compared")
