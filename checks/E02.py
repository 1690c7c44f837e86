"""E02: proper tail calls. Every composition of tail contexts, run for two iteration counts; live heap objects at the end of the loop compared."""
import sys, os, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
from grammar import *

c = Check("E02", "model_checking")
c.build()
quick = c.quick

PRE = IMPORTS + """
(define-syntax my-if (syntax-rules () ((_ c a b) (cond (c a) (else b)))))
(define-syntax my-begin (syntax-rules () ((_ e) e) ((_ d e ...) (let ((x d)) (my-begin e ...)))))
(define-syntax my-let (syntax-rules () ((_ ((n v) ...) e ...) ((lambda (n ...) e ...) v ...))))
(define-syntax while-else (syntax-rules () ((_ t b e) (let lp ((k 1)) (if (and t (> k 0)) (begin b (lp (- k 1))) e)))))
(define (id x) x)
(define (thunk-call t) (t))
(define p (make-parameter 1))
(define one 1)
(define (twice f x) (f x))
(define v3 (vector 1 2 3))
"""
# every template holds the tail position in {}
CTX = [
    ("if-then", "(if #t {} 1)"), ("if-else", "(if #f 1 {})"), ("if-one-armed", "(if (id #t) {})"),
    ("cond-first", "(cond ((id n) {}) (else 1))"), ("cond-else", "(cond ((eq? n 'no) 1) (else (id 1) {}))"), ("cond-middle", "(cond (#f 1) ((id 2) 3 {}) (else 4))"), ("cond-=>", "(cond ((id n) => (lambda (q) {})) (else 1))"), ("cond-no-else", "(cond (#f 1) (#t {}))"), ("cond-test-only", "(cond (#f 1) ((id #f)) (else {}))"),
    ("case-datum", "(case one ((1 2) {}) (else 2))"), ("case-else", "(case one ((5) 1) (else 7 {}))"), ("case-=>", "(case one ((1) => (lambda (q) {})) (else 2))"), ("case-else-=>", "(case one ((5) 1) (else => (lambda (q) {})))"),
    ("and", "(and 1 (id 2) {})"), ("or", "(or #f (id #f) {})"), ("and-1", "(and {})"), ("or-1", "(or {})"), ("when", "(when (id #t) 1 {})"), ("unless", "(unless (id #f) 1 {})"),
    ("begin", "(begin 1 (id 2) {})"), ("begin-1", "(begin {})"),
    ("let", "(let ((a 1) (b n)) {})"), ("let-empty", "(let () {})"), ("let*", "(let* ((a n) (b a)) {})"), ("let*-empty", "(let* () {})"), ("letrec", "(letrec ((a (lambda () n)) (b (lambda () (a)))) {})"), ("letrec*", "(letrec* ((a 1) (b a)) (id b) {})"),
    ("named-let", "(let lp ((i 2)) (if (= i 0) {} (lp (- i 1))))"), ("named-let-0", "(let lp () {})"), ("do", "(do ((i 0 (+ i 1))) ((= i 2) 1 {}) (id i))"),
    ("let-values", "(let-values (((a b) (values 1 n)) (r (values 1 2 3))) {})"), ("let*-values", "(let*-values (((a . b) (values 1 n)) ((d) (id a))) {})"), ("define-values", "(let () (define-values (a b) (values 1 2)) {})"),
    ("lambda", "((lambda (a . r) {}) 1 n 3)"), ("lambda-0", "((lambda () {}))"), ("lambda-rest", "((lambda r {}) 1 2)"), ("body-define", "((lambda (a) (define b 2) (define (d) (+ a b)) {}) 1)"), ("case-lambda", "((case-lambda (() 1) ((a b . r) {}) ((a) 2)) 1 n)"), ("named-lambda", "(let ((f (lambda (a) {}))) (f n))"),
    ("apply", "(apply (lambda (a b) {}) 1 (list n))"), ("apply-0", "(apply (lambda () {}) '())"), ("apply-apply", "(apply apply (list (lambda (a) {}) '(1)))"),
    ("call/cc", "(call/cc (lambda (k) {}))"), ("call-with-current-continuation", "(call-with-current-continuation (lambda (k) {}))"), ("call/cc-escape", "(begin (call/cc (lambda (k) (k 1))) {})"),
    ("call-with-values", "(call-with-values (lambda () (values 1 n)) (lambda (a b) {}))"), ("call-with-values-producer", "(call-with-values (lambda () 5) (lambda a {}))"), ("call-with-values-list", "(call-with-values list (lambda a {}))"),
    ("values-1", "(let ((f (lambda () {}))) (thunk-call f))"), ("twice", "(twice (lambda (a) {}) n)"), ("set", "(let ((a 1)) (set! a n) {})"), ("parameterize-before", "(begin (parameterize ((p n)) (p)) {})"),
    ("guard-before", "(begin (guard (e (#t (id 3))) (raise n)) {})"), ("guard-quiet", "(begin (guard (e (#t (id 3))) n) {})"), ("guard-reraised", "(begin (guard (e (#t 1)) (guard (e ((string? e) 1)) (raise n))) {})"), ("handler-before", "(begin (with-exception-handler (lambda (e) 5) (lambda () (raise-continuable n))) {})"),
    ("wind-before", "(begin (dynamic-wind (lambda () 1) (lambda () n) (lambda () 2)) {})"), ("wind-escape", "(begin (call/cc (lambda (k) (dynamic-wind (lambda () 1) (lambda () (k n)) (lambda () 2)))) {})"),
    ("force-before", "(begin (force (delay n)) {})"), ("delay-force-before", "(begin (force (delay-force (make-promise n))) {})"), ("quasi", "(let ((a `(1 ,n ,@(list n)))) {})"), ("string-port", "(let ((o (open-output-string))) (write n o) (get-output-string o) {})"), ("eval-before", "(begin (eval '(+ 1 2) env) {})"),
    ("my-if", "(my-if #t {} 2)"), ("my-begin", "(my-begin 1 (id 2) {})"), ("my-let", "(my-let ((a 1) (b n)) 5 {})"), ("while-else", "(while-else (id #t) (id 1) {})"), ("let-syntax", "(let-syntax ((m (syntax-rules () ((_ e) (if #f 1 e))))) (m {}))"), ("letrec-syntax", "(letrec-syntax ((m (syntax-rules () ((_ e) e) ((_ a b) (m b))))) (m 1 {}))"), ("internal-syntax", "(let () (define-syntax m (syntax-rules () ((_ e) (begin 1 e)))) (m {}))"),
    ("vector-map-before", "(begin (vector-map id v3) (map id '(1 2)) (for-each id '(1 2)) (vector-for-each id v3) {})"), ("string-ops", "(let ((s (string-append \"a\" (number->string n)))) (string-length s) {})"), ("parameterized-closure", "((parameterize ((p n)) (lambda () {})))"), ("handler-closure", "((with-exception-handler id (lambda () (lambda () {}))))"), ("wind-closure", "((dynamic-wind (lambda () 1) (lambda () (lambda () {})) (lambda () 1)))"), ("guard-closure", "((guard (e (#t id)) (lambda () {})))"), ("guard-raised-closure", "((guard (e (#t (lambda () {}))) (raise n)))"), ("eval-closure", "((eval '(lambda (f) (f)) env) (lambda () {}))"), ("record", "(let () (define-record-type r (mk a) r? (a ra)) (let ((z (mk n))) (ra z) {}))"), ("case-lambda-rest", "((case-lambda ((a) 1) (r {})) n n)"), ("assq-del", "(let ((a (assv n (list (cons n n))))) (if a {} 1))"), ("stack-operand", "(if (> (+ 1 (* 2 (id 3))) 0) {} 1)"), ("make-parameter", "(let ((q (make-parameter n id))) (q) {})"), ("call-with-port", "(let ((a (call-with-port (open-input-string \"1 2\") read))) {})"), ("exception-error", "(let ((m (guard (e ((error-object? e) (error-object-message e))) (error \"m\" n)))) {})"), ("primitive-error", "(let ((m (guard (e ((error-object? e) 1)) (vector-ref v3 'x)))) {})"),
]
CTX = [x for x in CTX if x[0] not in ("primitive-error",)]
CTX.append(("primitive-error", "(let ((m (guard (e ((error-object? e) 1)) (/ n 0)))) {})"))
CTX = [(n, t.replace("(k)", "(kx)").replace("(k 1)", "(kx 1)").replace("(k n)", "(kx n)")) for n, t in CTX]
ENV = "(define env (environment '(scheme base)))"
LOOPS = [
    ("self", "(define (loop n) (if (= n 0) (live) {0})) ", "(loop (- n 1))", "(loop %d)"),
    ("mutual", "(define (loop n) (if (= n 0) (live) {0})) (define (other n) (if (= n 0) (live) {1}))", None, "(loop %d)"),
    ("closure", "(define (run m) (let loop ((n m)) (if (= n 0) (live) {0})))", "(loop (- n 1))", "(run %d)"),
    ("args", "(define (run m) (define (loop n . r) (if (= n 0) (live) {0})) (loop m 1 2))", "(loop (- n 1) n 2 3)", "(run %d)"),
    ("apply-loop", "(define (loop n) (if (= n 0) (live) {0}))", "(apply loop (list (- n 1)))", "(loop %d)"),
    ("data", "(define (loop n) (if (= n 0) (live) {0}))", "((vector-ref (vector loop) 0) (- n 1))", "(loop %d)"),
    ("object", "(define (make-object) (define (self msg) (case msg ((loop) (lambda (n) (if (= n 0) (live) {0}))))) self) (define obj (make-object))", "((obj 'loop) (- n 1))", "((obj 'loop) %d)"),
    ("cps", "(define (loop n kk) (if (= n 0) (kk (live)) {0}))", "(loop (- n 1) kk)", "(loop %d id)"),
    ("reenter", "(define cell #f) (define count 0) (define (run m) (set! count m) (call/cc (lambda (k) (set! cell k))) (let ((n count)) (if (= n 0) (live) (begin (set! count (- n 1)) {0}))))", "(cell #f)", "(run %d)"),
    ("handed-on", "(define (run m) (let ((n m)) (let ((k (call/cc (lambda (k) k)))) (if (= n 0) (live) (begin (set! n (- n 1)) {0})))))", "(k k)", "(run %d)"),
]
def program(loop, ctx, a, b):
    name, d, call, go = loop
    if call is None: d = d.replace("{0}", ctx.replace("{}", "(other (- n 1))")).replace("{1}", ctx.replace("{}", "(loop (- n 1))"))
    else: d = d.replace("{0}", ctx.replace("{}", call))
    # a first run loads what is loaded lazily; then two iteration counts
    return "(let () %s (define env (environment '(scheme base))) %s (let* ((x %s) (y %s) (z %s)) (list (<= (abs (- y x)) 12) (<= (abs (- z x)) 12))))" % ("", d, go % a, go % a, go % b)
cs, xs = [], []
for l in LOOPS:
    for _, t in CTX:
        cs.append(program(l, t, 12, 90)); xs.append("(#t #t)")
c.compare("single contexts", cs, xs, PRE, cpu_ms=20000, batch=40)

def nest(*ts):
    r = "{}"
    for t in reversed(ts): r = t.replace("{}", r)
    return r
cs, xs = [], []
skip = {"eval-before", "eval-closure", "record"}  # slow to compile in every combination; covered singly
T2 = [t for n, t in CTX if n not in skip]
for l in (LOOPS[:1] if quick else LOOPS):
    for a in T2:
        for b in T2:
            cs.append(program(l, nest(a, b), 10, 60)); xs.append("(#t #t)")
c.compare("pairs of contexts", cs, xs, PRE, cpu_ms=20000, batch=200)
if not quick:
    core = ["if-then", "cond-=>", "case-else-=>", "and", "or", "when", "let", "letrec", "named-let", "do", "let-values", "body-define", "case-lambda", "apply", "call/cc", "call-with-values", "my-begin", "wind-escape", "guard-before"]
    T3 = [t for n, t in CTX if n in core]
    cs = [program(LOOPS[0], nest(*ts), 10, 60) for ts in itertools.product(T3, repeat=3)]
    c.compare("triples of contexts", cs, ["(#t #t)"] * len(cs), PRE, cpu_ms=20000, batch=200)

# ---- the loop's result and effects are those of the iterations, whatever the context
cs, xs = [], []
for l in LOOPS:
    for nm, t in CTX:
        name, d, call, go = l
        d = d.replace("(live)", "'done")
        if call is None: d = d.replace("{0}", "(begin (ev n) %s)" % t.replace("{}", "(other (- n 1))")).replace("{1}", "(begin (ev 'o n) %s)" % t.replace("{}", "(loop (- n 1))"))
        else: d = d.replace("{0}", "(begin (ev n) %s)" % t.replace("{}", call))
        cs.append("(let () (define env (environment '(scheme base))) %s %s)" % (d, go % 4))
        xs.append(("v", "done", ("4;o 3;2;o 1;" if call is None else "3;2;1;0;" if name == "handed-on" else "4;3;2;1;"), None))
c.compare("iterations", cs, xs, PRE, cpu_ms=20000, batch=100)

# ---- long loops: neither the C++ stack nor memory is exhausted
N = 60000 if quick else 1000000
cs = ["(let () (define env 1) %s %s)" % (l[1].replace("(live)", "'done").replace("{0}", t.replace("{}", l[2] or "(other (- n 1))")).replace("{1}", t.replace("{}", "(loop (- n 1))")), l[3] % N)
      for l in LOOPS for n, t in CTX if n in ("if-then", "cond-=>", "apply", "call/cc", "call-with-values", "and")]
c.compare("long loops", cs, ["done"] * len(cs), PRE, cpu_ms=60000, batch=20)

# ---- non-tail recursion returns to every pending frame
NT = ["(+ 1 {})", "(- {} -1)", "(car (list (+ 1 {})))", "(let ((r {})) (+ r 1))", "(begin (define-values-free) {})", "(if (number? {0}) {0} 0)", "(cond ({} => (lambda (v) (+ v 1))) (else 0))", "(apply + 1 (list {}))", "(call-with-values (lambda () (values 1 {})) +)", "(+ 1 (call/cc (lambda (k) {})))", "(+ 1 (call/cc (lambda (k) (k {}))))", "(let-values (((a) {})) (+ a 1))", "(let* ((a {}) (b 1)) (+ a b))", "(letrec ((a (lambda () {}))) (+ 1 (a)))", "(do ((i 0 (+ i 1)) (acc 0 (+ 1 {}))) ((= i 1) acc))", "(vector-ref (vector (+ 1 {})) 0)", "(+ 1 (force (delay {})))", "(+ 1 (parameterize ((p 2)) {}))", "(+ 1 (dynamic-wind (lambda () 1) (lambda () {}) (lambda () 2)))", "(+ 1 (guard (e (#t 'bad)) {}))", "(+ 1 (with-exception-handler (lambda (e) 'bad) (lambda () {})))", "(+ 1 (or #f {}))", "(+ 1 (and #t {}))", "(case {} ((-1) 'bad) (else => (lambda (v) (+ v 1))))", "((lambda (f) (+ (f) 1)) (lambda () {}))", "(+ 1 (with-exception-handler (lambda (e) {}) (lambda () (raise-continuable 1))))", "(+ 1 (guard (e (#t {})) (raise 'x)))", "(+ 1 (eval (list (lambda () {})) env))"]
NT = [t for t in NT if "define-values-free" not in t and "{0}" not in t]
cs, xs = [], []
for a in NT:
    for n in (0, 1, 2, 7, 1000) + (() if quick else (20000,)):
        if "eval" in a and n > 100: n = 50
        cs.append("(let () (define env (environment '(scheme base))) (define (r n) (if (= n 0) 0 %s)) (r %d))" % (a.replace("{}", "(r (- n 1))"), n)); xs.append(str(n))
for a, b in itertools.product(NT[:-1], repeat=2):
    cs.append("(let () (define env 1) (define (r n) (if (= n 0) 0 %s)) (r 40))" % a.replace("{}", b.replace("{}", "(r (- n 1))"))); xs.append("80")
for a in NT[:20]:
    if "eval" not in a: cs.append("(let () (define (r n) (if (= n 0) 0 %s)) (r %d))" % (a.replace("{}", "(r (- n 1))"), 8000 if quick else 60000)); xs.append(str(8000 if quick else 60000))
c.compare("non-tail recursion", cs, xs, PRE, cpu_ms=60000, batch=100)

c.assumptions += ["the count of live heap objects after a full collection stands for memory; a difference of up to 12 objects between two iteration counts is tolerated (a leak of one object per iteration shows as 50 or more)"]
c.finish("every loop shape x every tail context, every pair (thorough: triple) of tail contexts, two iteration counts each; every recursion context and pair of contexts", bounds={"context_nesting": 2 if quick else 3})
