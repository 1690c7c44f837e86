"""E01: evaluation of the core and derived forms. All programs of several sub-grammars up to a size; reference CEK machine."""
import sys, os, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
from grammar import *
import ref

c = Check("E01", "model_checking")
c.build()
quick = c.quick
J = lambda name, es, **kw: ref.judge_programs(c, name, es, kw.pop("prelude", ""), preamble=IMPORTS + kw.pop("pre", ""), max_steps=kw.pop("steps", 4000), **kw)
def upto(g, nt, n): return [e for k in range(1, n + 1) for e in g.terms(nt, k)]

# ---- lexical scope: every way of binding and assigning two names
SC = [(1, "1", ()), (1, "x", ()), (1, "y", ()),
      (1, "(list {} {})", ("E", "E")),
      (1, "(begin (set! x {}) {})", ("E", "E")),
      (1, "(begin (set! y {}) {})", ("E", "E")),
      (1, "((lambda (x) {}) {})", ("E", "E")),
      (1, "((lambda (y) {}) {})", ("E", "E")),
      (1, "((lambda (x . y) {}) {} 3)", ("E", "E")),
      (1, "((lambda x {}) {})", ("E", "E")),
      (1, "((lambda (y x) {}) {} {})", ("E", "E", "E")),
      (1, "(let ((x {}) (y {})) {})", ("E", "E", "E")),
      (1, "(let* ((x {}) (y {})) {})", ("E", "E", "E")),
      (1, "(let ((f (lambda () {}))) (let ((x {})) (list (f) x y)))", ("E", "E")),
      (1, "(let ((f (lambda (y) {}))) (list (f {}) (f 8)))", ("E", "E")),
      (1, "((lambda (x) (define y {}) {}) {})", ("E", "E", "E")),
      (1, "((lambda () (define x {}) (define (y) {}) (list x (y))))", ("E", "E")),
      (1, "(letrec ((x (lambda () {})) (y 6)) (list {} (x)))", ("E", "E")),
      (1, "(let x ((y 1)) (if (< y 2) (x (+ y 1)) {}))", ("E",)),
      (1, "(do ((x 0 (+ x 1)) (y '() (cons {} y))) ((= x 2) {}))", ("E", "E")),
      ]
g = Grammar({"E": SC})
es = ["(let ((x 10) (y 20)) (let ((r %s)) (list r x y)))" % number(e) for e in upto(g, "E", 5)]
es += ["(begin (set! x 10) (set! y 20) (let ((r %s)) (list r x y)))" % number(e) for e in upto(g, "E", 4)]
SMALL = [p for p in SC if p[1] in ("x", "y", "1", "(list {} {})", "(begin (set! x {}) {})", "((lambda (x) {}) {})", "(let ((f (lambda () {}))) (let ((x {})) (list (f) x y)))", "((lambda (x) (define y {}) {}) {})", "(let* ((x {}) (y {})) {})", "((lambda (x . y) {}) {} 3)")]
g5 = Grammar({"E": SMALL})
es += ["(let ((x 10) (y 20)) (let ((r %s)) (list r x y)))" % number(e) for e in (g5.terms("E", 6) if quick else g.terms("E", 6))]
J("scope", es, prelude="(define x 0) (define y 0)")

# ---- closures: shared and private variables, assignment through several closures, fresh bindings per iteration
CL = Grammar({"P": [(0, "(let ((r {})) (list (c0) (c1) r))", ("E",))],
      "E": [(1, "(c0)", ()), (1, "(c1)", ()), (1, "n", ()), (1, "(begin {} {})", ("E", "E")), (1, "(begin (set! n {}) n)", ("E",)), (1, "(set-and c0 {})", ("F",)),
            (1, "(begin (set! c0 {}) (c0))", ("F",)), (1, "(begin (set! c1 {}) (c1))", ("F",)), (1, "(ev '$ {})", ("E",)), (1, "({})", ("F",)), (1, "(let ((n {})) {})", ("E", "E")), (1, "(let loop ((n 2) (c0 c1)) (if (= n 0) {} (loop (- n 1) {})))", ("E", "F")),
            (1, "(for-each (lambda (n) (ev '$ {})) '(7 8))", ("E",)), (1, "(apply (lambda (n . l) {}) {} '(1 2))", ("E", "E"))],
      "F": [(1, "(counter {})", ("E",)), (1, "(lambda () {})", ("E",)), (1, "c0", ()), (1, "c1", ()), (1, "(let ((n {})) (lambda () (set! n (+ n 1)) n))", ("E",)), (1, "(if (= n 5) {} {})", ("F", "F"))]})
CL.prods["E"] = [p for p in CL.prods["E"] if "set-and" not in p[1]]
PRE = "(define (counter n) (lambda () (set! n (+ n 1)) n))"
es = ["(let* ((n 5) (fuel 0) (c0 (counter 100)) (c1 (let ((n 200)) (lambda () (set! n (+ n 1)) n)))) %s)" % number(e) for e in upto(CL, "P", 5)]
es += ["(let* ((n 5) (fuel 0) (c0 (lambda () (set! n (+ n 1)) n)) (c1 (counter 300))) %s)" % number(e) for e in upto(CL, "P", 4 if quick else 5)]
J("closures", es, prelude=PRE, steps=1500)

# ---- conditionals and sequencing
A = [(1, "#f", ()), (1, "'()", ()), (1, "0", ()), (1, "'a", ()), (1, "(ev '$ {})", ("A",))]
E = [(0, "{}", ("A",)),
     (1, "(if {} {} {})", ("E", "E", "E")),
     (1, "(if {} {} (ev 'else$))", ("E", "E")),
     (1, "(cond ({} {}) ({} {}) (else {}))", ("E", "E", "E", "E", "E")),
     (1, "(cond ({}) (else {}))", ("E", "E")),
     (1, "(cond ({} => (lambda (v) (list 'got v))) ({} => list) (else {}))", ("E", "E", "E")),
     (1, "(cond ({} (ev 'c$) {}) (else (ev 'e$) {}))", ("E", "E", "E")),
     (1, "(case {} ((0 a) {}) ((#f) {}) (else {}))", ("E", "E", "E", "E")),
     (1, "(case {} ((a) => (lambda (v) (list v {}))) (else => list))", ("E", "E")),
     (1, "(case {} ((() 1 \"s\") {}) ((#f 0) (ev 'k$) {}) (else 'none))", ("E", "E", "E")),
     (1, "(and {} {})", ("E", "E")), (1, "(and {} {} {})", ("E", "E", "E")), (1, "(or {} {})", ("E", "E")), (1, "(or {} {} {})", ("E", "E", "E")),
     (1, "(not {})", ("E",)),
     (1, "(begin {} {})", ("E", "E")),
     (1, "(list (when {} (ev 'w$) {}))", ("E", "E")), (1, "(list (unless {} (ev 'u$) {}))", ("E", "E")),
     (1, "(do ((i 0 (+ i 1)) (acc '() (cons {} acc))) ((or (= i 2) {}) (ev 'done$) acc) (ev 'body$ i))", ("E", "E"))]
g = Grammar({"A": A, "E": E})
def valued(e): return not (e.startswith("(list (when") or e.startswith("(list (unless"))
es = ["(list %s)" % number(e) for e in upto(g, "E", 5)]
if not quick: es += ["(list %s)" % number(e) for e in Grammar({"A": A[:3], "E": [p for p in E if p[1].count("{}") <= 2]}).terms("E", 6)]
# the values of (when #f ...), (unless #t ...) and one-armed ifs are unspecified: only programs that do not show them are kept by serialising them away
J("conditionals", es, accept=lambda t, r: "<unspecified>" not in r[1])

# ---- multiple values, procedures of variable arity
V = [(1, "(values)", ()), (1, "(values {})", ("E",)), (1, "(values {} {})", ("E", "E")), (1, "(values {} {} {})", ("E", "E", "E")), (1, "(if {} {} {})", ("E", "V", "V")), (1, "(begin {} {})", ("E", "V")), (1, "(let ((x {})) {})", ("E", "V")), (1, "(call/cc (lambda (k) {}))", ("V",)), (1, "(call/cc (lambda (k) (k {} {})))", ("E", "E")),
     (1, "(apply values {})", ("L",)), (1, "(call-with-values (lambda () {}) values)", ("V",)), (1, "(dynamic-wind (lambda () #f) (lambda () {}) (lambda () 9))", ("V",)), (1, "(let-values (((x . y) {})) {})", ("V", "V"))]
E = [(1, "1", ()), (1, "x", ()), (1, "(ev '$ {})", ("E",)), (1, "(call-with-values (lambda () {}) list)", ("V",)), (1, "(call-with-values (lambda () {}) (lambda (x . y) (list x y)))", ("V",)), (1, "(call-with-values (lambda () {}) (case-lambda (() 'none) ((x) (list 'one x)) ((x y) (list 'two x y)) ((x . y) (list 'more x y))))", ("V",)),
     (1, "(let-values (((x y) {}) (z {})) (list x y z {}))", ("V", "V", "E")), (1, "(let*-values (((x) {}) (y {})) (list x y))", ("V", "V")), (1, "(let () (define-values (x . y) {}) (list x y {}))", ("V", "E")), (1, "(receive (x . y) {} (list x y))", ("V",)),
     (1, "(apply (lambda (x . y) (list x y)) {} {})", ("E", "L")), (1, "(apply list {})", ("L",)), (1, "(apply (case-lambda (() 'none) ((x) (list 'one x)) ((x y . z) (list 'two x y z))) {})", ("L",)), (1, "(let () (define-values (x y) {}) (list x y))", ("V",))]
E = [p for p in E if "receive" not in p[1]]
L = [(1, "'()", ()), (1, "(list {} {})", ("E", "E")), (1, "(list {})", ("E",))]
g = Grammar({"V": V, "E": E, "L": L})
es = ["(let ((x 5)) %s)" % number(e) for e in upto(g, "E", 5 if quick else 6)]
J("values and arity", es)

# ---- quasiquotation
Q = [(1, "a", ()), (1, "1", ()), (0, "()", ()), (1, "({})", ("Q",)), (1, "({} {})", ("Q", "Q")), (1, "({} . {})", ("Q", "Q")), (1, "#({} {})", ("Q", "Q")), (1, "#({})", ("Q",)), (1, ",{}", ("X",)), (1, "(,@{})", ("LX",)), (1, "({} ,@{} {})", ("Q", "LX", "Q")), (1, "#({} ,@{})", ("Q", "LX")), (1, "({} ,@{})", ("Q", "LX")), (1, "({} . ,{})", ("Q", "X")), (1, "`{}", ("R",)), (1, "'{}", ("Q",)), (1, "(,@{} . {})", ("LX", "Q")), (1, "(unquote {})", ("X",)), (1, "\"s\"", ())]
R = [(1, "b", ()), (1, "({} {})", ("R", "R")), (1, ",{}", ("Q",)), (1, ",(a ,{})", ("X",)), (1, ",@{}", ("Q",)), (1, "(b ,@{})", ("Q",)), (1, "(b ,@,{})", ("LX",)), (1, ",,{}", ("X",)), (1, ",',{}", ("X",)), (1, "`{}", ("R",)), (1, "#({})", ("R",)), (1, "({} . ,{})", ("R", "Q"))]
X = [(0, "x", ()), (1, "(+ x 1)", ()), (1, "l", ()), (1, "'{}", ("Q0",)), (1, "`{}", ("Q",)), (1, "(list x {})", ("X",)), (1, "(quote a)", ())]
LX = [(0, "l", ()), (1, "'()", ()), (1, "(list x {})", ("X",)), (1, "`({} ,x)", ("Q",))]
g = Grammar({"Q": Q, "R": R, "X": X, "LX": LX, "Q0": [(0, "a", ()), (1, "(a b)", ()), (1, "#(1 a)", ())]})
QI = c.quick
es = ["(let ((x 7) (l '(8 9))) `%s)" % e for e in upto(g, "Q", 3 if quick else 4)]
# `(unquote x) as an element and ,x are the same datum; a list whose tail is (unquote x) is a dotted unquote
J("quasiquotation", es)

# ---- the top level: definitions, redefinitions, forward references, values of sequences
F = [(1, "(define x {})", ("E",)), (1, "(define (f x) {})", ("E",)), (1, "(define (g . x) {})", ("E",)), (1, "(set! x {})", ("E",)), (1, "(define-values (x y) (values {} {}))", ("E", "E")), (1, "(begin (define y {}) (set! x y))", ("E",)), (1, "(begin {} {})", ("F", "F")), (1, "(ev '$ {})", ("E",)), (1, "(define f (let ((y {})) (lambda (z) (set! y (+ y z)) {})))", ("E", "E"))]
E = [(0, "1", ()), (0, "x", ()), (0, "y", ()), (1, "(f 3)", ()), (1, "(g 4 5)", ()), (1, "(let ((x {})) {})", ("E", "E")), (1, "(begin (set! x {}) {})", ("E", "E")), (1, "(let () (define x {}) {})", ("E", "E")), (1, "(if (eqv? x 1) {} {})", ("E", "E"))]
g = Grammar({"F": F, "E": E})
byn = {n: g.terms("F", n) for n in range(1, 4)}
seqs = []
for total in range(2, 5 if quick else 6):
    for k in range(1, 4):
        for split in compositions(total, k):
            if 0 in split or max(split) > (2 if total > 3 else 3): continue
            if total >= 4 and k < 3 and quick: continue
            pools = [byn[s] for s in split]
            if total >= 4 and quick: pools = [[p for p in q if p.count("E") == 0 and len(p) < 45] for q in pools]
            n = 1
            for q in pools: n *= len(q)
            if n > (15000 if quick else 100000): pools = [q[::(1 + n // (15000 if quick else 100000))] if i == 0 else q for i, q in enumerate(pools)]
            for s in itertools.product(*pools): seqs.append("".join(s))
es = ["(define x 2) (define y 3) (define (f a) (list 'f a x)) (define (g . r) (list 'g r y)) %s (list x y (f 1) (g))" % number(s) for s in seqs]
J("top level", es, steps=800)

# ---- bodies: internal definitions, mutual recursion, order, shadowing of the forms' own helpers
B = [(1, "(define a {})", ("X",)), (1, "(define (a) {})", ("X",)), (1, "(define b {})", ("X",)), (1, "(define (b . r) {})", ("X",)), (1, "(define c {})", ("X",)), (1, "(define-values (b c) (values {} {}))", ("X", "X")), (1, "(begin (define c {}) (define d {}))", ("X", "X")), (1, "(begin)", ()),]
X = [(0, "1", ()), (0, "p", ()), (1, "(lambda () a)", ()), (1, "(lambda () (list b c))", ()), (1, "a", ()), (1, "b", ()), (1, "(if (procedure? b) (b) b)", ()), (1, "(begin (ev 'x$) {})", ("X",)), (1, "(begin (set! p (+ p 1)) p)", ()), (1, "(let ((a 5) (b 6)) (list a b {}))", ("X",)), (1, "(letrec ((a (lambda (n) (if (= n 0) 'z (a (- n 1)))))) (a 2))", ())]
g = Grammar({"B": B, "X": X})
byn = {n: g.terms("B", n) for n in range(1, 4)}
bodies = []
for total in range(1, 5 if quick else 6):
    for k in range(1, 4):
        for split in compositions(total, k):
            if 0 in split or max(split) > 3: continue
            for s in itertools.product(*[byn[s] for s in split]):
                ds = "".join(s)
                if total == 4 and quick and ("let (" in ds or k == 1): continue
                names = [n for n in "abcd" for m in ("(define %s " % n, "(define (%s)" % n, "(define (%s " % n) for _ in range(ds.count(m))]
                if "define-values" in ds: names += ["b", "c"]
                if len(set(names)) != len(names) or not names: continue
                bodies.append((ds, names))
wraps = ["((lambda (p) {d} (list {u})) 50)", "(let ((p 50)) {d} (list {u}))", "(let* ((p 50)) {d} (list {u}))", "(letrec ((p 50)) {d} (list {u}))", "(let loop ((p 50)) {d} (list {u}))", "((lambda (p . a) {d} (list {u})) 50 60)", "(define (h p b) {d} (list {u})) (h 50 70)", "(let-values (((p c) (values 50 51))) {d} (list {u}))", "(parameterize () (let ((p 50)) {d} (list {u})))", "(guard (e (#f 0)) (let ((p 50)) {d} (list {u})))", "((case-lambda ((p) {d} (list {u}))) 50)", "(let ((p 50) (a 1)) (let ((b 2)) {d} (list {u})))", "(call/cc (lambda (p) (let ((p 50)) {d} (list {u}))))", "(let ((p 50)) (when #t (let () {d} (list {u}))))", "(let ((p 50)) (do ((i 0 (+ i 1))) ((= i 1) (let () {d} (list {u})))))"]
es = []
for i, (d, names) in enumerate(bodies):
    u = " ".join("(if (procedure? {0}) ({0}) {0})".format(n) for n in sorted(set(names))) + " p"
    for w in (wraps if (not quick or len(d) < 30) else [wraps[i % len(wraps)]]):
        es.append(number(w.replace("{d}", d).replace("{u}", u)))
J("bodies", es, steps=1500)

c.assumptions += ["programs whose reference outcome depends on the order of evaluation of operands, that refer to uninitialised or undefined variables, or do not end within the step bound, are not judged"]
c.finish("every program of the sub-grammars up to the size; judged by the CEK reference machine", bounds={"size": 5 if quick else 6})
