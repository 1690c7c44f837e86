"""G02: unreachable objects are reclaimed and live ones counted exactly; the collector's set of addresses and its allocator against models."""
import sys, os, subprocess, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
from grammar import *
import gcprogs, mvbuild

c = Check("G02", "model_checking")
c.build("gcs", ("mvx", "gcm"))
quick = c.quick

def explore(name, *args):
    if not c.part(name): return
    t = time.time(); n = 8
    ps = [subprocess.Popen([c.built["gcs"]["gcm"]] + [str(a) for a in args] + [str(k), str(n)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True) for k in range(n)]
    tot = [0, 0, 0]; heap = args[0] == "heap"
    for k, p in enumerate(ps):
        out, err = p.communicate()
        done = False
        for l in out.split("\n"):
            f = l.split("\t")
            if f[0] == "V": c.violate(name, "gcm %s: %s" % (" ".join(map(str, args)), f[1]), f[2], None)
            if f[0] == "N":
                done = True
                tot = [max(tot[0], int(f[1])) if heap else tot[0] + int(f[1]), tot[1] + int(f[2]), tot[2] + int(f[3])]
        if not done:
            c.violate(name, "gcm %s (part %d of %d)" % (" ".join(map(str, args)), k, n), "the exploration ends abnormally with status %d: %s" % (p.returncode, err[-300:]), None)
    c.states += tot[0]; c.transitions += tot[1]; c.traces_validated += tot[0] if not heap else 3 * tot[1]
    c.evaluations += tot[1]; c.distinct |= {hash((name, k)) for k in range(min(tot[0], 1000000))}
    c.parts[name] = {"cases": tot[1], "states": tot[0], "comparisons": tot[2], "wall_s": round(time.time() - t, 1)}
    c.samples.append({"part": name, "case": " ".join(map(str, args)), "result": "%d states, %d transitions, %d comparisons" % tuple(tot)})
    print("part %-28s %8d states %9d transitions %10d comparisons %6.1f s" % (name, tot[0], tot[1], tot[2], time.time() - t), flush=True)

# ---- the set of addresses against a mathematical ordered set
explore("set, 64 addresses", "small", 4, 3 if quick else 4)
explore("set, 27 addresses", "small", 3, 4 if quick else 5)
explore("set, 8 addresses", "small", 2, 6 if quick else 7)
explore("set as in the collector", "real", 4 if quick else 5)
explore("exchange of sets", "swap", 4 if quick else 5)
explore("removal while iterating", "erase", 14 if quick else 16)
# ---- the allocator
for n in (1, 2, 3): explore("allocator, blocks of %d" % n, "alloc", n, 7 if quick else 9, 4)
# ---- the collector against a model heap
explore("heap, 3 nodes", "heap", 3, 3)
if not quick: explore("heap, 4 nodes", "heap", 4, 4)

# ---- programs that retain nothing
def growth(name, cases, pre, args=(), **kw):
    c.compare("growth/" + name, cases, [lambda r: True if r.value == "0" and r.status in "veoc" else "live objects grow by %s in three runs" % r.value] * len(cases), pre, flavour="gcs", args=("-g",) + args, cpu_ms=30000, **kw)
if c.part("growth"):
    c.only_ = c.only; c.only = None
    pre, progs = gcprogs.t0(mvbuild.REPO)
    progs = [p for p in progs if "(import" not in p] # an import extends the importing environment
    growth("primitives", progs, pre, ("-m",))
    g = Grammar({"E": gcprogs.CONTROL})
    es = [e for n in range(1, 4 if quick else 5) for e in g.terms("E", n)]
    growth("control", [" ".join(gcprogs.control_program(e)) for e in es], gcprogs.control_preamble(mvbuild.REPO), ("-m",))
    growth("r7rs", [" ".join(p) for p in gcprogs.r7programs()], IMPORTS, grain=2)
    growth("expansion", [e.replace("%d", str(k)) for k, e in enumerate(gcprogs.EXPANSIONS)], IMPORTS, grain=2)
    SELF = [ # structures that refer to themselves or to what created them
     "(let ((p (list 1 2))) (set-cdr! (cdr p) p) (set-car! p p))", "(let ((b (box 0))) (set-box! b (list b b)))",
     "(letrec ((f (lambda (n) (if (= n 0) (list f g) (g (- n 1))))) (g (lambda (n) (f n)))) (f 3))", "(let ((x #f)) (set! x (lambda () x)) (x))",
     "(let ((k #f)) (call/cc (lambda (c) (set! k c))) (list k))", "(let ((k #f) (n 0)) (call/cc (lambda (c) (set! k (list c k)))) (set! n (+ n 1)) (if (< n 3) ((car k) n) n))",
     "(let ((p #f)) (set! p (delay (list p))) (force p))", "(letrec ((p (delay-force (if (= 1 1) (delay (list p)) p)))) (force p))", "(let ((q (make-parameter 1))) (q) (parameterize ((q (lambda () q))) ((q))))",
     "(with-exception-handler (lambda (e) (list e)) (lambda () (raise-continuable (lambda () 1))))", "(call/cc (lambda (k) (with-exception-handler (lambda (e) (k e)) (lambda () (error \"m\" k (list k))))))",
     "(guard (e (#t (list e))) (dynamic-wind (lambda () 1) (lambda () (raise 9)) (lambda () 2)))", "(guard (e (#t e)) (raise (call/cc (lambda (k) k))))",
     "(let ((p (open-output-string))) (write (list p 1) p) (list p (get-output-string p)))", "(let ((p (open-input-string \"(a b #(c)) d\"))) (list (read p) p))", "(let ((p (open-input-bytevector (bytevector 1 2)))) (read-u8 p) p)",
     "(eval '(let ((x (list 1))) (lambda () x)) (environment '(scheme base)))", "(eval '(letrec ((f (lambda () f))) (f)) (interaction-environment))", "(let-syntax ((m (syntax-rules () ((_ a) (let ((t a)) (lambda () t)))))) (m (list 1)))",
     "(let () (define-record-type node (make-node a) node? (a node-a node-a!)) (let ((n (make-node 1))) (node-a! n (list 1)) n))", "(define-record-type node (make-node a) node? (a node-a node-a!))", "(define (f x) (define (g) (f x)) (if x (g) f))", "(define-syntax m (syntax-rules () ((_ a) (list a))))",
     "(define v (make-vector 3 (list 1)))", "(let ((v (vector 1 2))) (vector-set! v 0 (list 1 2)) (vector-map (lambda (x) (vector x)) v))", "(let loop ((i 0) (l '())) (if (< i 300) (loop (+ i 1) (cons (vector i l) l)) l))",
     "(string->symbol (string-append \"interned\" \"once\"))", "(generate-temporaries '(a b))", "(expt 7 300)", "(exact->inexact (/ (expt 3 90) (expt 2 91)))", "(list-copy (list 1 2 3))", "(call-with-values (lambda () (values 1 (list 2))) list)",
     "(call-with-output-string (lambda (p) (write 'a p)))", "(apply map list '((1 2) (3 4)))", "(make-promise (lambda () 1))", "(string->list (make-string 50 #\\a))", "(read-error? (guard (e (#t e)) (read (open-input-string \"(1\"))))", "(raise (list 1 2))", "(no-such-variable (list 1))", "(dynamic-wind (lambda () (list 1)) (lambda () (no-such-variable)) (lambda () (list 2)))",
     "(let ((k (call/cc (lambda (c) c)))) (if (procedure? k) (dynamic-wind (lambda () #f) (lambda () (k 1)) (lambda () #f)) k))", "(let ((g (lambda () (call/cc (lambda (r) (for-each (lambda (x) (call/cc (lambda (n) (r (cons x n))))) '(1 2)) (r #f)))))) (g))",
     "(with-exception-handler (lambda (e) (raise (list e))) (lambda () (raise 1)))", "(parameterize () (raise-continuable (list 1)))", "(let () (define-values (a . b) (values 1 2 3)) (list a b))", "(do ((i 0 (+ i 1)) (l '() (cons i l))) ((= i 50) l))",
    ]
    growth("vector cycles", ["(let ((v (make-vector 1))) (vector-set! v 0 v) 1)", "(let () (define-record-type node (make-node a) node? (a node-a node-a!)) (let ((n (make-node 1))) (node-a! n (list n)) 1))"], IMPORTS, grain=1)
    growth("self-reference", SELF, IMPORTS + "(import (srfi 111) (scheme r5rs) (scheme repl))\n", grain=4)
    c.only = c.only_
c.finish("every sequence of set operations up to the depth from the empty set against an ordered-set model; every canonical model heap up to the depth and size replayed on the collector (collections at the end, after every operation, at every allocation); every program of the corpus run three further times without gaining a live object",
         bounds={"set": "64 addresses depth %d, 27 depth %d, 8 depth %d; real layout 11 addresses depth %d" % ((3, 4, 6, 4) if quick else (4, 5, 7, 5)), "heap": "2 roots, pairs, boxes, syntactic closures, errors; %s" % ("3 nodes, 3 operations" if quick else "4 nodes, 4 operations")})
