"""M01: hygiene. Every program of a family of macro definitions x binders between definition and use x uses, under every choice of names from a small alphabet; oracle: an interpreter that renames (lib/hyg.py)."""
import sys, os, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
import hyg, ref
from concurrent.futures import ProcessPoolExecutor

SHAPES = { # name: (transformer spec, uses); @T binder of the template, @F free name of the template; use: @V binder supplied, @A expression
 "let":      ("(syntax-rules () ((_ e) (let ((@T 5)) (list @T e @F))))", ["(m @A)"]),
 "lambda":   ("(syntax-rules () ((_ e) ((lambda (@T) (list e @T @F)) 5)))", ["(m @A)"]),
 "rest":     ("(syntax-rules () ((_ e) ((lambda @T (list @T e @F)) 5 6)))", ["(m @A)"]),
 "binder":   ("(syntax-rules () ((_ v e) (let ((v 6)) (list @F e))))", ["(m @V @A)"]),
 "binder in": ("(syntax-rules () ((_ v e) (let ((v 6)) (let ((@T 7)) (list v @T e @F)))))", ["(m @V @A)"]),
 "binder out": ("(syntax-rules () ((_ v e) (let ((@T 7)) (let ((v 6)) (list v @T e @F)))))", ["(m @V @A)"]),
 "binders":  ("(syntax-rules () ((_ (v e) ...) ((lambda (@T) ((lambda (v ...) (list v ... @T @F)) e ...)) 7)))", ["(m (@V @A))", "(m (@V @A) (x2 @V))"]),
 "if":       ("(syntax-rules () ((_ e) (if e (list @F e) 0)))", ["(m @A)"]),
 "or":       ("(syntax-rules () ((_ a b) (let ((@T a)) (if @T (list @T @F) b))))", ["(m #f @A)", "(m @A 0)"]),
 "swap":     ("(syntax-rules () ((_ a b) (let ((@T a)) (set! a b) (set! b @T) (list @F a b))))", ["(m x @V)", "(m @V y)"]),
 "define in": ("(syntax-rules () ((_ e) (let () (define @T 5) (list @T e @F))))", ["(m @A)"]),
 "define":   ("(syntax-rules () ((_ v e) (define v (list 'd e))))", ["(let () (m @V 3) (list @V x y))", "(let () (m @V y) (list @V x))"]),
 "define two": ("(syntax-rules () ((_ v e) (begin (define @T 5) (define v (list @T e)))))", ["(let () (m @V 3) (list @V x y))", "(let () (m @V 4) (define z @A) (list z @V))"]),
 "set":      ("(syntax-rules () ((_ v e) (let ((@T 5)) (set! v (list @T e @F)) (list @T v))))", ["(m @V @A)"]),
 "named let": ("(syntax-rules () ((_ e) (let @T ((i 0)) (if (= i 2) (list e @F) (@T (+ i 1))))))", ["(m @A)"]),
 "do":       ("(syntax-rules () ((_ e) (do ((@T 0 (+ @T 1))) ((= @T 2) (list @T e @F)))))", ["(m @A)"]),
 "letrec":   ("(syntax-rules () ((_ e) (letrec ((@T (lambda (n) (if (= n 0) (list e @F) (@T (- n 1)))))) (@T 2))))", ["(m @A)"]),
 "let*":     ("(syntax-rules () ((_ e) (let* ((@T 5) (i @T)) (list i e @F))))", ["(m @A)"]),
 "cond":     ("(syntax-rules () ((_ e) (cond (#f 0) ((list e @F) => (lambda (@T) (list @T e))) (else 0))))", ["(m @A)"]),
 "else":     ("(syntax-rules () ((_ e) (let ((@T #f)) (cond (@T 0) (else (list e @F))))))", ["(m @A)"]),
 "case":     ("(syntax-rules () ((_ e) (case 1 ((0 2) 0) ((1) (let ((@T 5)) (list @T e @F))) (else 3))))", ["(m @A)"]),
 "quote":    ("(syntax-rules () ((_ e) (let ((@T 5)) (list '@T '(@F e) e))))", ["(m @A)"]),
 "literal":  ("(syntax-rules (else @F) ((_ else) (list 'lit)) ((_ @F) (list 'free)) ((_ e) (list 'other e)))", ["(m else)", "(m @V)", "(m x)"]),
 "n-ary or": ("(syntax-rules () ((_) #f) ((_ e) e) ((_ e r ...) (let ((@T e)) (if @T @T (m r ...)))))", ["(m #f @A)", "(m #f #f @A)"]),
 "inner macro": ("(syntax-rules () ((_ e) (let-syntax ((k (syntax-rules () ((_ z) (let ((@T 8)) (list @T z e @F)))))) (let ((@T 9)) (k @T)))))", ["(m @A)"]),
 "inner use": ("(syntax-rules () ((_ e) (let-syntax ((k (syntax-rules () ((_ z) (list z e @F))))) (let ((@T 9)) (k (list @T e))))))", ["(m @A)"]),
 "macro-defining": ("(syntax-rules () ((_ n e) (let-syntax ((n (syntax-rules () ((_ z) (list z e @F))))) (let ((@T 3)) (list (n @T) (n e))))))", ["(m k @A)", "(m @V y)"]),
 "macro-defining 2": ("(syntax-rules () ((_ n e b) (let-syntax ((n (syntax-rules () ((_ z) (let ((@T 3)) (list @T z e @F)))))) b)))", ["(m k @A (k @V))", "(m k @A (let ((@V 4)) (k x)))"]),
}
CONTEXTS = {
 "let-syntax": "(let ((x 1) (y 2) (i 3) (n 4)) (let-syntax ((m @M)) @W))",
 "letrec-syntax": "(let ((x 1) (y 2) (i 3) (n 4)) (letrec-syntax ((m @M)) @W))",
 "internal": "(let ((x 1) (y 2) (i 3) (n 4)) (define-syntax m @M) @W)",
 "internal late": "(let ((i 3) (n 4)) (define-syntax m @M) (define x 1) (define (y) 2) (define (f) @W) (f))",
 "procedure": "((lambda (x . y) (define-syntax m @M) (define (i) 3) @W) 1 2)",
 "two levels": "(let ((x 1)) (let ((y 2)) (define-syntax m @M) (let ((z 0)) @W)))",
 "shadowed": "(let ((x 8) (i 7)) (let ((x 1) (y 9) (i 3)) (let-syntax ((m @M)) (let ((y 2)) @W))))",
 "shadowed internal": "(let ((x 8) (y 9)) ((lambda (y . x) (define-syntax m @M) @W) 1 2))",
 "top": "(define x 1) (define y 2) (define i 3) (define n 4) (define-syntax m @M) @W",
 "top late": "(define-syntax m @M) (define (g i) @W) (define x 1) (define (y) 2) (g 3)",
 "library": "(define-syntax m @M) (define x 1) (define (h) (let ((x 0)) @W)) (define y 2)\0(define x 51) (define y 52) (define i 53) @W",
}
TOP = ("top", "top late", "library")
WRAPS = {
 "none": "@U", "let": "(let ((@N 10)) @U)", "lambda": "((lambda (@N z) @U) 10 11)", "rest": "((lambda @N @U) 10 11)", "define": "(let () (define @N 10) @U)", "let*": "(let* ((z 10) (@N z)) @U)",
 "letrec": "(letrec ((@N 10)) @U)", "named let": "(let @N ((z 0)) @U)", "do": "(do ((@N 10 11)) (#t @U))", "macro": "(let-syntax ((@N (syntax-rules () ((_ . z) 77)))) @U)", "internal macro": "(let () (define-syntax @N (syntax-rules () ((_ . z) 77))) @U)",
 "define fn": "(let () (define (@N . z) (list 'f)) @U)", "let let": "(let ((@N 10)) (let ((@N 11)) @U))",
}
M3 = "(syntax-rules () ((_ q) (let ((x 9) (tmp 8)) (list q x))))"
class Dom: pass
FULL, MID, FEW, TINY = Dom(), Dom(), Dom(), Dom()
FULL.T = ["x", "y", "if", "list", "tmp", "else"]; FULL.F = ["x", "y"]; FULL.N = ["x", "y", "if", "list", "let", "tmp", "lambda", "else", "m2"]
FULL.A = ["x", "y", "(list x y)", "(let ((x 3)) (list x y))", "(m3 x)", "tmp", "(if x y 0)"]; FULL.V = ["x", "y", "if", "list", "tmp", "i"]; FULL.W = list(WRAPS)
MID.T = ["x", "y", "if", "tmp"]; MID.F = ["x", "y"]; MID.N = ["x", "y", "list", "tmp"]; MID.A = ["x", "(list x y)", "(m3 x)"]; MID.V = ["x", "list", "tmp"]; MID.W = [w for w in WRAPS if w not in ("let let", "internal macro", "named let", "do")]
FEW.T = ["x", "y", "if"]; FEW.F = ["x", "y"]; FEW.N = ["x", "y", "list"]; FEW.A = ["x", "(list x y)"]; FEW.V = ["x", "tmp"]; FEW.W = ["none", "let", "rest", "define", "named let", "macro", "let let"]
TINY.T = ["x", "else"]; TINY.F = ["x", "y"]; TINY.N = ["x", "y"]; TINY.A = ["x", "(list x y)"]; TINY.V = ["x"]; TINY.W = ["none", "let", "rest", "define fn", "macro"]

def fill(spec, use, dom):
    for T in dom.T if "@T" in spec else [""]:
        for F in dom.F if "@F" in spec else [""]:
            for A in dom.A if "@A" in use else [""]:
                for V in dom.V if "@V" in use else [""]:
                    yield spec.replace("@T", T).replace("@F", F), use.replace("@A", A).replace("@V", V)
def programs(shapes, ctx, dom, other=None):
    """(program for the reference, program for the implementation)"""
    seen = set()
    for s in shapes:
        spec, uses = SHAPES[s]
        for use in uses:
            for M, u in fill(spec, use, dom):
                for w in dom.W:
                    for N in dom.N if w != "none" else [""]:
                        if s == "macro-defining" and w == "let let" and u.startswith("(m %s " % N): continue # the recorded finding: a keyword bound twice around the use
                        W = WRAPS[w].replace("@U", u).replace("@N", N)
                        p = CONTEXTS[ctx].replace("@W", W)
                        m3 = "(m3 " in W
                        if m3: p = ("(define-syntax m3 %s) " % M3) + p if ctx in TOP else "(let-syntax ((m3 %s)) %s)" % (M3, p)
                        if m3 and ctx == "library": a, b = p.split("\0"); p = a + "\0" + ("(define-syntax m3 %s) " % M3) + b
                        q = p.replace("@M", M)
                        if q in seen: continue
                        seen.add(q)
                        x = q if other is None else p.replace("@M", other(M))
                        if ctx == "library": x = "(define-library (l) (import (scheme base) (verif)) (export m) (begin %s)) (import (l)) %s" % tuple(x.split("\0")) if other is None else "(define-library (l) (import (scheme base) (meevax macro-transformer) (verif)) (export m) (begin %s)) (import (l)) %s" % tuple(x.split("\0"))
                        yield q, x
def oracle(ps):
    out = []
    for p in ps:
        try: out.append(hyg.Machine().run2(*p.split("\0"), ["m"]) if "\0" in p else hyg.Machine().run(p))
        except hyg.Bad: out.append(None)
    return out
# ---- the same macros as procedures
def as_procedure(kind):
    def conv(M):
        x = ref.parse(M)[0]                       # (syntax-rules () ((_ v ...) template))
        rule = x.cdr.cdr.car; pat = hyg.items(rule.car)[1:]; t = rule.cdr.car
        pos = {v: "(list-ref f %d)" % (k + 1) for k, v in enumerate(pat)}
        ids = []
        def go(t):
            if isinstance(t, Sym):
                if t in pos: return pos[t]
                if kind == "er": return "(r '%s)" % t
                if t not in ids: ids.append(t)
                return "g%d" % ids.index(t)
            if isinstance(t, Pair): return "(cons %s %s)" % (go(t.car), go(t.cdr))
            if t is NIL: return "'()"
            return ser(t)
        b = go(t)
        if kind == "er": return "(er-macro-transformer (lambda (f r c) %s))" % b
        return "(rsc-macro-transformer (lambda (f e) (let (%s) %s)))" % (" ".join("(g%d (make-syntactic-closure e '() '%s))" % (k, i) for k, i in enumerate(ids)), b)
    return conv
PROC = [s for s, (spec, uses) in SHAPES.items() if "..." not in spec and spec.startswith("(syntax-rules () ((_ ") and spec.count("(_ ") == 1 and "(_ (" not in spec] 
PRE = "(import (scheme base) (verif))\n"
PRE2 = "(import (scheme base) (verif) (meevax macro-transformer))\n"

def judge(c, name, ps, pre, **kw):
    chunks = [[q for q, _ in ps[i:i + 1000]] for i in range(0, len(ps), 1000)]
    with ProcessPoolExecutor(8) as ex: want = [w for ws in ex.map(oracle, chunks) for w in ws]
    cases = [x for (_, x), w in zip(ps, want) if w is not None]; exp = [w for w in want if w is not None]
    c.states += len(ps); c.transitions += len(cases)
    c.compare(name, cases, exp, pre, **kw)
if __name__ == "__main__":
    c = Check("M01", "model_checking")
    c.build("rel")
    stride = int(os.environ.get("M01S", 1))
    def family(name, shapes, ctx, dom, other=None, pre=PRE):
        if not c.part(name): return
        ps = list(programs(shapes, ctx, dom, other))[::stride]
        judge(c, name, ps, pre, each=(ctx in TOP))
    quick = c.quick
    for ctx in CONTEXTS:
        few = ctx in TOP
        family("syntax-rules/" + ctx, SHAPES, ctx, (TINY if few else FEW) if quick else (FEW if few else MID))
        for kind in "er", "rsc":
            family(kind + "/" + ctx, PROC, ctx, TINY if quick or few else FEW, as_procedure(kind), PRE2)
    c.traces_validated = c.transitions
    c.finish("every program of the family (macro shape x place of definition x binder around the use x names of the template's binder, its free name, the wrapper's binder, the use's operand and binder), all combinations of the alphabets; oracle: the renaming interpreter; programs it rejects (unbound names, keywords as variables) are left out")
