"""L01: libraries and environments bind exactly what they declare. Every nesting of import-set operators up to a depth (oracle: a finite map), every import graph over a few libraries, every history of definitions and assignments
in two libraries, a program and evaluation environments (oracle: locations), every name of every standard library."""
import sys, os, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
from r7names import NAMES

c = Check("L01", "model_checking")
c.build("rel")
quick = c.quick
def d(a, b): return a if quick else b
S = " ".join

# ---- 1. import sets
LIBS = """(define-library (m a) (import (scheme base)) (export a (rename inner b) c mac (rename c d)) (begin
 (define a (list 'a 0)) (define inner (list 'b 0)) (define c (list 'c 0)) (define hidden (list 'hidden 0)) (define b (list 'internal-b 0)) (define-syntax mac (syntax-rules () ((_) (set-all! (+ 1 n)))))
 (define n 0) (define (set-all! k) (set! n k) (set! a (list 'a k)) (set! inner (list 'b k)) (set! c (list 'c k)) (list 'mac k))))
"""
PROBE = """(define nothing (environment '(only (scheme base))))
(define unbound (eval 'surely-unbound nothing))
(define (probe env n) (let ((x (eval n env))) (if (eq? x unbound) '- (if (pair? x) x (eval (list n) env)))))
"""
BASE = {"a": "a", "b": "b", "c": "c", "d": "c", "mac": "mac"}
FRESH = ["z", "hidden"]
def ops(names, small):
    ns = sorted(names)
    yield "only", (), {}
    for k in ((1, 2) if small else range(1, len(ns) + 1)):
        for s in itertools.combinations(ns, k): yield "only", s, {n: names[n] for n in s}
    for k in ((1, 2) if small else range(0, len(ns) + 1)):
        for s in itertools.combinations(ns, k): yield "except", s, {n: names[n] for n in ns if n not in s}
    for p in ("p", "a"):
        yield "prefix", p, {p + n: names[n] for n in ns}
    for k in ((0, 1) if small else (0, 1, 2)):
        for s in itertools.combinations(ns, k):
            for t in itertools.permutations(ns + FRESH, k):
                m = dict(zip(s, t))
                new = [m.get(n, n) for n in ns]
                if len(set(new)) == len(ns): yield "rename", tuple(m.items()), {m.get(n, n): names[n] for n in ns}
    if small and len(ns) > 1: # a swap
        x, y = ns[0], ns[1]
        yield "rename", ((x, y), (y, x)), {**names, x: names[y], y: names[x]}
def text(op, arg, inner):
    if op == "prefix": return "(prefix %s %s)" % (inner, arg)
    if op == "rename": return "(rename %s%s)" % (inner, "".join(" (%s %s)" % t for t in arg))
    return "(%s %s%s)" % (op, inner, "".join(" " + n for n in arg))
def sets(depth, last_small=True):
    level = [("(m a)", BASE)]
    out = list(level)
    for k in range(1, depth + 1):
        nxt = []
        for t, m in level:
            for op, arg, m2 in ops(m, small=k > 1): nxt.append((text(op, arg, t), m2))
        level = nxt
        out += level
    return out
UNIVERSE = sorted(set(x + y for x in ("", "p", "a", "pp", "pa", "ap", "aa") for y in ("a", "b", "c", "d", "mac", "z", "hidden", "inner", "set-all!", "n")))
IS = sets(2)
if not quick:
    seen = {}
    for t, m in IS: seen.setdefault(t.split(" ")[0] + str(sorted(m.items())), (t, m)) # one representative per outermost operator and set of bindings
    for t, m in list(seen.values()):
        for op, arg, m2 in ops(m, small=True): IS.append((text(op, arg, t), m2))
if c.part("import sets"):
    cases, want = [], []
    for t, m in IS:
        u = [n for n in UNIVERSE if len(n) <= 4 or n in m or n in ("inner", "hidden", "set-all!")]
        cases.append("(let* ((env (environment '%s)) (k (cadr (eval '(mac) (environment '(m a)))))) (map (lambda (n) (let ((x (probe env n))) (if (pair? x) (list (car x) (- (cadr x) k)) x))) '(%s)))" % (t, S(u)))
        w, bumped = [], 0
        uses = [n for n in u if m.get(n) == "mac"]
        # a macro use increments the count that the variables show
        def row(n):
            if n not in m: return Sym("-")
            return [Sym(m[n]), None]
        want.append([row(n) for n in u])
    def judge(w):
        def j(r):
            if r.status != "v": return "must return: " + r.status
            got, n = parse_rows(r.value), 0
            if len(got) != len(w): return "wrong shape"
            order = range(len(w)) # map may visit in any order: the variables show a count between 0 and the number of macro uses
            macs = sum(1 for x in w if isinstance(x, list) and x[0] == "mac")
            for x, g in zip(w, got):
                if x == "-":
                    if g != "-": return "an identifier that is not imported has the value %s" % (g,)
                elif not isinstance(g, list) or g[0] != x[0]: return "an imported identifier should be bound to %s, not %s" % (x[0], g)
                elif not 0 <= int(g[1]) <= macs or (x[0] == "mac" and int(g[1]) < 1): return "an imported identifier does not share the variable of the library: %s" % (g,)
            return True
        return j
    def parse_rows(v):
        toks = v.replace("(", " ( ").replace(")", " ) ").split()
        pos = 0
        def p():
            nonlocal pos
            t = toks[pos]; pos += 1
            if t == "(":
                o = []
                while toks[pos] != ")": o.append(p())
                pos += 1
                return o
            return t
        return p()
    c.states += len(IS); c.transitions += len(IS) * len(UNIVERSE)
    c.compare("import sets", cases, [judge(w) for w in want], IMPORTS + LIBS + PROBE)
    c.traces_validated += len(cases)

# ---- 2. the same sets inside a library, re-exported plainly and under other names, and imported by a program
if c.part("re-export"):
    cases, want = [], []
    for t, m in sets(d(1, 2)):
        ns = sorted(m)
        if not ns: continue
        ex = [ns[0], "(rename %s out)" % ns[0]] + ["(rename %s q-%s)" % (n, n) for n in ns[1:3]] + ns[3:]
        m2 = {ns[0]: m[ns[0]], "out": m[ns[0]], **{"q-" + n: m[n] for n in ns[1:3]}, **{n: m[n] for n in ns[3:]}}
        probes = sorted(set(["a", "b", "c", "d", "mac", "out", "inner", "z", "pa", "local"] + list(m2)))
        for form in ("(import (m t))", None):
            pre = "(define-library (m t) (export %s) (import %s (only (scheme base) define)) (begin (define local 0)))" % (S(ex), t)
            # in the program itself or in an environment of its own
            if form: run = "%s (import (m t)) (define env (interaction-environment))" % pre
            else: run = "%s (define env (environment '(m t)))" % pre
            cases.append(run + "(let ((k (cadr (eval '(mac) (environment '(only (m a) mac)))))) (map (lambda (n) (let ((x (probe env n))) (if (pair? x) (list (car x) (if (eq? (car x) 'mac) 0 (- (cadr x) k))) x))) '(%s)))" % S(n for n in probes if m2.get(n) != "mac"))
            want.append(ser([[Sym(m2[n]), 0] if n in m2 else Sym("-") for n in probes if m2.get(n) != "mac"]))
    c.states += len(cases)
    c.compare("re-export", cases, want, IMPORTS + "(import (scheme repl))" + LIBS + PROBE, each=True)
    c.traces_validated += len(cases)

# ---- 3. libraries are evaluated once each, dependencies first, whatever imports them
if c.part("import graphs"):
    N = 4
    edges = [(i, j) for i in range(N) for j in range(i)]
    cases, checks = [], []
    for bits in range(1 << len(edges)):
        G = {i: [j for k, (a, j) in enumerate(edges) if a == i and bits >> k & 1] for i in range(N)}
        libs = ""
        for i in range(N):
            imports = "".join("(import %s)" % ("(prefix (g l%d) p%d-)" % (j, j) if (i + j) % 2 else "(only (g l%d) x%d)" % (j, j)) for j in G[i])
            val = S(("p%d-x%d" % (j, j) if (i + j) % 2 else "x%d" % j) for j in G[i])
            libs += "(define-library (g l%d) (export x%d) (import (scheme base) (verif)) %s (begin (ev 'l%d) (define x%d (list %d %s))))" % (i, i, imports, i, i, i, val)
        def value(i): return [i] + [value(j) for j in G[i]]
        orders = [o for k in (1, 2, 3) for o in itertools.permutations(range(N), k)] if not quick else [o for k in (1, 2) for o in itertools.permutations(range(N), k)] + [(3, 1, 2), (0, 2, 3)]
        for o in orders:
            for style in range(d(2, 4)):
                prog = libs
                if style == 0: prog += "(import %s)" % S("(g l%d)" % i for i in o) + "(list %s)" % S("x%d" % i for i in o)
                elif style == 1: prog += "".join("(import (prefix (g l%d) r%d-))" % (i, k) for k, i in enumerate(o)) + "".join("(import (g l%d))" % i for i in o) + "(list %s)" % S("(begin (if (not (eq? x%d r%d-x%d)) (ev 'copied)) x%d)" % (i, k, i, i) for k, i in enumerate(o))
                elif style == 2: prog += "(define v (list %s))" % S(reversed(["(eval 'x%d (environment '(g l%d)))" % (i, i) for i in o])) + "(import %s)" % S("(g l%d)" % i for i in o) + "(if (not (equal? (reverse v) (list %s))) (ev 'copied))" % S("x%d" % i for i in o) + "(list %s)" % S("x%d" % i for i in o)
                else: prog += "(define-library (g top) (export v) (import (scheme base) %s) (begin (define v (list %s)))) (import (g top)) (import (g l%d)) v" % (S("(only (g l%d) x%d)" % (i, i) for i in o), S("x%d" % i for i in o), o[-1])
                cases.append(prog)
                reach = set()
                def visit(i):
                    for j in G[i]: visit(j)
                    reach.add(i)
                for i in o: visit(i)
                def j(r, G=G, o=o, reach=reach):
                    if r.status != "v": return "must return: " + r.status
                    if r.value != ser([value_of(G, i) for i in o]): return "the value should be %s" % ser([value_of(G, i) for i in o])
                    ev = [x.strip() for x in r.trace.split(";") if x.strip()]
                    want = set("l%d" % i for i in reach)
                    if len(ev) != len(set(ev)): return "a library body was evaluated twice"
                    if not want <= set(ev): return "a library body was not evaluated"
                    if set(ev) - want: return "a library nothing imports was evaluated"
                    for i in reach:
                        for k in G[i]:
                            if ev.index("l%d" % k) > ev.index("l%d" % i): return "a library was evaluated before one it imports"
                    return True
                checks.append(j)
    def value_of(G, i): return [i] + [value_of(G, j) for j in G[i]]
    c.states += len(cases); c.transitions += len(cases) * N
    c.compare("import graphs", cases, checks, IMPORTS, each=True)
    c.traces_validated += len(cases)

# ---- 4. histories of definitions and assignments
# scopes: the library (h a) [owns x], the library (h b) [owns its own x, imports the x of a as ax], the program [x imported from a until it defines its own], an environment e1 [x from a], an environment e2 [x from b].
HIST = """(define-library (h a) (export x y getx setx! getcar m) (import (scheme base)) (begin (define x 'ax) (define y 'ay) (define (getx) x) (define (setx! v) (set! x v)) (define (getcar p) (car p)) (define-syntax m (syntax-rules () ((_) (list x 'am))))))
(define-library (h b) (export (rename x bx) getbx setbx! getax bm) (import (scheme base) (rename (h a) (x ax) (m am))) (begin (define x 'bx0) (define (getbx) x) (define (setbx! v) (set! x v)) (define (getax) ax) (define-syntax m (syntax-rules () ((_) 'own-m))) (define (bm) (list (m) (am)))))
(import (h a) (prefix (h b) b:))
(define e1 (environment '(scheme base) '(h a)))
(define e2 (environment '(scheme base) '(rename (h b) (bx x))))
(define (e1x) (eval 'x e1))
"""
OPS = [("(setx! '%s)", "a"), ("(b:setbx! '%s)", "b"), ("(define x '%s)", "dp"), ("(eval '(define x '%s) e1)", "d1"), ("(eval '(define x '%s) e2)", "d2"),
       ("(eval '(setx! '%s) e1)", "a"), ("(define (car p) '%s)", "carp"), ("(eval '(define (car p) '%s) e1)", "car1"), ("(define-syntax m (syntax-rules () ((_) '%s)))", "mp"), ("(eval '(define-syntax m (syntax-rules () ((_) '%s))) e1)", "m1"),
       ("(set! x '%s)", "sp"), ("(eval '(set! x '%s) e1)", "s1"), ("(eval '(define y '%s) e1)", "y1"), ("(let ((x '%s) (car list)) (set! x (car x)))", "nop")]
OBS = "(list x (eval 'x e1) (eval 'x e2) (getx) (b:getbx) (b:getax) b:bx (car '(1)) (eval '(car '(2)) e1) (eval '(car '(3)) e2) (getcar '(4)) (m) (eval '(m) e1) (b:bm) y (eval 'y e1))"
if c.part("histories"):
    depth = d(3, 4)
    cases, want = [], []
    for k in range(0, depth + 1):
        for seq in itertools.product(range(len(OPS)), repeat=k):
            kinds = [OPS[i][1] for i in seq]
            if k == depth and quick and "nop" in kinds: continue
            A, B = ["ax"], ["bx0"]
            loc = {"p": A, "1": A, "2": B}
            own = set(); carp = car1 = None; mp = m1 = None; y1 = None
            text_, ok = [], True
            for t, i in enumerate(seq):
                v = "v%d" % t
                op, kind = OPS[i]
                text_.append(op % v)
                if kind == "a": A[0] = v
                elif kind == "b": B[0] = v
                elif kind[0] == "d":
                    if kind[1] not in own: own.add(kind[1]); loc[kind[1]] = [v]
                    else: loc[kind[1]][0] = v
                elif kind[0] == "s":
                    if kind[1] not in own: ok = False; break # assigning an imported variable is an error
                    loc[kind[1]][0] = v
                elif kind == "carp": carp = v
                elif kind == "car1": car1 = v
                elif kind == "mp": mp = v
                elif kind == "m1": m1 = v
                elif kind == "y1": y1 = v
            if not ok: continue
            if "nop" in kinds and carp: pass
            s = Sym
            lm = [s(A[0]), s("am")]
            cases.append(S(text_ + [OBS]))
            want.append(ser([s(loc["p"][0]), s(loc["1"][0]), s(loc["2"][0]), s(A[0]), s(B[0]), s(A[0]), s(B[0]), s(carp) if carp else 1, s(car1) if car1 else 2, 3, 4, s(mp) if mp else lm, s(m1) if m1 else lm, [s("own-m"), lm], s("ay"), s(y1) if y1 else s("ay")]))
    c.states += len(cases); c.transitions += sum(x.count("'v") for x in cases)
    c.compare("histories", cases, want, IMPORTS + HIST, each=True)
    c.traces_validated += len(cases)

# ---- 5. the standard libraries export exactly the names the report lists
PRE5 = IMPORTS + PROBE
if c.part("standard names"):
    cases, want = [], []
    allnames = sorted(set(n for v in NAMES.values() for n in v))
    AUX = ["...", "=>", "_", "else", "unquote", "unquote-splicing"]
    for l, ns in NAMES.items():
        for n in ns:
            if n in AUX: continue
            cases.append("(eq? unbound (eval '%s (environment '%s)))" % (n, l)); want.append("#f")
        others = [n for n in allnames if n not in ns and not (l == "(scheme r5rs)" and n == "syntax-rules")] + ["cons*", "iota", "error?", "second", "box", "%car", "secd-load-absolute", "identifier?", "r4rs"]
        cases.append("(let ((env (environment '%s))) (let f ((l '(%s)) (o '())) (if (null? l) o (f (cdr l) (if (eq? unbound (eval (car l) env)) o (cons (car l) o))))))" % (l, S(others))); want.append("()")
        # the identifiers every library shares are the same bindings
        shared = [n for n in ns if n in NAMES["(scheme base)"] and n not in AUX]
        if l not in ("(scheme base)", "(scheme r5rs)") and shared:
            for n in shared: cases.append("(eq? (eval '%s (environment '%s)) (eval '%s (environment '(scheme base))))" % (n, l, n)); want.append("#t")
        # and importing them all together is possible
    cases.append("(let ((env (environment %s))) (eval '(let* ((x (list 1 2))) (cond ((assv 1 '((1 2))) => cadr) (else x))) env))" % S("'" + l for l in NAMES if l != "(scheme r5rs)")); want.append("2")
    c.states += len(cases); c.transitions += len(NAMES) * len(allnames)
    c.compare("standard names", cases, want, PRE5)
    c.traces_validated += len(cases)

if c.part("auxiliary keywords"):
    USES = [("(cond (#f 1) (else 2))", "2"), ("(cond ((assv 1 '((1 2))) => cadr) (else 3))", "2"), ("(case 3 ((1) 1) (else 4))", "4"), ("(case 3 ((3) => list) (else 4))", "(3)"), ("(guard (e ((assv e '((5 6))) => cadr) (else (list e))) (raise 7))", "(7)"),
            ("(quasiquote (1 (unquote (+ 1 1)) (unquote-splicing (list 3 4))))", "(1 2 3 4)"), ("(let-syntax ((m (syntax-rules () ((_ x ...) (list 'm x ...))))) (m 1 2))", "(m 1 2)"), ("(cond-expand (r7rs 1))", "1"), ("(do ((i 0 (+ i 1))) ((= i 3) i))", "3")]
    KEYS = ["else", "=>", "_", "...", "unquote", "unquote-splicing", "quasiquote", "cond", "case", "guard", "syntax-rules", "do", "list", "let-syntax"]
    import re
    tok = re.compile(r"[^\s()']+")
    cases, want = [], []
    def use(t, f): return tok.sub(lambda m: f(m.group()), t)
    BOUND = set(NAMES["(scheme base)"])
    for t, v in USES:
        ks = [k for k in KEYS if k in tok.findall(t)]
        for n in range(0, len(ks) + 1):
            for sub in itertools.combinations(ks, n):
                m = {k: "%s-other" % (k if k not in ("...",) else "dots") for k in sub}
                cases.append("(eval '%s (environment '(rename (scheme base)%s)))" % (use(t.replace("'", "%q ") if False else t, lambda x: m.get(x, x)), "".join(" (%s %s)" % p for p in m.items()))); want.append(v)
        if "'" not in t:
            cases.append("(eval '%s (environment '(prefix (scheme base) s:)))" % use(t, lambda x: "s:" + x if x in BOUND and x != "r7rs" else x)); want.append(v)
    c.compare("auxiliary keywords", cases, want, PRE5)
    c.states += len(cases); c.traces_validated += len(cases)

# ---- 6. library names: distinct names are distinct libraries
if c.part("library names"):
    LN = ["(n)", "(n a)", "(n a b)", "(n |a b|)", "(|n a|)", "(n 1)", "(n 01 2)", "(n 1 2)", "(n 12)", "(n |1|)", "(n a 1)", "(N a)", "(n A)", "(n a.b)", "(n | |)", "(n || a)", "(n \u03bb)", "(n if)", "(only a)", "(define)", "(n rename)", "(n |(a)|)"]
    special = {"(only a)", "(define)"}
    LN = [n for n in LN if n not in special]
    canon = lambda n: {"(n 01 2)": "(n 1 2)"}.get(n, n)
    cases, want = [], []
    for i, a in enumerate(LN):
        for j, b in enumerate(LN):
            if i == j or canon(a) == canon(b): continue
            cases.append("(define-library %s (export x) (import (scheme base)) (begin (define x 'first))) (define-library %s (export x) (import (scheme base)) (begin (define x 'second))) (import (prefix %s a-) (prefix %s b-)) (list a-x b-x (eval 'x (environment '%s)) (eval 'x (environment '%s)))" % (a, b, a, b, b, a)); want.append("(first second second first)")
    for a in LN:
        cases.append("(define-library %s (export x) (import (scheme base)) (begin (define x 'first))) (list (cond-expand ((library %s) 1) (else 2)) (cond-expand ((library (no such)) 1) (else 2)) (guard (e (#t 'error)) (environment '(no such))))" % (a, a)); want.append("(1 2 error)")
    for p in ("|p |", "||", "P", "\u03bb", "|1|", "-", "|(|"):
        for n in ("x", "|y z|", "||", "X", "\u03bb", "|a(|", "1+", "..."):
            bare = lambda s: s.strip("|")
            cases.append("(define-library (l) (export (rename x %s)) (import (scheme base)) (begin (define x 'x))) (eq? 'x (eval (string->symbol \"%s\") (environment '(prefix (l) %s))))" % (n, bare(p) + bare(n), p)); want.append("#t")
    c.states += len(cases)
    c.compare("library names", cases, want, IMPORTS, each=True)
    c.traces_validated += len(cases)

# ---- 7. cond-expand in libraries and expressions; order of declarations; declarations spread over forms
if c.part("declarations"):
    ATOMS = [("r7rs", True), ("no-such-feature", False), ("(library (scheme base))", True), ("(library (no such library))", False), ("(library (decl x))", True)]
    req = [(t, v) for t, v in ATOMS]
    lvl = list(ATOMS)
    for _ in range(d(2, 2)):
        nxt = [("(not %s)" % t, not v) for t, v in lvl] + [("(and)", True), ("(or)", False)] + [("(and %s %s)" % (t, u), v and w) for t, v in lvl for u, w in ATOMS[:d(2, 5)]] + [("(or %s %s)" % (t, u), v or w) for t, v in lvl for u, w in ATOMS[:d(2, 5)]]
        lvl = nxt
        req += nxt
    req = list(dict.fromkeys(req))
    cases, want = [], []
    P7 = IMPORTS + "(define-library (decl x) (export v) (import (scheme base)) (begin (define v 'v)))"
    for t, v in req:
        cases.append("(list (cond-expand (%s 'yes) (else 'no)) (eval '(cond-expand ((not %s) 'no) (%s 'yes)) (environment '(scheme base))) (let () (cond-expand (%s (define x 1) (define y 2)) (else (define y 3) (define x 4))) (list x y)) (let-syntax ((m (syntax-rules () ((_ a b) (cond-expand (%s a) (else b)))))) (m 'yes 'no)))" % (t, t, t, t, t))
        want.append(ser([Sym("yes" if v else "no")] * 2 + [[1, 2] if v else [4, 3], Sym("yes" if v else "no")]))
    c.compare("cond-expand", cases, want, P7)
    cases, want = [], []
    for k, (t, v) in enumerate(req):
        if quick and k > 60: break
        cases.append("(define-library (t) (cond-expand (%s (export (rename p out)) (import (rename (decl x) (v p)))) (else (export out) (begin (define out 'no)))) (import (scheme base))) (import (t)) out" % t)
        want.append("v" if v else "no")
    parts = ["(import (scheme base))", "(export a (rename b c))", "(begin (define a 1))", "(begin (define (f) (+ a 1)) (define b (f)))", "(import (prefix (decl x) p))", "(export pv)", "(begin (define d (list a b c0)))", "(export d)", "(begin (define c0 3))"]
    for perm in itertools.permutations(range(7 if quick else 7)):
        # bodies keep their order (they are evaluated in it)
        bodies = [i for i in perm if i in (2, 3)]
        if bodies != sorted(bodies): continue
        ps = [parts[i] for i in perm if i != 6]
        if quick and perm[6] != 6: continue
        cases.append("(define-library (t) %s (begin (define c0 3)) (begin (define d (list a b c0))) (export d)) (import (t)) (list a c pv d)" % S(ps)); want.append("(1 2 v (1 2 3))")
    c.states += len(cases)
    c.compare("declarations", cases, want, P7, each=True)
    c.traces_validated += len(cases) + len(req)

# ---- 8. exported macros refer to the library's own names, whatever the importer binds
if c.part("exported macros"):
    M8 = """(define-library (x lib) (export mac1 mac2 mac3 mac4 (rename mac5 five) reset) (import (scheme base)) (begin
 (define helper 1) (define (helper-proc x) (list 'lib x)) (define-syntax helper-mac (syntax-rules () ((_ e) (list 'libmac e))))
 (define-syntax mac1 (syntax-rules () ((_) helper))) (define-syntax mac2 (syntax-rules () ((_ x) (helper-proc x)))) (define-syntax mac3 (syntax-rules () ((_ x) (helper-mac x))))
 (define-syntax mac4 (syntax-rules () ((_ x) (begin (set! helper (+ helper 1)) (let ((tmp helper)) (list tmp x (if (car '(#t)) 'y 'n)))))))
 (define-syntax mac5 (syntax-rules (key) ((_ key) 'key) ((_ other) 'other))) (define (reset) (set! helper 1))))
"""
    IMPS = [("(import (x lib))", ""), ("(import (prefix (x lib) h-))", "h-"), ("(import (rename (x lib) (mac1 mac2) (mac2 mac1)))", "swap"), ("(import (only (x lib) mac1 mac2 mac3 mac4 five reset))", "")]
    NAMES8 = ["helper", "helper-proc", "helper-mac", "tmp", "car", "list", "if", "begin", "let", "set!", "+", "quote", "key", "mac3", "mac5"]
    BIND = [("%s", None), ("(let ((%%s %s)) %%%%s)", "let"), ("(begin (define %s %s) %%s)", "define"), ("(let-syntax ((%s (syntax-rules () ((_ . x) 'captured)))) %%s)", "let-syntax"), ("(letrec ((%s %s)) %%s)", "letrec"), ("((lambda (%s . %s) %%s) 1 2)", "lambda")]
    cases, want = [], []
    for imp, style in IMPS:
        def nm(x):
            if style == "h-": return "h-" + ("five" if x == "mac5" else x)
            if style == "swap": return {"mac1": "mac2", "mac2": "mac1", "mac5": "five"}.get(x, x)
            return {"mac5": "five"}.get(x, x)
        USES = [("(%s)" % nm("mac1"), 1), ("(%s 5)" % nm("mac2"), [Sym("lib"), 5]), ("(%s 5)" % nm("mac3"), [Sym("libmac"), 5]), ("(%s 5)" % nm("mac4"), [2, 5, Sym("y")]), ("(%s other)" % nm("mac5"), Sym("other"))]
        for n in NAMES8:
            for kind in ("let", "define", "let-syntax", "define-syntax", "letrec", "lambda"):
                for u, v in USES:
                    if u.startswith("(" + n + ")") or u.startswith("(" + n + " "): continue # the use itself would be shadowed
                    if n == "mac3" and kind in ("define", "define-syntax") and style in ("", "swap"): continue
                    if kind == "let": e = "(let ((%s 'captured)) %s)" % (n, u)
                    elif kind == "define": e = "(define %s 'captured) %s" % (n, u)
                    elif kind == "let-syntax": e = "(let-syntax ((%s (syntax-rules () ((_ . x) 'captured)))) %s)" % (n, u)
                    elif kind == "define-syntax": e = "(define-syntax %s (syntax-rules () ((_ . x) 'captured))) %s" % (n, u)
                    elif kind == "letrec": e = "(letrec ((%s (lambda x 'captured))) %s)" % (n, u)
                    else: e = "((lambda (%s . rest) %s) 'captured 2)" % (n, u)
                    cases.append("%s %s" % (imp, e)); want.append(ser(v))
        # the literal of a macro matches the same binding under whatever name it was imported
        cases.append("%s (%s key)" % (imp, nm("mac5"))); want.append("key")
    c.states += len(cases)
    c.compare("exported macros", cases, want, IMPORTS + M8, each=True)
    c.traces_validated += len(cases)

# ---- 9. libraries and includes from files
if c.part("files"):
    import tempfile
    root = c.work
    os.makedirs(os.path.join(root, "sub", "deep"), exist_ok=True)
    W = lambda p, t: open(os.path.join(root, p), "w").write(t)
    W("sub/a.scm", "(define fa 'fa)"); W("sub/b.scm", "(define fb (list fa 'fb)) (define fB2 'X)"); W("sub/decl.scm", "(export fa fb) (import (scheme base)) (begin (define from-decl 1))"); W("sub/CI.scm", "(DEFINE FCI 'AbC)")
    cases, want = [], []
    for fs in itertools.product(["include", "include-ci"], repeat=2):
        for place in ("library", "program", "body", "two"):
            inc = {"two": "(%s \"sub/a.scm\") (%s \"sub/b.scm\")" % fs}.get(place, "(%s \"sub/a.scm\" \"sub/b.scm\")" % fs[0])
            x = "fb2" if (fs[1] if place == "two" else fs[0]) == "include-ci" else "fB2"
            xv = "x" if x == "fb2" else "X"
            if place in ("library", "two"): e = "(define-library (f) (export fa fb (rename %s q)) (import (scheme base)) %s) (import (f)) (list fa fb q)" % (x, inc)
            elif place == "program": e = "%s (list fa fb %s)" % (inc, x)
            else: e = "(let () %s (list fa fb %s))" % (inc, x)
            cases.append(e); want.append(ser([Sym("fa"), [Sym("fa"), Sym("fb")], Sym(xv)]))
    cases.append("(define-library (f) (include-library-declarations \"sub/decl.scm\") (include \"sub/a.scm\" \"sub/b.scm\")) (import (f)) (list fa fb)"); want.append("(fa (fa fb))")
    cases.append("(define-library (f) (include \"sub/a.scm\") (include-library-declarations \"sub/decl.scm\") (include \"sub/b.scm\")) (import (f)) (list fa fb)"); want.append("(fa (fa fb))")
    c.compare("files", cases, want, IMPORTS, each=True)
    c.states += len(cases); c.traces_validated += len(cases)

# ---- 10. files that include, load and import files: every spelling of the outer path x of the inner path x form
if c.part("nested files"):
    root = c.work
    for p in ("out/in/deep", "elsewhere"): os.makedirs(os.path.join(root, p), exist_ok=True)
    W = lambda p, t: open(os.path.join(root, p), "w").write(t)
    cases, want = [], []
    W("out/in/deep/leaf.scm", "(define leaf 'deep-leaf)"); W("leaf.scm", "(define leaf 'wrong)"); W("out/leaf.scm", "(define leaf 'out-leaf)"); W("out/in/leaf.scm", "(define leaf 'in-leaf)")
    inner = [("leaf.scm", "deep-leaf"), ("./leaf.scm", "deep-leaf"), ("../leaf.scm", "in-leaf"), ("../../leaf.scm", "out-leaf"), ("../deep/leaf.scm", "deep-leaf"), (os.path.join(root, "out/leaf.scm"), "out-leaf")]
    n = 0
    os.remove(os.path.join(root, "leaf.scm"))  # a file of the same name below the current directory is tried first; that order is not specified
    for (sp, leaf), f2 in itertools.product(inner, ("include", "include-ci", "body")):
        n += 1
        t = {"body": "(define mid (let () (include \"%s\") leaf))" % sp}.get(f2, "(%s \"%s\") (define mid leaf)" % (f2, sp))
        W("out/in/deep/mid%d.scm" % n, t)
        W("out/top%d.scm" % n, "(include \"in/deep/mid%d.scm\") (define top (list 'top mid))" % n)
        W("out/lib%d.sld" % n, "(define-library (lib%d) (export top) (import (scheme base)) (include \"in/deep/mid%d.scm\") (begin (define top (list 'top mid))))" % (n, n))
        for outer in ("out/top%d.scm", "./out/top%d.scm", "out/../out/top%d.scm", "elsewhere/../out/in/../top%d.scm", root + "/out/top%d.scm"):
            o = outer % n
            for e in ("(include \"%s\") top" % o, "(let () (include \"%s\") top)" % o, "(define-library (l) (export top) (import (scheme base)) (include \"%s\")) (import (l)) top" % o,
                      "(import (scheme load)) (let ((e (environment '(scheme base)))) (load \"%s\" e) (eval 'top e))" % o):
                cases.append(e); want.append(ser([Sym("top"), Sym(leaf)]))
            o = o.replace("top%d.scm" % n, "lib%d.sld" % n)
            cases.append("(import (scheme load)) (let ((e (environment '(scheme base)))) (load \"%s\" e) (eval 'top (environment '(lib%d))))" % (o, n)); want.append(ser([Sym("top"), Sym(leaf)]))
    # load: definitions go to the environment given, in order; without one, to the interaction environment; a failing form stops it
    W("out/seq.scm", "(define x 1) (define y (+ x 1)) (set! x (* y 10)) (define (f) (list x y))")
    for sp in ("out/seq.scm", "./out/seq.scm", os.path.join(root, "out/seq.scm")):
        cases += ["(import (scheme load)) (let ((e (environment '(scheme base)))) (load \"%s\" e) (list (eval 'x e) (eval '(f) e)))" % sp,
                  "(import (scheme load) (scheme repl)) (eval '(import (scheme base)) (interaction-environment)) (load \"%s\") (list (eval 'x (interaction-environment)) (eval '(f) (interaction-environment)))" % sp,
                  "(import (scheme load)) (define x 'mine) (let ((a (environment '(scheme base))) (b (environment '(scheme base)))) (load \"%s\" a) (load \"%s\" b) (eval '(set! x 0) a) (list x (eval 'x a) (eval 'x b) (eval '(f) a) (eval '(f) b)))" % (sp, sp)]
        want += ["(20 (20 2))", "(20 (20 2))", "(mine 0 20 (0 2) (20 2))"]
    c.states += len(cases); c.traces_validated += len(cases)
    c.compare("nested files", cases, want, IMPORTS, each=True)

c.finish("a case is one program over libraries; distinct outcomes are distinct (part, observable outcome) pairs",
         bounds={"import set depth": d(2, 3), "import graphs": "all dags over 4 libraries", "history length": d(3, 4)})
