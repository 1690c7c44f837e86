"""V01: equivalence. eq?, eqv? and equal? on every pair of values of a catalogue, equal? on every pair of rooted graphs up to a size (oracle: bisimulation), list-shape predicates, searches and copying on every such graph."""
import sys, os, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
from refread import P, V

c = Check("V01", "model_checking")
c.build("rel")
quick = c.quick
def d(a, b): return a if quick else b
PRE = IMPORTS + "(import (srfi 1))\n"

# ---- the catalogue: (expression, eqv class, equal class). Every expression is evaluated once per place it stands in.
# eqv class None: a fresh mutable object; implementation keeps equal strings, vectors and bytevectors eqv? (recorded finding), so those only claim equal?.
CAT = []
def add(e, k, q=None): CAT.append((e, k, q if q is not None else k))
for e, k in [("#t", "t"), ("#true", "t"), ("#f", "f"), ("'()", "nil"), ("(list)", "nil"), ("'a", "sym-a"), ("(string->symbol \"a\")", "sym-a"), ("'b", "sym-b"), ("'|A|", "sym-A"), ("(string->symbol \"\")", "sym-"),
             ("#\\a", "ch-a"), ("(integer->char 97)", "ch-a"), ("#\\A", "ch-A"), ("#\\x3bb", "ch-l"), ("#\\x10ffff", "ch-max"), ("#\\x0", "ch-0"),
             ("0", "i0"), ("(- 5 5)", "i0"), ("1", "i1"), ("(/ 4 4)", "i1"), ("(quotient 4 3)", "i1"), ("-1", "i-1"), ("97", "i97"), ("2147483647", "imax"), ("2147483648", "imax1"), ("(+ 2147483647 1)", "imax1"), ("-2147483648", "imin"), ("-2147483649", "imin1"),
             ("100000000000000000000", "big"), ("(* 10000000000 10000000000)", "big"), ("-100000000000000000000", "bign"), ("(exact 1e20)", "big"), ("1/2", "r1/2"), ("(/ 2 4)", "r1/2"), ("-1/2", "r-1/2"), ("1/3", "r1/3"), ("(/ 100000000000000000001 3)", "rbig"), ("(exact .5)", "r1/2"),
             ("0.0", "f0"), ("(- 1.5 1.5)", "f0"), ("-0.0", "f-0"), ("(* -1 0.0)", "f-0"), ("1.0", "f1"), ("(inexact 1)", "f1"), ("0.5", "f.5"), ("1e20", "f1e20"), ("(inexact 100000000000000000000)", "f1e20"), ("+inf.0", "finf"), ("(/ 1. 0.)", "finf"), ("-inf.0", "f-inf"), ("97.0", "f97"), ("1.0000000000000002", "f1+"), ("5e-324", "fmin"), ("1e-323", "fmin2"),
             ("(make-rectangular 1 2)", "z12"), ("(make-rectangular 1 -2)", "z1-2"), ("(make-rectangular 1.0 2.0)", "zf12"), ("(make-rectangular 1/2 2)", "zr"),
             ("car", "car"), ("cdr", "cdr"), ("(if #f #f)", "unspec"), ("(eof-object)", "eof")]: add(e, k)
FRESH = [("(list 1 2)", "l12"), ("(cons 1 (cons 2 '()))", "l12"), ("(list 1 2.0)", "l12."), ("(cons 1 2)", "d12"), ("(list (list 1) 2)", "ll"), ("(list 'a \"s\" #\\c)", "las"), ("(list (vector 1) (list))", "lv")]
for e, q in FRESH: CAT.append((e, None, q))
CONTENT = [("\"abc\"", "s-abc"), ("(string #\\a #\\b #\\c)", "s-abc"), ("(string-copy \"abc\")", "s-abc"), ("\"abd\"", "s-abd"), ("\"ab\"", "s-ab"), ("\"\"", "s-"), ("(make-string 0 #\\a)", "s-"), ("\"\u03bb\"", "s-l"),
           ("(vector 1 2)", "v12"), ("(list->vector (list 1 2))", "v12"), ("(vector)", "v"), ("(vector 1 2.0)", "v12."), ("(vector (list 1 2))", "vl12"), ("(vector 1)", "v1"),
           ("(bytevector 1 2)", "b12"), ("(bytevector-append (bytevector 1) (bytevector 2))", "b12"), ("(bytevector)", "b"), ("(bytevector 1 2 3)", "b123"), ("(string->utf8 \"\u03bb\")", "bl"), ("(vector 97 98 99)", "v979899"), ("(bytevector 97 98 99)", "b979899")]
for e, q in CONTENT: CAT.append((e, "content", q))
CLOS = ["(lambda (x) x)", "(lambda (x) y)", "(let ((n 0)) (lambda () (set! n (+ n 1)) n))"]
for i, e in enumerate(CLOS): CAT.append((e, None if i == 2 else "closure", "closure%d" % i if i != 1 else None))
def same(i, j, what):
    """expected answer for two separate evaluations of entries i and j; None: either"""
    (e1, k1, q1), (e2, k2, q2) = CAT[i], CAT[j]
    if what == "equal":
        if "closure" in (k1, k2) or e1 in CLOS or e2 in CLOS: return None if e1 in CLOS and e2 in CLOS else False
        return q1 == q2
    if "closure" in (k1, k2) or (e1 in CLOS and e2 in CLOS): return None if e1 in CLOS and e2 in CLOS and e1 == e2 and e1 != CLOS[2] else False
    if k1 is None or k2 is None: return False
    if k1 == "content" or k2 == "content": return (None if q1 == q2 else False) if k1 == k2 else False
    return k1 == k2
def eqok(i, j):
    """eq?: None where the report leaves it open (numbers, characters, empty strings and vectors, procedures)"""
    v = same(i, j, "eqv")
    k = str(CAT[i][1])
    if v and (k.startswith("i") or k.startswith("r") or k.startswith("f") or k.startswith("z") or k.startswith("ch") or k in ("big", "bign", "imax1", "imin1", "car", "cdr")) and k not in ("f",): return None
    return v
if c.part("catalogue"):
    n = len(CAT)
    def judge_row(i):
        def j(r):
            if r.status != "v": return "must return: %s" % r.status
            rows = r.value.strip("()").split(") (")
            if len(rows) != n: return "wrong shape"
            for k, row in enumerate(rows):
                e1, e2, v1, v2, q1, q2 = [x == "#t" for x in row.strip("()").split(" ")]
                for name, got, want in (("eq?", e1, eqok(i, k)), ("eq? reversed", e2, eqok(k, i)), ("eqv?", v1, same(i, k, "eqv")), ("eqv? reversed", v2, same(k, i, "eqv")), ("equal?", q1, same(i, k, "equal")), ("equal? reversed", q2, same(k, i, "equal"))):
                    if want is not None and got != want: return "(%s %s %s) should be %s" % (name, CAT[i][0], CAT[k][0], "#t" if want else "#f")
                if (e1, v1, q1) != (e2, v2, q2) : return "not symmetric: %s %s" % (CAT[i][0], CAT[k][0])
                if (e1 and not v1) or (v1 and not q1): return "not one finer than the next: %s %s" % (CAT[i][0], CAT[k][0])
            return True
        return j
    cases = ["(let ((x %s)) (map (lambda (y) (list (eq? x y) (eq? y x) (eqv? x y) (eqv? y x) (equal? x y) (equal? y x))) (list %s)))" % (CAT[i][0], " ".join(e for e, _, _ in CAT)) for i in range(n)]
    c.states += n * n; c.transitions += n * n * 6
    c.compare("catalogue", cases, [judge_row(i) for i in range(n)], PRE + "(define y 7)\n")
    # the same object is every way the same, wherever it went
    cases = ["(let* ((x %s) (p (cons x x)) (v (vector x)) (f (lambda () x)) (y (car p))) (set! p (cons (cdr p) 0)) (list (eqv? x y) (equal? x y) (eqv? x (car p)) (eqv? (vector-ref v 0) (f)) (equal? p p) (equal? (list x) (list y)) (equal? (vector x) v) (pair? (memv x (list 1234567 y))) (pair? (member x (list 1234567 y))) (pair? (assv x (list (list y))))))" % e for e, _, _ in CAT]
    c.compare("the same object", cases, ["(%s)" % " ".join(["#t"] * 10)] * n, PRE + "(define y 7)\n")
    cases, want = [], []
    IDS = [i for i in range(n) if CAT[i][1] not in (None, "content", "closure", "unspec")]
    for i in IDS:
        x = CAT[i][0]
        # searches and case use eqv?, member and assoc equal?; the first match is found
        elems = " ".join(CAT[j][0] for j in IDS)
        first = next(k for k, j in enumerate(IDS) if CAT[j][1] == CAT[i][1])
        cases.append("(let ((l (list %s)) (x %s)) (list (- (length l) (length (memv x l))) (- (length l) (length (member x l))) (let ((a (map list l (iota (length l))))) (list (cadr (assv x a)) (cadr (assoc x a)))) (length (delete x l)) (list-index (lambda (y) (eqv? x y)) l)))" % (elems, x))
        nm = sum(CAT[j][1] != CAT[i][1] for j in IDS)
        want.append(ser([first, first, [first, first], nm, first]))
    c.compare("searches in the catalogue", cases, want, PRE)
    LITS = [(i, CAT[i][0]) for i in IDS if CAT[i][0][0] != "(" and CAT[i][0] not in ("car", "cdr")]
    LITS = [(i, e[1:] if e[0] == "'" else e) for i, e in LITS]
    uniq = {}
    for i, e in LITS: uniq.setdefault(CAT[i][1], (i, e))
    cl = " ".join("((%s) %d)" % (e, i) for i, e in uniq.values())
    cases = ["(case %s %s (else 'none))" % (CAT[i][0], cl) for i in IDS]; want = [str(uniq[CAT[i][1]][0]) if CAT[i][1] in uniq else "none" for i in IDS]
    c.compare("case", cases, want, PRE)

# ---- graphs
def graphs(shape, atoms):
    ar = [2 if s == "p" else int(s) for s in shape]
    n = len(shape)
    offs = [sum(ar[:i]) for i in range(n)]
    for fields in itertools.product(list(range(n)) + atoms, repeat=sum(ar)):
        order, todo = [0], [0]
        while todo:
            k = todo.pop(0)
            for f in fields[offs[k]:offs[k] + ar[k]]:
                if type(f) is int and f not in order: order.append(f); todo.append(f)
        if len(order) < n or order != sorted(order): continue
        yield shape, fields, offs, ar
def nodes_of(g):
    shape, fields, offs, ar = g
    nodes = [P(None, None) if s == "p" else V([]) for s in shape]
    for i, s in enumerate(shape):
        vs = [nodes[f] if type(f) is int else f for f in fields[offs[i]:offs[i] + ar[i]]]
        if s == "p": nodes[i].a, nodes[i].d = vs
        else: nodes[i].xs = vs
    return nodes
def atom(a): return "'()" if a is NIL else "'" + str(a) if isinstance(a, Sym) else lit(a)
def prog(g, root="n0"):
    shape, fields, offs, ar = g
    lets = " ".join("(n%d %s)" % (i, "(cons 0 0)" if s == "p" else "(make-vector %s 0)" % s) for i, s in enumerate(shape))
    sets = []
    for i, s in enumerate(shape):
        ps = ["n%d" % f if type(f) is int else atom(f) for f in fields[offs[i]:offs[i] + ar[i]]]
        sets += ["(set-car! n%d %s)" % (i, ps[0]), "(set-cdr! n%d %s)" % (i, ps[1])] if s == "p" else ["(vector-set! n%d %d %s)" % (i, k, p) for k, p in enumerate(ps)]
    return "(let (%s) %s %s)" % (lets, " ".join(sets), root)
def bisim_classes(roots):
    """partition refinement over all nodes: equal class ids iff the unfoldings are equal"""
    allnodes, seen, st = [], {}, list(roots)
    while st:
        x = st.pop()
        if not isinstance(x, (P, V)) or id(x) in seen: continue
        seen[id(x)] = 0; allnodes.append(x); st.extend([x.a, x.d] if isinstance(x, P) else x.xs)
    cls = {id(x): ("p",) if isinstance(x, P) else ("v", len(x.xs)) for x in allnodes}
    def key(y): return cls[id(y)] if isinstance(y, (P, V)) else ("a", ser(y))
    n = 0
    while True:
        new = {id(x): (cls[id(x)], tuple(key(y) for y in ((x.a, x.d) if isinstance(x, P) else x.xs))) for x in allnodes}
        ids = {}
        for k, v in new.items(): new[k] = ids.setdefault(v, len(ids))
        cls = new
        if len(ids) == n: break
        n = len(ids)
    return lambda x: cls[id(x)] if isinstance(x, (P, V)) else ("a", ser(x))
A2 = [Sym("a"), NIL]
SMALL = list(itertools.chain.from_iterable(graphs(s, A2) for s in ("p", "1", "2", "pp", "11", "p1", "1p", "2p", "p2") + (() if quick else ("22", "12", "21"))))
BIG = list(itertools.chain.from_iterable(graphs(s, [NIL] if quick else A2) for s in ("ppp", "pp1", "1pp", "p1p"))) if True else []
def all_pairs(name, gs):
    if not c.part(name): return
    roots = [nodes_of(g) for g in gs]
    cl = bisim_classes([r[0] for r in roots])
    k = [cl(r[0]) for r in roots]
    pre = PRE + "(define gs (vector %s))\n(define (row i) (let loop ((j 0) (acc '())) (if (= j (vector-length gs)) (reverse acc) (loop (+ j 1) (if (equal? (vector-ref gs i) (vector-ref gs j)) (cons j acc) acc)))))\n" % " ".join(prog(g) for g in gs)
    cases = ["(row %d)" % i for i in range(len(gs))]
    want = [ser([j for j in range(len(gs)) if k[i] == k[j]]) for i in range(len(gs))]
    cases += ["(equal? %s (vector-ref gs %d))" % (prog(g), i) for i, g in enumerate(gs)]; want += ["#t"] * len(gs)
    c.states += len(gs) ** 2; c.transitions += len(gs) ** 2
    c.cov.setdefault("graph_pairs", {})[name] = {"graphs": len(gs), "pairs": len(gs) ** 2, "classes": len(set(k))}
    c.compare(name, cases, want, pre, cpu_ms=20000, grain=20)
all_pairs("equal? on small graphs", SMALL)
all_pairs("equal? on graphs of three nodes", BIG)
# nodes of one and the same graph: sharing between the two sides
def inner(name, gs):
    if not c.part(name): return
    cases, want = [], []
    for g in gs:
        ns = nodes_of(g); cl = bisim_classes(ns)
        n = len(ns)
        cases.append(prog(g, "(list %s)" % " ".join("(equal? n%d n%d)" % (i, j) for i in range(n) for j in range(n))))
        want.append(ser([cl(ns[i]) == cl(ns[j]) for i in range(n) for j in range(n)]))
    c.states += len(cases); c.transitions += sum(len(g[0]) ** 2 for g in gs)
    c.compare(name, cases, want, PRE)
inner("nodes of one graph", list(itertools.chain.from_iterable(graphs(s, A2) for s in ("pp", "p1", "1p", "11", "2p", "p2", "22", "ppp", "pp1", "p1p", "1pp", "11p", "111", "p11"))))
if not quick: inner("nodes of one graph of four pairs", list(graphs("pppp", [NIL])))
# ---- list shapes, searches and copies
def shape(x):
    """('proper'|'dotted'|'circular', number of distinct pairs)"""
    seen = set()
    n = 0
    while isinstance(x, P):
        if id(x) in seen: return "circular", n
        seen.add(id(x)); n += 1; x = x.d
    return ("proper" if x is NIL else "dotted"), n
if c.part("list shapes"):
    cases, want = [], []
    for g in itertools.chain.from_iterable(graphs(s, [Sym("a"), NIL]) for s in ("p", "1", "pp", "p1", "1p", "ppp", "pp1", "p1p") + (("pppp",) if not quick else ())):
        ns = nodes_of(g); x = ns[0]; s, n = shape(x)
        cases.append(prog(g, "(list (list? n0) (proper-list? n0) (circular-list? n0) (dotted-list? n0) (pair? n0))")); want.append(ser([s == "proper", s == "proper", s == "circular", s == "dotted", isinstance(x, P)]))
        if isinstance(x, P):
            cases.append(prog(g, "(length+ n0)")) if s != "dotted" else None
            if s != "dotted": want.append(ser(n if s == "proper" else False))
            for k in range(n + (4 if s == "circular" else 1)):
                y = x
                for _ in range(k): y = y.d
                i = next((i for i, z in enumerate(ns) if z is y), None)
                if i is not None: cases.append(prog(g, "(eq? (list-tail n0 %d) n%d)" % (k, i))); want.append("#t")
                if isinstance(y, P) and isinstance(y.a, (P, V)):
                    i = next(i for i, z in enumerate(ns) if z is y.a)
                    cases.append(prog(g, "(eq? (list-ref n0 %d) n%d)" % (k, i))); want.append("#t")
        if s == "proper":
            elems = []; y = x
            while isinstance(y, P): elems.append(y.a); y = y.d
            cl = bisim_classes(ns)
            cases.append(prog(g, "(length n0)")); want.append(str(n))
            # the copy has fresh pairs, the same elements
            cases.append(prog(g, "(let ((r (list-copy n0))) (list (length r) %s (eq? r n0) (every eq? r n0)))" % ("(memq (if (pair? r) r 'none) (list n0))" ))); want.append(ser([n, False, n == 0, True]))
            # searches: by identity and by equal unfolding
            for i, t in enumerate(ns):
                fq = next((k for k, e in enumerate(elems) if e is t), None)
                fe = next((k for k, e in enumerate(elems) if isinstance(e, (P, V)) and cl(e) == cl(t)), None)
                # vectors of equal content are eqv? here (recorded finding), so the identity searches look for pairs
                if isinstance(t, P):
                    cases.append(prog(g, "(let ((q (memq n%d n0)) (v (memv n%d n0)) (m (member n%d n0))) (list (and q (- %d (length q))) (and v (- %d (length v))) (and m (- %d (length m)))))" % (i, i, i, n, n, n)))
                    want.append(ser([False if fq is None else fq, False if fq is None else fq, False if fe is None else fe]))
                cases.append(prog(g, "(let ((l (map list n0 (iota %d)))) (map (lambda (r) (and r (cadr r))) (list (assoc n%d l) (assq n%d l))))" % (n, i, i))); want.append(ser([False if fe is None else fe, False if fq is None else fq]))
        elif s == "dotted" and isinstance(x, P):
            cases.append(prog(g, "(let ((r (list-copy n0))) (list (equal? r n0) (eq? r n0) (eq? (car r) (car n0))))")); want.append("(#t #f #t)")
    c.states += len(cases); c.transitions += len(cases)
    c.compare("list shapes", cases, want, PRE)
# member and assoc with a predicate of their own: called on (x element) in order until it answers true
if c.part("custom predicates"):
    cases, want = [], []
    for n in range(d(5, 7)):
        for vs in itertools.product((1, 2, 3), repeat=n):
            for x in (1, 2, 3):
                k = next((i for i, v in enumerate(vs) if x < v), None)
                calls = [[x, v] for v in (vs if k is None else vs[:k + 1])]
                for f, l, res in (("member", "(list %s)" % " ".join(map(str, vs)), False if k is None else list(vs[k:])), ("assoc", "(list %s)" % " ".join("(list %d %d)" % (v, i) for i, v in enumerate(vs)), False if k is None else [vs[k], k])):
                    cases.append("(let* ((t '()) (r (%s %d %s (lambda (a b) (set! t (cons (list a b) t)) (< a b))))) (list r (reverse t)))" % (f, x, l)); want.append(ser([res, calls]))
    c.states += len(cases); c.transitions += len(cases)
    c.compare("custom predicates", cases, want, PRE)
# ---- size: deep, wide and heavily shared structures
if c.part("size"):
    B = "(define (dag n x f) (if (= n 0) x (dag (- n 1) (f x) f)))"
    cases = []
    for mk in ("(lambda (x) (cons x x))", "(lambda (x) (vector x x))", "(lambda (x) (list (vector x) x))", "(lambda (x) (vector (cons x x) x x))"):
        for k in (10, 20, d(60, 200)):
            cases += ["(equal? (dag %d '() %s) (dag %d '() %s))" % (k, mk, k, mk), "(not (equal? (dag %d 'a %s) (dag %d 'b %s)))" % (k, mk, k, mk), "(not (equal? (dag %d 'a %s) (dag %d 'a %s)))" % (k, mk, k + 1, mk)]
    for k in (100, 10000, d(100000, 1000000)):
        cases += ["(equal? (dag %d '() list) (dag %d '() list))" % (k, k), "(equal? (dag %d '() (lambda (x) (cons 1 x))) (dag %d '() (lambda (x) (cons 1 x))))" % (k, k), "(equal? (dag %d '() vector) (dag %d '() vector))" % (k, k), "(not (equal? (dag %d '() list) (dag %d 'x list)))" % (k, k),
                  "(let* ((mk (lambda () (dag %d '() (lambda (x) (cons 1 x))))) (a (mk)) (b (mk))) (set-cdr! (list-tail a %d) a) (set-cdr! (list-tail b %d) b) (equal? a b))" % (k, k - 1, k - 1)]
    # cycles of different lengths with the same unfolding
    for p in range(1, d(8, 20)):
        for q in range(1, d(8, 20)): cases.append("(let ((a (make-list %d 'x)) (b (make-list %d 'x))) (set-cdr! (list-tail a %d) a) (set-cdr! (list-tail b %d) b) (equal? a b))" % (p, q, p - 1, q - 1))
    c.states += len(cases); c.transitions += len(cases)
    c.compare("size", cases, ["#t"] * len(cases), PRE + B, cpu_ms=20000, grain=4)
c.traces_validated = c.transitions
c.finish("every pair of the catalogue under the three predicates both ways round; every pair of rooted graphs of the given shapes with every assignment of their fields under equal?; every node pair of every graph; list-shape predicates, searches and copies on every graph",
         bounds={"graph_nodes": d(3, 4)})
