"""D01: list procedures. Every procedure of (srfi 1) and the higher-order procedures of (scheme base) on every list up to a length over a small alphabet with every small argument (oracle: Python lists); the arguments are
looked at again after the call, the calls of procedure arguments are recorded where their order is specified, and structure that must be shared or fresh is probed."""
import sys, os, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

c = Check("D01", "model_checking")
c.build("rel")
quick = c.quick
def d(a, b): return a if quick else b
PRE = IMPORTS + "(import (srfi 1))\n" + """
(define-syntax vals (syntax-rules () ((_ e) (call-with-values (lambda () e) list))))
(define (in s) (lambda (x) (and (memv x s) (list x))))
(define (in/ev s) (lambda (x) (ev x) (and (memv x s) (list x))))
(define (same-parity? x y) (= (modulo x 2) (modulo y 2)))
(define (circ . xs) (apply circular-list xs))
"""
A = (0, 1, 2)
def lists(n, lo=0, alpha=A):
    for k in range(lo, n + 1): yield from itertools.product(alpha, repeat=k)
def L(xs): return "(list%s)" % "".join(" %s" % x for x in xs)
def T(xs): return ser([list(x) if isinstance(x, tuple) else x for x in xs]) if not isinstance(xs, str) else xs
def py(x):
    if isinstance(x, tuple): return [py(y) for y in x]
    if isinstance(x, list): return [py(y) for y in x]
    return x
def W(x): return ser(py(x))
class Part:
    def __init__(self, name): self.name, self.cases, self.want = name, [], []
    def pure(self, expr, want, **args):
        """expr over variables bound to fresh lists; the variables are shown again afterwards"""
        ns = list(args)
        self.cases.append("(let* (%s) (let ((r %s)) (list r%s)))" % (" ".join("(%s %s)" % (n, L(args[n])) for n in ns), expr, "".join(" " + n for n in ns)))
        self.want.append(W([want] + [args[n] for n in ns]))
    def some(self, expr, want, **args):
        """a procedure that may reuse the storage of its arguments"""
        self.cases.append("(let* (%s) %s)" % (" ".join("(%s %s)" % (n, L(args[n])) for n in args), expr)); self.want.append(W(want))
    def raw(self, expr, want): self.cases.append(expr); self.want.append(want if isinstance(want, (str, tuple)) and not (isinstance(want, tuple) and not (want and want[0] in ("v", "e"))) else W(want))
    def traced(self, expr, want, calls):
        self.cases.append(expr); self.want.append(("v", W(want), "".join(" ".join(W(a) for a in x) + ";" for x in calls)))
    def go(self):
        c.compare(self.name, self.cases, self.want, PRE)
        c.states += len(self.cases); c.transitions += len(self.cases); c.traces_validated += len(self.cases)
F = False
N = d(5, 7)

# ---- one list, one index
if c.part("selection"):
    p = Part("selection")
    ORD = ["first", "second", "third", "fourth", "fifth", "sixth", "seventh", "eighth", "ninth", "tenth"]
    for xs in lists(N):
        n = len(xs)
        p.pure("(list (length a) (length+ a) (list? a) (proper-list? a) (dotted-list? a) (circular-list? a) (null? a) (pair? a) (not-pair? a) (null-list? a) (reverse a) (list-copy a) (apply list a) (equal? a (list-copy a)) (append a) (append a a) (concatenate (list a a)) (vector->list (list->vector a)))",
               [n, n, True, True, F, F, n == 0, n > 0, n == 0, n == 0, xs[::-1], xs, xs, True, xs, xs + xs, xs + xs, xs], a=xs)
        if n: p.pure("(list (car a) (cdr a) (last a) (eq? (last-pair a) (list-tail a %d)) (vals (car+cdr a)))" % (n - 1), [xs[0], xs[1:], xs[-1], True, [xs[0], xs[1:]]], a=xs)
        p.some("(reverse! a)", xs[::-1], a=xs)
        for k in range(n + 1):
            p.pure("(list (take a %d) (drop a %d) (take-right a %d) (drop-right a %d) (list-tail a %d) (vals (split-at a %d)) (eq? (drop a %d) (list-tail a %d)) (eq? (take-right a %d) (list-tail a %d)))" % (k, k, k, k, k, k, k, k, k, n - k),
                   [xs[:k], xs[k:], xs[n - k:], xs[:n - k], xs[k:], [xs[:k], xs[k:]], True, True], a=xs)
            for e, w in (("(take! a %d)", xs[:k]), ("(drop-right! a %d)", xs[:n - k]), ("(vals (split-at! a %d))", [xs[:k], xs[k:]])): p.some(e % k, w, a=xs)
            # dotted lists: the tail counts as content of the last pair
            p.raw("(let ((a (append %s 'z))) (list (take a %d) (drop a %d) (take-right a %d) (drop-right a %d) (list-copy a) %s a))" % (L(xs), k, k, k, k, "(dotted-list? a) (list? a) (circular-list? a)"),
                  "(%s %s %s %s %s #t #f #f %s)" % (W(xs[:k]), dot(xs[k:]) if 0 else None, None, None, None, None)) if 0 else None
        for k in range(n):
            p.pure("(list (list-ref a %d) (%s a))" % (k, ORD[k]), [xs[k], xs[k]], a=xs)
            p.some("(begin (list-set! a %d 'n) a)" % k, [Sym("n") if i == k else x for i, x in enumerate(xs)], a=xs)
    dot = lambda xs: "z" if not xs else "(%s . z)" % " ".join(map(str, xs))
    for xs in lists(3):
        n = len(xs)
        p.raw("(let ((a (append %s 'z))) (list (dotted-list? a) (list? a) (circular-list? a) a))" % L(xs), "(#t #f #f %s)" % dot(xs))
        p.raw("(let ((a (append %s 'z))) (list (list-copy a) a))" % L(xs), "(%s %s)" % (dot(xs), dot(xs)))
        for k in range(n + 1):
            p.raw("(let ((a (append %s 'z))) (list (take a %d) (drop a %d) (take-right a %d) (drop-right a %d) (list-tail a %d) a))" % (L(xs), k, k, k, k, k), "(%s %s %s %s %s %s)" % (W(xs[:k]), dot(xs[k:]), dot(xs[n - k:]), W(xs[:n - k]), dot(xs[k:]), dot(xs)))
        if n:
            p.raw("(let ((a (append %s 'z))) (list (last a) (last-pair a)))" % L(xs), "(%d (%d . z))" % (xs[-1], xs[-1]))
            p.raw("(let ((a (apply circular-list %s))) (list (circular-list? a) (list? a) (dotted-list? a) (length+ a) (take a 7) (list-ref a 5) (eq? a (list-tail a %d)) (eq? a (list-tail a %d))))" % (L(xs), n, 2 * n), W([True, F, F, F, [xs[i % n] for i in range(7)], xs[5 % n], True, True]))
    full = tuple(range(10, 20))
    p.pure("(list %s)" % " ".join("(%s a)" % o for o in ORD), list(full), a=full)
    p.go()
    # every c[ad]+r on a full tree
    p = Part("cxr")
    tree = lambda path, k: path or "r" if k == 0 else "(%s . %s)" % (tree(path + "a", k - 1), tree(path + "d", k - 1))
    def sub(t, path): # path applied right to left
        for ch in reversed(path): t = t[0] if ch == "a" else t[1]
        return t
    def mk(path, k): return Sym(path) if k == 0 else Pair(mk(path + "a", k - 1), mk(path + "d", k - 1))
    def get(t, path):
        for ch in reversed(path): t = t.car if ch == "a" else t.cdr
        return t
    full = mk("x", 4)
    for k in (1, 2, 3, 4):
        for path in itertools.product("ad", repeat=k): p.cases.append("(c%sr '%s)" % ("".join(path), ser(full))); p.want.append(ser(get(full, path)))
    p.go()

# ---- construction, appending, structure
if c.part("construction"):
    p = Part("construction")
    for k in range(0, d(9, 40)):
        p.raw("(list (make-list %d 'q) (length (make-list %d)) (list-tabulate %d (lambda (i) (* i i))) (iota %d) (iota %d 7) (iota %d 7 -3) (iota %d 1/2 1/3) (apply cons* (iota %d)) (apply xcons (list %d 2)))" % (k, k, k, k, k, k, k, k + 1, k),
              ser([[Sym("q")] * k, k, [i * i for i in range(k)], list(range(k)), [7 + i for i in range(k)], [7 - 3 * i for i in range(k)], [fractions.Fraction(1, 2) + fractions.Fraction(i, 3) for i in range(k)], lst(list(range(k)), k), Pair(2, k)]))
    small = list(lists(2))
    for k in range(0, d(3, 4)):
        for xss in itertools.product(small, repeat=k):
            ns = "abcd"[:k]
            args = dict(zip(ns, xss))
            s = " ".join(ns)
            cat = sum(xss, ())
            p.pure("(list (append %s) (concatenate (list %s)) (apply append (list %s)) (append %s 9) (append %s (list 8)))" % (s, s, s, s, s), [cat, cat, cat, lst(list(cat), 9) if cat else 9, cat + (8,)], **args)
            if k: p.some("(append! %s)" % s, cat, **args); p.some("(concatenate! (list %s))" % s, cat, **args)
            if k: # the last argument is shared, the others are copied
                body = "(let ((r (append %s))) (let ((shared (or (null? %s) (eq? (list-tail r %d) %s)))) (if (pair? r) (set-car! r 'm)) (list shared%s)))" % (s, ns[-1], len(cat) - len(xss[-1]), ns[-1], "".join(" " + n for n in ns[:-1]))
                p.some(body, [True] + list(xss[:-1]), **args)
    for xs in lists(3):
        for ys in lists(2):
            p.pure("(list (append-reverse a b) (eq? (list-tail (append-reverse a b) %d) b))" % len(xs), [xs[::-1] + ys, True], a=xs, b=ys)
            p.some("(append-reverse! a b)", xs[::-1] + ys, a=xs, b=ys)
        # fresh results
        for e in ("(list-copy a)", "(reverse a)", "(map (lambda (x) x) a)", "(append a '())", "(apply list a)", "(cons 'p (apply list 5 a))", "(apply (lambda (x . r) r) 5 a)", "(call-with-values (lambda () (apply values a)) list)", "(apply (lambda r r) a)", "(take a %d)" % len(xs), "(vector->list (list->vector a))", "(map-in-order (lambda (x) x) a)"):
            if xs: p.some("(let ((r %s)) (set-car! r 'm) (set-cdr! (last-pair r) 'n) a)" % e, xs, a=xs)
        al = [Pair(x, i) for i, x in enumerate(xs)]
        p.raw("(let* ((a (map cons %s (iota %d))) (r (alist-copy a))) (let ((same (equal? a r))) (for-each (lambda (x) (set-cdr! x 'm)) r) (list same a (alist-cons 5 6 a))))" % (L(xs), len(xs)), ser([True, al, [Pair(5, 6)] + al]))
    # apply
    for k in range(0, 4):
        for xs in lists(3): p.raw("(apply list%s %s)" % ("".join(" %d" % i for i in range(10, 10 + k)), L(xs)), W(tuple(range(10, 10 + k)) + xs))
    p.go()

# ---- predicates over one list
SUBS = [s for k in range(4) for s in itertools.combinations(A, k)]
if c.part("predicates"):
    p = Part("predicates")
    for xs in lists(N):
        for s in SUBS:
            q = "(in '(%s))" % " ".join(map(str, s))
            yes, no = tuple(x for x in xs if x in s), tuple(x for x in xs if x not in s)
            i = next((i for i, x in enumerate(xs) if x in s), None)
            j = next((i for i, x in enumerate(xs) if x not in s), None)
            pre = xs if j is None else xs[:j]; post = () if j is None else xs[j:]
            bpre = xs if i is None else xs[:i]; bpost = () if i is None else xs[i:]
            p.pure("(list (filter {0} a) (remove {0} a) (vals (partition {0} a)) (find {0} a) (find-tail {0} a) (any {0} a) (every {0} a) (list-index {0} a) (count {0} a) (take-while {0} a) (drop-while {0} a) (vals (span {0} a)) (vals (break {0} a)) (filter-map {0} a) (append-map (lambda (x) (or ({0} x) '())) a))".format(q),
                   [yes, no, [yes, no], F if i is None else xs[i], F if i is None else xs[i:], F if i is None else [xs[i]], (([xs[-1]] if xs else True) if j is None else F), F if i is None else i, len(yes), pre, post, [pre, post], [bpre, bpost], [[x] for x in yes], yes], a=xs)
            for e, w in (("filter!", yes), ("remove!", no), ("take-while!", pre)): p.some("(%s %s a)" % (e, q), w, a=xs)
            for e, w in (("partition!", [yes, no]), ("span!", [pre, post]), ("break!", [bpre, bpost])): p.some("(vals (%s %s a))" % (e, q), w, a=xs)
            if len(xs) <= 4:
                qe = q.replace("(in ", "(in/ev ")
                upto_i = xs if i is None else xs[:i + 1]; upto_j = xs if j is None else xs[:j + 1]
                for e, w, calls in (("(find %s a)", F if i is None else xs[i], upto_i), ("(find-tail %s a)", F if i is None else xs[i:], upto_i), ("(any %s a)", F if i is None else [xs[i]], upto_i), ("(every %s a)", ([xs[-1]] if xs else True) if j is None else F, upto_j),
                                    ("(list-index %s a)", F if i is None else i, upto_i), ("(take-while %s a)", pre, upto_j), ("(drop-while %s a)", post, upto_j), ("(vals (span %s a))", [pre, post], upto_j), ("(vals (break %s a))", [bpre, bpost], upto_i)):
                    p.traced("(let ((a %s)) %s)" % (L(xs), e % qe), w, [(x,) for x in calls])
                if i is not None: p.some("(let ((t (find-tail %s a))) (eq? t (list-tail a %d)))" % (q, i), True, a=xs)
                # as many calls as elements
                for e in ("filter", "remove", "count", "filter-map"): p.raw("(let* ((n 0) (q %s)) (%s (lambda (x) (set! n (+ n 1)) (q x)) %s) n)" % (q, e, L(xs)), W(len(xs)))
    p.go()

# ---- several lists of unequal length
def zipped(xss): return list(zip(*xss))
FS = "(lambda xs (if (memv (apply + xs) '(%s)) xs #f))"
if c.part("several lists"):
    p = Part("several lists")
    pairs = [(a, b) for a in lists(d(3, 4)) for b in lists(d(3, 4))]
    triples = [t for t in itertools.product(list(lists(2, alpha=(0, 1))), repeat=3)]
    if quick: pairs = [(a, b) for a, b in pairs if len(a) + len(b) <= 5]
    for xss in [(a,) for a in lists(3)] + pairs + triples:
        ns = "abc"[:len(xss)]; args = dict(zip(ns, xss)); s = " ".join(ns); z = zipped(xss)
        if len(xss) > 1 and (len(xss) == 3 or not quick or len(z) > 0 or min(map(len, xss)) == 0):
            pass
        tot = [sum(t) for t in z]
        sel = (1, 3)
        fs = FS % "1 3"
        hit = [t for t in z if sum(t) in sel]
        idx = next((i for i, t in enumerate(z) if sum(t) in sel), None)
        allhit = len(hit) == len(z)
        acc = 0
        fold = ()
        for t in z: fold = (t + (fold,),) if 0 else fold
        def fold_l():
            r = Sym("k")
            for t in z: r = list(t) + [r]
            return r
        def fold_r():
            r = Sym("k")
            for t in reversed(z): r = list(t) + [r]
            return r
        m = len(z)
        def pf_l():
            r = Sym("k")
            for i in range(m): r = [len(x) - i for x in xss] + [r]
            return r
        def pf_r():
            r = Sym("k")
            for i in reversed(range(m)): r = [len(x) - i for x in xss] + [r]
            return r
        pfn = "(lambda (%s r) (list %s r))" % (s, " ".join("(length %s)" % n for n in ns))
        p.pure("(list (map + {0}) (map list {0}) (map-in-order list {0}) (filter-map {1} {0}) (append-map list {0}) (any {1} {0}) (every {1} {0}) (list-index {1} {0}) (count {1} {0}) (fold list 'k {0}) (fold-right list 'k {0}) (pair-fold {2} 'k {0}) (pair-fold-right {2} 'k {0}) (zip {0}))".format(s, fs, pfn),
               [tot, z, z, hit, sum(z, ()), F if idx is None else z[idx], (z[-1] if z else True) if allhit else F, F if idx is None else idx, len(hit), fold_l(), fold_r(), pf_l(), pf_r(), z], **args)
        p.some("(append-map! list {0})".format(s), sum(z, ()), **args)
        if all(len(x) >= len(xss[0]) for x in xss): p.some("(map! + %s)" % s, tot, **args)
        for e, w in (("for-each", None), ("map-in-order", z)):
            p.traced("(let* (%s) (let ((r (%s (lambda xs (apply ev xs) xs) %s))) %s))" % (" ".join("(%s %s)" % (n, L(args[n])) for n in ns), e, s, "r" if w is not None else "'done"), w if w is not None else Sym("done"), z)
        p.traced("(let* (%s) (pair-for-each (lambda (%s) (ev %s)) %s) 'done)" % (" ".join("(%s %s)" % (n, L(args[n])) for n in ns), s, s, s), Sym("done"), [[x[i:] for x in xss] for i in range(m)])
        # vectors and strings
        vs = " ".join("(list->vector %s)" % n for n in ns); ss = " ".join("(list->string (map (lambda (i) (integer->char (+ 97 i))) %s))" % n for n in ns)
        ch = lambda t: "".join(chr(97 + x) for x in t)
        p.pure("(list (vector->list (vector-map + {0})) (string-map (lambda (c . r) (if (null? r) (char-upcase c) (if (char<? c (car r)) c (car r)))) {1}))".format(vs, ss), [tot, "".join(ch((t[0],)).upper() if len(t) == 1 else ch((min(t[0], t[1]),)) for t in z)], **args)
        p.traced("(let* (%s) (vector-for-each ev %s) (string-for-each (lambda xs (apply ev (map char->integer xs))) %s) 'done)" % (" ".join("(%s %s)" % (n, L(args[n])) for n in ns), vs, ss), Sym("done"), [list(t) for t in z] + [[97 + x for x in t] for t in z])
        # a circular list among finite ones
        if 1 <= len(xss) <= 2 and len(xss[0]) <= 3 and (not quick or len(xss) == 1):
            z2 = zipped((itertools.cycle((5, 6)),) + xss)
            p.pure("(let ((k (circular-list 5 6))) (list (map + k {0}) (zip k {0}) (fold list 'k {0} k) (filter-map list k {0}) (append-map list k {0}) (count < {0} k) (any list k {0}) (every list k {0})))".format(s),
                   [[sum(t) for t in z2], z2, fold_of([t[1:] + t[:1] for t in z2]), z2, sum(z2, ()), len(z2) if len(xss) == 1 else sum(1 for t in z2 if all(x < y for x, y in zip(t[1:] + t[:1], t[2:] + t[:1]))), z2[0] if z2 else F, z2[-1] if z2 else True], **args) if 0 else None
    for xs in lists(3):
        z2 = list(zip(itertools.cycle((5, 6)), xs))
        def fl():
            r = Sym("k")
            for k_, x in z2: r = [x, k_, r]
            return r
        p.pure("(let ((k (circular-list 5 6))) (list (map + k a) (map + a k) (zip k a) (fold list 'k a k) (fold-right list 'k a k) (filter-map list k a) (append-map list k a) (count < a k) (any list k a) (every list k a) (list-index = k a) (map-in-order list a k)))",
               [[x + y for x, y in z2]] * 2 + [z2, fl(), fr(z2) if 0 else None, z2, sum(z2, ()), len(z2), z2[0] if z2 else F, z2[-1] if z2 else True, F, [(y, x) for x, y in z2]], a=xs) if 0 else None
        r = Sym("k")
        for k_, x in reversed(z2): r = [x, k_, r]
        p.pure("(let ((k (circular-list 5 6))) (list (map + k a) (map + a k) (zip k a) (fold list 'k a k) (fold-right list 'k a k) (filter-map list k a) (append-map list k a) (count < a k) (any list k a) (every list k a) (list-index = k a) (map-in-order list a k)))",
               [[x + y for x, y in z2]] * 2 + [z2, fl(), r, z2, sum(z2, ()), len(z2), z2[0] if z2 else F, z2[-1] if z2 else True, F, [(y, x) for x, y in z2]], a=xs)
    # unzip
    for k in range(0, 4):
        rows = [tuple(10 * i + j for j in range(5)) for i in range(k)]
        lit = "'(%s)" % " ".join("(%s)" % " ".join(map(str, r_)) for r_ in rows)
        for m in range(1, 6): p.raw("(vals (unzip%d %s))" % (m, lit), ([[r_[j] for r_ in rows] for j in range(m)]))
    # list=
    for k in range(0, d(3, 4)):
        for xss in itertools.product(list(lists(2)), repeat=k):
            p.raw("(list (list= eqv? %s) (list= same-parity? %s))" % ((" ".join(map(L, xss)),) * 2), W([len(set(xss)) <= 1, len(set(tuple(x % 2 for x in y) for y in xss)) <= 1]))
    p.go()

# ---- folding, unfolding and reducing
if c.part("folding"):
    p = Part("folding")
    for xs in lists(N):
        def rd(x, f, right):
            if not x: return Sym("id")
            if right:
                r = x[-1]
                for y in reversed(x[:-1]): r = [y, r]
            else:
                r = x[0]
                for y in x[1:]: r = [y, r]
            return r
        fl = fr = Sym("k")
        for x in xs: fl = [x, fl]
        for x in reversed(xs): fr = [x, fr]
        tails = [xs[i:] for i in range(len(xs))]
        p.pure("(list (fold cons '() a) (fold-right cons '() a) (fold list 'k a) (fold-right list 'k a) (reduce list 'id a) (reduce-right list 'id a) (reduce + 'id a) (reduce - 100 a) (pair-fold cons '() a) (pair-fold-right cons '() a) (fold + 0 a) (fold (lambda (x n) (if (= x 1) (+ n 1) n)) 0 a))",
               [xs[::-1], xs, fl, fr, rd(xs, 0, False), rd(xs, 0, True), sum(xs) if xs else Sym("id"), (__import__("functools").reduce(lambda acc, x: x - acc, xs) if xs else 100), tails[::-1], tails, sum(xs), xs.count(1)], a=xs)
        p.some("(pair-fold (lambda (q r) (set-cdr! q r) q) '() a)", xs[::-1], a=xs)
        calls = [(x, 0) for x in xs]
        if len(xs) <= 4:
            p.traced("(fold (lambda (x r) (ev x r) 0) 0 %s)" % L(xs), 0, calls)
            p.traced("(fold-right (lambda (x r) (ev x r) 0) 0 %s)" % L(xs), 0, calls[::-1])
            p.traced("(let ((a %s)) (unfold null? (lambda (s) (ev 'f (car s)) (car s)) (lambda (s) (cdr s)) a))" % L(xs), xs, [(Sym("f"), x) for x in xs]) if 0 else None
        p.pure("(list (unfold null? car cdr a) (unfold-right null? car cdr a) (unfold null? car cdr a (lambda (s) 'end)) (unfold-right null? car cdr a 'tail) (unfold-right null? car cdr a '(7)) (unfold (lambda (s) (not (pair? s))) car cdr (append a 'z) values))",
               [xs, xs[::-1], lst(list(xs), Sym("end")) if xs else Sym("end"), lst(list(xs[::-1]), Sym("tail")) if xs else Sym("tail"), xs[::-1] + (7,), lst(list(xs), Sym("z")) if xs else Sym("z")], a=xs)
    for lo in range(0, 4):
        for hi in range(lo, 7):
            p.raw("(list (unfold (lambda (x) (>= x %d)) (lambda (x) (* x x)) (lambda (x) (+ x 1)) %d) (unfold-right zero? (lambda (x) (* x x)) (lambda (x) (- x 1)) %d))" % (hi, lo, hi), [[x * x for x in range(lo, hi)], [x * x for x in range(1, hi + 1)]])
    p.go()

# ---- equivalence-based procedures
EQS = [("", lambda x, y: x == y), ("eqv?", lambda x, y: x == y), ("=", lambda x, y: x == y), ("same-parity?", lambda x, y: x % 2 == y % 2), ("<", lambda x, y: x < y), (">", lambda x, y: x > y)]
if c.part("searching"):
    p = Part("searching")
    for xs in lists(N - 1):
        for x in (0, 1, 2, 3):
            for e, f in EQS:
                i = next((i for i, y in enumerate(xs) if f(x, y)), None)
                al = [Pair(y, i_) for i_, y in enumerate(xs)]
                keep = tuple(y for y in xs if not f(x, y))
                akeep = [Pair(y, i_) for i_, y in enumerate(xs) if not f(x, y)]
                p.pure("(let ((al (map cons a (iota %d)))) (list (member %d a %s) (assoc %d al %s) (delete %d a %s) (alist-delete %d al %s) (eq? (member %d a %s) %s)%s))" % (len(xs), x, e, x, e, x, e, x, e, x, e, "#f" if i is None else "(list-tail a %d)" % i, " (list (memv %d a) (memq %d a) (assv %d al) (assq %d al))" % (x, x, x, x) if e == "" else ""),
                       [F if i is None else xs[i:], F if i is None else al[i], keep, akeep, True] + ([[F if i is None else xs[i:]] * 2 + [F if i is None else al[i]] * 2] if e == "" else []), a=xs)
                p.some("(delete! %d a %s)" % (x, e), keep, a=xs)
                p.some("(alist-delete! %d (map cons a (iota %d)) %s)" % (x, len(xs), e), akeep, a=xs)
        for e, f in EQS[:4]:
            o = []
            for y in xs:
                if not any(f(z, y) for z in o): o.append(y)
            p.pure("(delete-duplicates a %s)" % e, o, a=xs)
            p.some("(delete-duplicates! a %s)" % e, o, a=xs)
            al = [Pair(y, i_) for i_, y in enumerate(xs)]
            oo = []
            for q in al:
                if not any(f(z.car, q.car) for z in oo): oo.append(q)
            if e: p.pure("(delete-duplicates (map cons a (iota %d)) (lambda (x y) (%s (car x) (car y))))" % (len(xs), e), oo, a=xs)
    p.go()
if c.part("sets"):
    p = Part("sets")
    sets_ = [tuple(p_) for k in range(4) for p_ in itertools.permutations(A, k)]
    multi = list(lists(3)) if not quick else [x for x in lists(3) if len(x) < 3 or x[0] <= x[1]]
    SEQ = [("eqv?", lambda x, y: x == y), ("equal?", lambda x, y: x == y), ("same-parity?", lambda x, y: x % 2 == y % 2)]
    def mem(f, x, ys): return any(f(x, y) for y in ys)
    for e, f in SEQ:
        if e == "equal?" and quick: continue
        p.raw("(list (lset<= {0}) (lset= {0}) (lset-union {0}) (lset-xor {0}))".format(e), [True, True, [], []])
        for xs in multi:
            p.pure("(list (lset<= {0} a) (lset= {0} a) (lset-union {0} a) (lset-intersection {0} a) (lset-difference {0} a) (lset-xor {0} a) (lset-adjoin {0} a) (vals (lset-diff+intersection {0} a)))".format(e), [True, True, xs, xs, xs, xs, xs, [xs, ()]], a=xs)
            for k in range(1, 3):
                for ys in itertools.product((0, 1, 2, 3), repeat=k):
                    o = list(xs)
                    for y in ys:
                        if not mem(f, y, o): o.insert(0, y)
                    p.pure("(lset-adjoin %s a %s)" % (e, " ".join(map(str, ys))), o, a=xs)
        ok = lambda x: e != "same-parity?" or True
        for xs in multi:
            for ys in multi:
                sub_ = all(mem(f, x, ys) for x in xs); sup = all(mem(f, y, xs) for y in ys)
                u = list(xs)
                for y in ys:
                    if not mem(f, y, u): u.insert(0, y)
                if not xs: u = list(ys) # the accumulated list may be the other argument itself
                inter = tuple(x for x in xs if mem(f, x, ys)); diff = tuple(x for x in xs if not mem(f, x, ys))
                p.pure("(list (lset<= {0} a b) (lset= {0} a b) (lset-union {0} a b) (lset-intersection {0} a b) (lset-difference {0} a b) (vals (lset-diff+intersection {0} a b)))".format(e), [sub_, sub_ and sup, u, inter, diff, [diff, inter]], a=xs, b=ys)
                for op, w in (("lset-union!", u), ("lset-intersection!", inter), ("lset-difference!", diff)): p.some("(%s %s a b)" % (op, e), w, a=xs, b=ys)
                p.some("(vals (lset-diff+intersection! %s a b))" % e, [diff, inter], a=xs, b=ys)
        pure_sets = sets_ if e != "same-parity?" else [s for s in sets_ if len(set(x % 2 for x in s)) == len(s)]
        for xs in pure_sets:
            for ys in pure_sets:
                x2 = sorted(set([x for x in xs if not mem(f, x, ys)] + [y for y in ys if not mem(f, y, xs)]))
                so = "(let f ((i 0) (o '())) (if (< i 4) (f (+ i 1) (if (memv i r) (append o (list i)) o)) (list o (length r))))"
                p.some("(let ((r (lset-xor %s a b))) (list %s a b))" % (e, so), [[x2, len(x2)], xs, ys], a=xs, b=ys)
                p.some("(let ((r (lset-xor! %s a b))) %s)" % (e, so), [x2, len(x2)], a=xs, b=ys)
        for t in itertools.product([x for x in sets_ if list(x) == sorted(x)] + [(2, 0)], repeat=3):
            xs, ys, zs = t
            u = list(xs)
            for l in (ys, zs):
                if not u: u = list(l); continue
                for y in l:
                    if not mem(f, y, u): u.insert(0, y)
            p.pure("(list (lset<= {0} a b c) (lset= {0} a b c) (lset-union {0} a b c) (lset-intersection {0} a b c) (lset-difference {0} a b c) (vals (lset-diff+intersection {0} a b c)))".format(e),
                   [all(mem(f, x, ys) for x in xs) and all(mem(f, y, zs) for y in ys), all(all(mem(f, x, q) for x in p_) for p_, q in ((xs, ys), (ys, xs), (ys, zs), (zs, ys))), u, tuple(x for x in xs if mem(f, x, ys) and mem(f, x, zs)), tuple(x for x in xs if not mem(f, x, ys + zs)), [tuple(x for x in xs if not mem(f, x, ys + zs)), tuple(x for x in xs if mem(f, x, ys + zs))]], a=xs, b=ys, c=zs)
    p.go()

# ---- re-entry and escape from the procedure arguments; an earlier result is not changed
if c.part("re-entry"):
    p = Part("re-entry")
    OPS = [("(map %s (list 0 1 2))", "%s"), ("(vector->list (vector-map %s (vector 0 1 2)))", "%s"), ("(map-in-order %s (list 0 1 2))", "%s"), ("(filter-map %s (list 0 1 2))", "%s"), ("(map %s (list 0 1 2) (list 0 0 0 0))", "%s"), ("(append-map (lambda (x) (list (%s x))) (list 0 1 2))", "%s"),
           ("(list-tabulate 3 %s)", "%s"), ("(fold-right (lambda (x r) (cons (%s x) r)) '() (list 0 1 2))", "%s"), ("(reverse (fold (lambda (x r) (cons (%s x) r)) '() (list 0 1 2)))", "%s"), ("(unfold (lambda (x) (= x 3)) %s (lambda (x) (+ x 1)) 0)", "%s")]
    for t, _ in OPS:
        for i in range(3):
            f = "(lambda (x . r) (call/cc (lambda (c) (if (= x %d) (set! k c)) x)))" % i
            p.raw("(let ((k #f) (n 0) (results '())) (let ((r %s)) (set! results (cons r results)) (if (< n 3) (begin (set! n (+ n 1)) (k (* 10 n))) results)))" % (t % f), [[10 * n if j == i and n else j for j in range(3)] for n in (3, 2, 1, 0)])
            p.raw("(call/cc (lambda (out) %s))" % (t % ("(lambda (x . r) (if (= x %d) (out (list 'out x)) x))" % i)), W([Sym("out"), i]))
            p.raw("(guard (e (#t (list 'caught e))) %s)" % (t % ("(lambda (x . r) (if (= x %d) (raise x) x))" % i)), W([Sym("caught"), i]))
    p.go()

# ---- long lists
if c.part("long lists"):
    p = Part("long lists")
    for n in (1000, 100000) if quick else (1000, 100000, 1000000):
        q = "(iota %d)" % n
        for e, w in (("(length {0})", n), ("(length (append {0} {0}))", 2 * n), ("(car (reverse {0}))", n - 1), ("(length (list-copy {0}))", n), ("(last {0})", n - 1), ("(apply + {0})", n * (n - 1) // 2), ("(length (make-list %d 0))" % n, n), ("(length (take {0} %d))" % (n - 1), n - 1), ("(length (drop-right {0} 1))", n - 1),
                     ("(car (reverse! {0}))", n - 1), ("(length (append! {0} {0}))", 2 * n), ("(length (append-reverse {0} {0}))", 2 * n), ("(length (concatenate (list {0} {0})))", 2 * n), ("(length (drop-right! {0} 2))", n - 2), ("(vector-length (list->vector {0}))", n), ("(length (vector->list (make-vector %d 0)))" % n, n), ("(equal? {0} {0})", True),
                     ("(car (memv %d {0}))" % (n - 1), n - 1), ("(list? {0})", True), ("(length+ {0})", n), ("(length (apply list {0}))", n), ("(string-length (list->string (make-list %d #\\a)))" % n, n), ("(length (string->list (make-string %d #\\a)))" % n, n), ("(list-ref {0} %d)" % (n - 1), n - 1)):
            p.raw(e.format(q), W(w))
        if n <= 100000:
            for e, w in (("(apply + (map (lambda (x) 1) {0}))", n), ("(car (member %d {0}))" % (n - 1), n - 1), ("(assoc %d (list (list %d 1)))" % (n, n), [n, 1]), ("(let ((s 0)) (for-each (lambda (x) (set! s (+ s 1))) {0}) s)", n), ("(length (map + {0} {0}))", n), ("(vector-length (vector-map + (make-vector %d 1)))" % n, n)): p.raw(e.format(q), W(w))
    for e, w in (("(fold + 0 (iota 2000))", 1999000), ("(fold-right + 0 (iota 2000))", 1999000), ("(length (filter even? (iota 2000)))", 1000), ("(length (delete 1 (iota 2000)))", 1999), ("(vals (apply values (iota 300)))", list(range(300))), ("(length (append-map list (iota 2000)))", 2000), ("(length (delete-duplicates (append (iota 60) (iota 60))))", 60), ("(list-index (lambda (x) (= x 1999)) (iota 2000))", 1999), ("(length (car (vals (partition even? (iota 2000)))))", 1000)): p.raw(e, W(w))
    c.compare("long lists", p.cases, p.want, PRE, cpu_ms=60000, each=True, grain=1)

c.finish("a case is one application (or group of applications) of list procedures to one tuple of arguments; distinct outcomes are distinct (part, observable outcome) pairs",
         bounds={"list length": N, "alphabet": 3, "lists per call": 3})
