"""R01: written data reads back. Every datum up to a size and every rooted graph of pairs and vectors up to a number of nodes is written by write, write-shared and write-simple; the text must denote (by the reference reader, and by the real reader) the same structure, with labels exactly where they are needed."""
import sys, os, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
import refread
from refread import P, V

c = Check("R01", "model_checking")
c.build("rel")
quick = c.quick
PRE = IMPORTS + """
(define (w f x)
  (let ((o (open-output-string)))
    (f x o)
    (let* ((s (get-output-string o)) (p (open-input-string s)) (d (read p)) (e (read p)))
      (list s (ser/s d) (eof-object? e)))))
(define (rt x) (list (w write x) (w write-shared x) (w write-simple x)))
(define (rt/c x) (list (w write x) (w write-shared x)))
(define (seq f xs seps)
  (let ((o (open-output-string)))
    (let loop ((xs xs) (k seps))
      (if (pair? xs) (begin (f (car xs) o) (write-string (car k) o) (loop (cdr xs) (cdr k)))))
    (let ((p (open-input-string (get-output-string o))))
      (let loop ((acc '()))
        (let ((d (read p))) (if (eof-object? d) (reverse acc) (loop (cons d acc))))))))
"""
def parse_value(v):
    """The value of a case: the real result was serialised by the harness; its text is read with the reference reader."""
    v = v.replace("<eof>", "|<eof>|")
    o = refread.read(v, limit=3)
    return o[0][1] if o and o[0][0] == "ok" else None
def tolist(x):
    r = []
    while isinstance(x, P): r.append(x.a); x = x.d
    return r
def bisimilar(x, y):
    st, seen = [(x, y)], set()
    while st:
        a, b = st.pop()
        if (id(a), id(b)) in seen: continue
        if isinstance(a, P) and isinstance(b, P): seen.add((id(a), id(b))); st += [(a.a, b.a), (a.d, b.d)]
        elif isinstance(a, V) and isinstance(b, V) and len(a.xs) == len(b.xs): seen.add((id(a), id(b))); st += list(zip(a.xs, b.xs))
        elif isinstance(a, (P, V)) or isinstance(b, (P, V)) or refread.vser(a) != refread.vser(b): return False
    return True
def cyclic(x):
    color, st = {id(x): 1} if isinstance(x, (P, V)) else {}, [[x, 0]] if isinstance(x, (P, V)) else []
    keep = [x]
    while st:
        f = st[-1]; y, i = f
        kids = (y.a, y.d) if isinstance(y, P) else y.xs
        if i == len(kids): color[id(y)] = 2; st.pop(); continue
        f[1] += 1; ch = kids[i]
        if isinstance(ch, (P, V)):
            k = color.get(id(ch), 0)
            if k == 1: return True
            if k == 0: color[id(ch)] = 1; st.append([ch, 0])
    return False

def verdict(x, writers):
    full = refread.ser(x, True)
    cyc = cyclic(x)
    def j(r):
        if r.status != "v": return "writing and reading must return: %s" % r.status
        top = tolist(parse_value(r.value))
        if len(top) != len(writers): return "unreadable result"
        for name, t in zip(writers, top):
            text, again, eof = tolist(t)
            o = refread.read(str(text), limit=3, ext=True)
            if [k[0] for k in o] != ["ok", "eof"]: return "%s: the text %s is not one datum" % (name, text)
            y = o[0][1]
            if name == "write-shared":
                if refread.ser(y, True) != full: return "write-shared: the text %s does not denote the structure %s" % (text, full)
            else:
                if not bisimilar(x, y): return "%s: the text %s does not denote %s" % (name, text, full)
                if not cyc and refread.ser(y, True) != refread.ser(y, False): return "%s: labels without a cycle: %s" % (name, text)
            if str(again) != refread.ser(y, True): return "%s: %s reads back as %s" % (name, text, again)
            if eof is not True: return "%s: text left after the datum: %s" % (name, text)
        return True
    return j
ALL, CYC = ("write", "write-shared", "write-simple"), ("write", "write-shared")

def part(name, items, pre=PRE, **kw):
    if not c.part(name): return
    cases, want = [], []
    for x, prog in items:
        cy = cyclic(x)
        cases.append("(rt%s %s)" % ("/c" if cy else "", prog)); want.append(verdict(x, CYC if cy else ALL))
    c.states += len(cases); c.transitions += len(cases) * 3
    c.compare(name, cases, want, pre, grain=200, **kw)

# ---- atoms
def val(x): # vlib value -> program
    if isinstance(x, Sym): return "(string->symbol %s)" % quoted(str(x), '"')
    if isinstance(x, Char): return "(integer->char %d)" % int(x)
    if isinstance(x, str): return quoted(x, '"')
    if isinstance(x, (bytes, bytearray)): return "(bytevector%s)" % "".join(" %d" % b for b in x)
    if x is NIL: return "'()"
    return lit(x)
def words(alphabet, n): return ("".join(w) for k in range(n + 1) for w in itertools.product(alphabet, repeat=k))
def d(a, b): return a if quick else b
part("symbols", ((Sym(s), val(Sym(s))) for s in words("a1.+-@|\\ (#;A\u03bb\n\"'", d(3, 4))))
part("symbols like numbers", ((Sym(s), val(Sym(s))) for s in words("1/.e+i", d(4, 6))))
part("named symbols", ((Sym(s), val(Sym(s))) for s in ["#t", "#f", "+inf.0", "-inf.0", "+nan.0", "-nan.0", "+i", "-i", "1+i", "+1i", "1@2", "...", "..", ".", "", "#u8", "#(", "#;", "#|", "'", "quote", "nil", "A", "aB", "x\u0000", "\x7f", "\u00a0", "\u3000", "a b", "tab\t", "cr\r", "\a\b", "|", "||", "a|b", "\\", "\\x41;", "1a", "+a", "-1a", "+.a", "-.1", ".1", ".a", "1e3", "1e", "e1", "0x1", "#x1", "1/2", "1/0", "1/2/3", "+1", "--1", "->", "<=>", "\U0001f642", "\u00c9", "\ufeff", "\u2028", "@a", "a@", ",a", "`", "a,b", "a'b", "a`b", "a\"b", "a;b", "a#b", "#", "##", "{", "}", "[a]"]))
part("strings", ((s, quoted(s, '"')) for s in words("a\\\"|x4;\n\t\r\u03bb\U0001f642\x00\x07 ", d(3, 4))))
part("bytevectors", ((bytes(b), val(bytes(b))) for n in range(4) for b in itertools.product((0, 7, 9, 10, 127, 128, 255), repeat=n)))
part("all bytes", ((bytes([b]), val(bytes([b]))) for b in range(256)))
import fractions, struct
NUMS = sorted({s * (2 ** k + o) for s in (1, -1) for k in list(range(0, 70, 3)) + [30, 31, 32, 62, 63, 64, 127, 128, 1000] for o in (-1, 0, 1)})
RATS = [fractions.Fraction(a, b) for a in (1, -1, 7, -22, 2 ** 64 + 1, -(10 ** 30) + 1) for b in (2, 3, 7, 10 ** 20 + 9, 2 ** 32)]
RATS = [x for x in RATS if x.denominator > 1]
FLO = [x for x in {s * m * 2.0 ** e for s in (1, -1) for m in (1.1, 1.5, 1.9999999999999998, 1.0000000000000002, 1.25) for e in list(range(-1074, 971, d(61, 7))) + list(range(-12, 12))} if x == x and x not in (0, float("inf"), float("-inf")) and x != int(x)] + [0.1, 0.2, 0.3, 1 / 3, 5e-324, 2.2250738585072014e-308, 1e-5, 123456.789, float("inf"), float("-inf"), float("nan")]
part("numbers", ((x, lit(x)) for x in itertools.chain(NUMS, RATS, FLO)))
# integral inexact numbers lose their point (recorded finding); the value must survive all the same
if c.part("integral floats"):
    IF = [x for x in {s * m * 2.0 ** e for s in (1, -1) for m in (1, 3, 5, 7, 255) for e in range(0, 1015, d(7, 1))} if abs(x) < 1.79e308] + [0.0, -0.0, 1e21, 1e22, 1e23, -1e100, 123456789012345680.0]
    def same(x):
        def j(r):
            if r.status != "v": return "writing and reading must return: %s" % r.status
            for t in tolist(parse_value(r.value)):
                text, again, eof = tolist(t)
                o = refread.read(str(text), limit=3)
                if [k[0] for k in o] != ["ok", "eof"]: return "%s is not one datum" % text
                if o[0][1] != x or str(again) != refread.ser(o[0][1]) or eof is not True: return "the text %s does not denote %r" % (text, x)
            return True
        return j
    c.states += len(IF); c.transitions += len(IF) * 3
    c.compare("integral floats", ["(rt %s)" % lit(x) for x in IF], [same(x) for x in IF], PRE)
# ---- trees
ATOMS = [True, False, Char(97), Char(32), Char(40), "s\"", Sym("a"), Sym("x y"), Sym("1"), 0, -5, fractions.Fraction(1, 2), 1.5, b"\x01\xff", NIL, "", Sym("")]
def trees(size, atoms):
    """all (value, program) with exactly `size` pairs and vector nodes"""
    if size == 0:
        for a in atoms: yield a, val(a)
        return
    for l in range(size):
        for (x, p), (y, q) in itertools.product(list(trees(l, atoms)), list(trees(size - 1 - l, atoms))): yield P(x, y), "(cons %s %s)" % (p, q)
    for (x, p) in trees(size - 1, atoms): yield V([x]), "(vector %s)" % p
    if size == 1: yield V([]), "(vector)"
    for l in range(size):
        for (x, p), (y, q) in itertools.product(list(trees(l, atoms)), list(trees(size - 1 - l, atoms))): yield V([x, y]), "(vector %s %s)" % (p, q)
part("trees of 0 to 1 nodes", itertools.chain(trees(0, ATOMS), trees(1, ATOMS)))
part("trees of 2 nodes", trees(2, ATOMS[::d(3, 1)]))
part("trees of 3 nodes", trees(3, [Sym("a"), NIL, 1, "s"][:d(3, 4)]))
if not quick: part("trees of 4 nodes", trees(4, [Sym("a"), NIL]))
QU = ["quote", "quasiquote", "unquote", "unquote-splicing"]
def quotes():
    for q in QU:
        for rest in ([], [Sym("x")], [1], [Sym("x"), Sym("y")], [[Sym("x")]], [[Sym("quote"), Sym("x")]], [Sym("@x")], [Sym("@")], ["s"], [Char(97)]):
            yield [Sym(q)] + rest
            yield [Sym("a"), Sym(q)] + rest
            yield (Sym(q),) + tuple(rest)
        for q2 in QU: yield [Sym(q), [Sym(q2), [Sym(q), Sym("z")]]]
        yield Pair(Sym(q), Sym("x")); yield Pair(Sym(q), Pair(Sym("x"), Sym("y"))); yield Pair(Sym("a"), Pair(Sym(q), Sym("x")))
def conv(x):
    if isinstance(x, list):
        r = NIL
        for e in reversed(x): r = P(conv(e), r)
        return r
    if isinstance(x, tuple): return V([conv(e) for e in x])
    if isinstance(x, Pair): return P(conv(x.car), conv(x.cdr))
    return x
def prog(x):
    if isinstance(x, list): return "(list%s)" % "".join(" " + prog(e) for e in x)
    if isinstance(x, tuple): return "(vector%s)" % "".join(" " + prog(e) for e in x)
    if isinstance(x, Pair): return "(cons %s %s)" % (prog(x.car), prog(x.cdr))
    return val(x)
part("abbreviations", ((conv(x), prog(x)) for x in quotes()))
# ---- graphs: every assignment of fields to nodes or atoms
def graphs(shape, atoms):
    """shape: 'p' pair, '1' '2' '3' vector of that length; the root is node 0"""
    ar = [2 if s == "p" else int(s) for s in shape]
    n = len(shape)
    for fields in itertools.product(list(range(n)) + atoms, repeat=sum(ar)):
        # only graphs all of whose nodes are reachable (others occur with fewer nodes), discovered in order
        order, todo, ok = [0], [0], True
        offs = [sum(ar[:i]) for i in range(n)]
        while todo:
            k = todo.pop(0)
            for f in fields[offs[k]:offs[k] + ar[k]]:
                if type(f) is int and f not in order: order.append(f); todo.append(f)
        if len(order) < n or order != sorted(order): continue
        nodes = [P(None, None) if s == "p" else V([]) for s in shape]
        lets = " ".join("(n%d %s)" % (i, "(cons 0 0)" if s == "p" else "(make-vector %s 0)" % s) for i, s in enumerate(shape))
        sets = []
        for i, s in enumerate(shape):
            fs = fields[offs[i]:offs[i] + ar[i]]
            vs = [nodes[f] if type(f) is int else f for f in fs]
            ps = ["n%d" % f if type(f) is int else val(f) for f in fs]
            if s == "p": nodes[i].a, nodes[i].d = vs; sets += ["(set-car! n%d %s)" % (i, ps[0]), "(set-cdr! n%d %s)" % (i, ps[1])]
            else: nodes[i].xs = vs; sets += ["(vector-set! n%d %d %s)" % (i, k, p) for k, p in enumerate(ps)]
        yield nodes[0], "(let (%s) %s n0)" % (lets, " ".join(sets))
G_ATOMS = [Sym("a"), NIL]
for shape in ["p", "1", "2", "pp", "p1", "1p", "11", "p2", "2p", "22", "ppp", "pp1", "p1p", "1pp"] + ([] if quick else ["p11", "1p1", "11p", "111", "pp2", "p2p", "2pp", "p12", "p21"]):
    part("graphs " + shape, graphs(shape, G_ATOMS if len(shape) < 3 or not quick else [NIL]))
if not quick: part("graphs pppp", graphs("pppp", [NIL]))
def quoted_graphs():
    # abbreviations must not hide a shared or circular tail
    for q in QU:
        x = P(Sym(q), P(None, NIL)); x.d.a = x; yield x, "(let ((n (list '%s 0))) (set-car! (cdr n) n) n)" % q
        x = P(Sym(q), P(Sym("a"), NIL)); x.d.d = x; yield x, "(let ((n (list '%s 'a))) (set-cdr! (cdr n) n) n)" % q
        x = P(Sym(q), P(Sym("a"), NIL)); x.d.d = x.d; yield x, "(let ((n (list '%s 'a))) (set-cdr! (cdr n) (cdr n)) n)" % q
        t = P(Sym("a"), NIL); x = P(P(Sym(q), t), t); yield x, "(let ((t (list 'a))) (cons (cons '%s t) t))" % q
        t = P(Sym("a"), NIL); x = P(t, P(Sym(q), t)); yield x, "(let ((t (list 'a))) (cons t (cons '%s t)))" % q
        x = P(Sym(q), None); x.d = x; yield x, "(let ((n (list '%s))) (set-cdr! n n) n)" % q
        y = P(Sym(q), P(Sym("b"), NIL)); x = P(y, P(y, NIL)); yield x, "(let ((y (list '%s 'b))) (list y y))" % q
part("labels and abbreviations", quoted_graphs())
def long_ones():
    for n in (10, 11, 100, d(200, 1000)):
        ys = [P(Sym("a"), NIL) for _ in range(n)]
        x = NIL
        for y in reversed(ys + ys): x = P(y, x)
        yield x, "(let ((ys (map list (make-list %d 'a)))) (append ys ys))" % n
        x = NIL
        nodes = [P(i, NIL) for i in range(n)]
        for a, b in zip(nodes, nodes[1:]): a.d = b
        nodes[-1].d = nodes[n // 2]
        yield nodes[0], "(let ((l (iota %d))) (set-cdr! (list-tail l %d) (list-tail l %d)) l)" % (n, n - 1, n // 2)
part("long graphs", long_ones(), pre="(import (only (srfi 1) iota))" + PRE)

# ---- successive data with separators
if c.part("sequences"):
    S_ATOMS = [True, Char(97), Char(59), "s", Sym("a"), Sym("|"), 1, -1, fractions.Fraction(1, 2), 1.5, b"\x01", [], [1], (1,), Pair(1, 2), [Sym("quote"), Sym("x")], "", Sym(""), Sym("..."), Sym("+")]
    cases, want = [], []
    for n in range(1, d(3, 4)):
        for xs in itertools.product(S_ATOMS if n < 3 else S_ATOMS[::2], repeat=n):
            for sep in (" ", "\n", ";c\n", "#|d|#", " #;(e) "):
                if isinstance(xs[-1], Char) and sep == "": continue
                for f in ("write", "write-shared", "write-simple"):
                    cases.append("(seq %s (list%s) '(%s))" % (f, "".join(" " + prog(x) for x in xs), " ".join([quoted(sep, '"')] * n))); want.append(ser(list(xs)))
    c.states += len(cases); c.transitions += len(cases) * 2
    c.compare("sequences", cases, want, PRE, grain=200)

# ---- every scalar value as a character, in a string and in a symbol
if c.part("all characters"):
    PRE2 = PRE + """
(define (sweep from to f)
  (let loop ((k from) (bad '()))
    (if (= k to) (reverse bad)
      (if (<= #xD800 k #xDFFF) (loop (+ k 1) bad)
        (loop (+ k 1) (if (guard (e (#t #f)) (f (integer->char k))) bad (cons k bad)))))))
(define (same? x y)
  (cond ((and (char? x) (char? y)) (= (char->integer x) (char->integer y)))
        ((and (string? x) (string? y)) (and (= (string-length x) (string-length y)) (let loop ((k 0)) (or (= k (string-length x)) (and (same? (string-ref x k) (string-ref y k)) (loop (+ k 1)))))))
        ((and (symbol? x) (symbol? y)) (eq? x y))
        (else #f)))
(define (rb x)
  (let ((o (open-output-string)))
    (write x o) (write-char #\\space o) (write 'z o)
    (let* ((p (open-input-string (get-output-string o))) (a (read p)) (b (read p)) (e (read p)))
      (and (same? a x) (eq? b 'z) (eof-object? e)))))
(define (char-ok c) (rb c))
(define (string-ok c) (and (rb (string c)) (rb (string #\\a c #\\1))))
(define (symbol-ok c) (and (rb (string->symbol (string c))) (rb (string->symbol (string #\\a c)))))
"""
    cs, ws = [], []
    for f in ("char-ok", "string-ok", "symbol-ok"):
        for a in range(0, 0x110000 if not quick else 0x11000, 1024):
            if not 0xd800 <= a < 0xe000: cs.append("(sweep %d %d %s)" % (a, a + 1024, f)); ws.append("()")
    c.states += len(cs) * 1024; c.transitions += len(cs) * 1024
    c.compare("all characters", cs, ws, PRE2, cpu_ms=20000, grain=8)
c.traces_validated = c.transitions
c.finish("every symbol and string over the alphabets up to their length, every tree of pairs and vectors up to the size over the atoms, every rooted graph of the given shapes with every assignment of its fields, every scalar value; each is written by write, write-shared and write-simple, and the text read by the reference reader and by the real one",
         bounds={"graph_nodes": d(3, 4), "tree_nodes": d(3, 4)})
