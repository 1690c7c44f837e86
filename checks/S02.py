"""S02: characters and text. Every code point through every classification, mapping and conversion; every string up to a length over characters of every encoded length through every way in and out; every pair of strings through every comparison.
Oracle: the Unicode 15.0 character database (lib/ucd15.json) and Python's encoder."""
import sys, os, itertools, json
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

c = Check("S02", "model_checking")
c.build("rel")
quick = c.quick
def d(a, b): return a if quick else b
U = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib", "ucd15.json")))
def ex(r): return {x for a, b in r for x in range(a, b + 1)}
SETS = {k: ex(U[k]) for k in ("alphabetic", "uppercase", "lowercase", "white_space", "numeric")}
SETS["alphabetic"] |= set(range(0x2EBF0, 0x2EE5E))  # the ideographs added by 15.1, the version of the repository's table
UP, LOW, FOLD, DIGIT = (dict(map(tuple, U[k])) for k in ("upper", "lower", "fold", "digit"))
fold = lambda x: FOLD.get(x, x)
PRE = IMPORTS + r"""
(define (scalar? n) (or (< n #xD800) (and (> n #xDFFF) (< n #x110000))))
(define (over a b f) (let loop ((n a) (acc '())) (if (= n b) (reverse acc) (loop (+ n 1) (if (scalar? n) (let ((r (f n (integer->char n)))) (if r (cons r acc) acc)) acc)))))
(define (holds p a b) (over a b (lambda (n x) (let ((r (p x))) (cond ((eq? r #t) n) ((eq? r #f) #f) (else (list 'not-boolean n)))))))
(define (maps f a b) (over a b (lambda (n x) (let ((y (f x))) (if (eqv? x y) #f (cons n (if (char? y) (char->integer y) y)))))))
(define (digits a b) (over a b (lambda (n x) (let ((y (digit-value x))) (if y (cons n y) #f)))))
; the numbers of the code points that do not survive a way through the system
(define (lost way a b) (over a b (lambda (n x) (if (guard (e (#t #f)) (way n x)) #f n))))
(define (utf8 n) (cond ((< n #x80) (list n)) ((< n #x800) (list (+ #xC0 (quotient n 64)) (+ #x80 (remainder n 64))))
  ((< n #x10000) (list (+ #xE0 (quotient n 4096)) (+ #x80 (remainder (quotient n 64) 64)) (+ #x80 (remainder n 64))))
  (else (list (+ #xF0 (quotient n 262144)) (+ #x80 (remainder (quotient n 4096) 64)) (+ #x80 (remainder (quotient n 64) 64)) (+ #x80 (remainder n 64))))))
(define (hex n) (number->string n 16))
(define (rd s) (let* ((p (open-input-string s)) (x (read p))) (if (eof-object? (read p)) x 'more)))
(define (wr x) (let ((p (open-output-string))) (write x p) (get-output-string p)))
(define (ds x) (let ((p (open-output-string))) (display x p) (get-output-string p)))
(define (via-port x) (let ((p (open-output-string))) (write-char x p) (let* ((q (open-input-string (get-output-string p))) (a (peek-char q)) (b (read-char q)) (e (read-char q))) (and (eqv? a x) (eqv? b x) (eof-object? e)))))
(define (via-bytes x) (let ((p (open-output-bytevector))) (write-bytevector (string->utf8 (string x)) p) (string=? (utf8->string (get-output-bytevector p)) (string x))))
(define pid (number->string (modulo (current-jiffy) 100000000)))
(define (file-ways cs)
  (let ((n (string-append "u" pid)) (s (list->string cs)))
    (let ((p (open-output-file n))) (for-each (lambda (x) (write-char x p)) cs) (write-string s p) (close-port p))
    (let* ((p (open-input-file n)) (a (map (lambda (x) (let* ((k (peek-char p)) (y (read-char p))) (and (eqv? k x) (eqv? y x)))) cs)) (b (read-string (length cs) p)) (e (read-char p)))
      (close-port p) (let ((r (list (memv #f a) (string=? b s) (eof-object? e)))) (delete-file n) r))))
"""
BLOCK = 4096
blocks = [(a, min(a + BLOCK, 0x110000)) for a in range(0, 0x110000, BLOCK)]
scal = lambda a, b: [x for x in range(a, b) if not 0xD800 <= x < 0xE000]

# ---- 1. classification and mapping of every code point
if c.part("tables"):
    cases, want = [], []
    for a, b in blocks:
        for f, s in (("char-alphabetic?", "alphabetic"), ("char-upper-case?", "uppercase"), ("char-lower-case?", "lowercase"), ("char-whitespace?", "white_space"), ("char-numeric?", "numeric")):
            cases.append("(holds %s %d %d)" % (f, a, b)); want.append(ser([x for x in scal(a, b) if x in SETS[s]]))
        for f, m in (("char-upcase", UP), ("char-downcase", LOW), ("char-foldcase", FOLD)):
            cases.append("(maps %s %d %d)" % (f, a, b)); want.append("(" + " ".join("(%d . %d)" % (x, m[x]) for x in scal(a, b) if m.get(x, x) != x) + ")")
        cases.append("(digits %d %d)" % (a, b)); want.append("(" + " ".join("(%d . %d)" % (x, DIGIT[x]) for x in scal(a, b) if x in DIGIT) + ")")
    c.compare("tables", cases, want, PRE, cpu_ms=20000)
    c.states += 0x110000 - 0x800; c.transitions += 9 * (0x110000 - 0x800); c.traces_validated += len(cases)

# ---- 2. every code point through every conversion
if c.part("conversions"):
    WAYS = ["(and (char? x) (not (integer? x)) (= (char->integer x) n) (char=? x (integer->char n)) (eqv? x (integer->char n)) (equal? x (integer->char n)))",
            "(let ((s (string x))) (and (= (string-length s) 1) (eqv? (string-ref s 0) x) (equal? (string->list s) (list x)) (eqv? (vector-ref (string->vector s) 0) x) (string=? s (list->string (list x)) (make-string 1 x) (vector->string (vector x)) (string-copy s) (string-append s \"\"))))",
            "(equal? (apply bytevector (utf8 n)) (string->utf8 (string x)))",
            "(let ((s (utf8->string (apply bytevector (utf8 n))))) (and (= 1 (string-length s)) (eqv? x (string-ref s 0))))",
            "(via-port x)", "(via-bytes x)",
            "(eqv? x (string-ref (symbol->string (string->symbol (string x))) 0))", "(eq? (string->symbol (string x)) (string->symbol (string-append \"\" (string x))))",
            "(eqv? x (rd (string-append \"#\\\\x\" (hex n))))", "(equal? (string x) (rd (string-append \"\\\"\\\\x\" (hex n) \";\\\"\")))", "(eq? (string->symbol (string x)) (rd (string-append \"|\\\\x\" (hex n) \";|\")))",
            "(equal? (string x) (rd (wr (string x))))", "(eqv? x (rd (wr x)))", "(eq? (string->symbol (string x)) (rd (wr (string->symbol (string x)))))", "(string=? (ds x) (string x) (ds (string x)))",
            "(let ((s (make-string 3 #\\a))) (string-set! s 1 x) (and (string=? s (string #\\a x #\\a)) (begin (string-fill! s x 1) (string=? s (string #\\a x x)))))",
            "(let ((s (string #\\x10FFFF x #\\a x #\\xE9))) (equal? (string->utf8 s) (bytevector-append (bytevector #xF4 #x8F #xBF #xBF) (string->utf8 (string x)) (bytevector 97) (string->utf8 (string x)) (bytevector #xC3 #xA9))))",
            "(and (char<=? x x) (char>=? x x) (not (char<? x x)) (not (char>? x x)) (char-ci=? x x) (string=? (string x) (string x)) (string-ci=? (string x) (string x)) (char-ci=? x (char-foldcase x)))",
            "(let ((y (integer->char (if (= n #xD7FF) #xE000 (if (= n #x10FFFF) 0 (+ n 1)))))) (and (not (eqv? x y)) (not (char=? x y)) (eq? (char<? x y) (< n #x10FFFF)) (eq? (string<? (string x) (string y)) (< n #x10FFFF)) (eq? (string>? (string x #\\a) (string y)) (= n #x10FFFF))))"]
    cases, want = [], []
    step = d(2048, 512)
    starts = [a for a in range(0, 0x110000, step) if not 0xD800 <= a < 0xE000]
    # quick: all code points through two ways, the blocks around every boundary of the encodings and the scripts with case through all ways
    near = [a for a in starts if not quick or a < 0x3000 or 0xA000 <= a < 0xB000 or 0xD000 <= a < 0xE800 or 0xF800 <= a < 0x11000 or 0x1F000 <= a < 0x1F800 or a >= 0x10F800]
    for i, w in enumerate(WAYS):
        for a in (starts if i in (0, 2) else near):
            cases.append("(lost (lambda (n x) %s) %d %d)" % (w, a, a + step)); want.append("()")
    for a in near:
        cases.append("(file-ways (over %d %d (lambda (n x) x)))" % (a, a + step)); want.append("(#f #t #t)")
    npoints = (2 * len(starts) + (len(WAYS) - 1) * len(near)) * step
    c.compare("conversions", cases, want, PRE, cpu_ms=30000, grain=4)
    c.states += 0x110000 - 0x800; c.transitions += npoints; c.traces_validated += len(cases)

# ---- 3. strings over characters of every encoded length
EDGE = [0x00, 0x41, 0x7F, 0x80, 0x7FF, 0x800, 0xD7FF, 0xE000, 0xFFFD, 0xFFFF, 0x10000, 0x10FFFF]
def lit_s(cs): return '"' + "".join("\\x%x;" % x for x in cs) + '"'
if c.part("mixed strings"):
    cases, want = [], []
    for n in range(d(4, 5)):
        for cs in itertools.product(EDGE, repeat=n):
            s = "".join(map(chr, cs)); b = s.encode()
            cuts = [len(s[:k].encode()) for k in range(n + 1)]
            e = "(let* ((s %s) (b (string->utf8 s)) (p (open-input-string s)) (q (open-output-string)) (all (read-string %d p)) (end (read-char p)) (w (begin (write-string s q) (get-output-string q)))) (list (string-length s) b (string=? s (utf8->string b)) (map char->integer (string->list s)) (string=? s (rd (wr s))) (eq? (string->symbol s) (rd (wr (string->symbol s)))) (if (eof-object? all) (string=? s \"\") (string=? all s)) (eof-object? end) (string=? s w) %s))" % (
                lit_s(cs), n + 1, " ".join("(string=? (utf8->string b %d %d) (substring s %d %d)) (string->utf8 s %d %d)" % (cuts[i], cuts[j], i, j, i, j) for i in range(n + 1) for j in range(i, n + 1) if j - i < n))
            cases.append(e); want.append(ser([n, b, True, list(cs), True, True, True, True, True] + [y for i in range(n + 1) for j in range(i, n + 1) if j - i < n for y in (True, s[i:j].encode())]))
    c.compare("mixed strings", cases, want, PRE)
    c.states += len(cases); c.transitions += len(cases) * 9; c.traces_validated += len(cases)

# ---- 4. comparisons: every pair (and triple) of strings and of characters
NAMES = ["=?", "<?", ">?", "<=?", ">=?"]
import operator
OPS = [operator.eq, operator.lt, operator.gt, operator.le, operator.ge]
ALPHA = [0x61, 0x42, 0x62, 0xE9, 0xC9, 0x3C2, 0x3C3, 0x3A3, 0x3042, 0x1F600, 0x10428, 0x10400, 0x13A0, 0xAB70, 0x131, 0x49]
if c.part("comparisons"):
    cases, want = [], []
    def row(kind, x, ys, litf, key):
        """x against every y under the ten comparisons, as one list of booleans"""
        fs = ["%s%s" % (kind, n) for n in NAMES] + ["%s-ci%s" % (kind, n) for n in NAMES]
        cases.append("(map (lambda (y) (map (lambda (f) (f %s y)) (list %s))) (list %s))" % (litf(x), " ".join(fs), " ".join(litf(y) for y in ys)))
        want.append(ser([[o(key(x), key(y)) for o in OPS] + [o(key([fold(a) for a in x]), key([fold(a) for a in y])) for o in OPS] for y in ys]))
    chars = sorted(set(ALPHA + EDGE + [0x20, 0x5A, 0x5B, 0x60, 0x7A, 0xB5, 0x3BC, 0x1E9E, 0xDF, 0x17F, 0x53, 0x73, 0x212A, 0x4B, 0x6B, 0x1C5, 0x1C4, 0x1C6]))
    for x in chars: row("char", [x], [[y] for y in chars], lambda v: "#\\x%x" % v[0], list)
    strs = [list(t) for n in range(3) for t in itertools.product(ALPHA if not quick else ALPHA[:14], repeat=n)]
    for x in strs: row("string", x, strs, lit_s, list)
    ab = [list(t) for n in range(4) for t in itertools.product([0x61, 0x41, 0x3C2], repeat=n)]
    for x in ab: row("string", x, ab, lit_s, list)
    # chains of three and four: true exactly when every neighbouring pair is
    for n, S in ((3, [[], [0x61], [0x41], [0x62], [0xE9, 0x61], [0xC9, 0x61]]), (4, [[0x61], [0x41], [0x62]])):
        for t in itertools.product(S, repeat=n):
            cs = all(len(v) == 1 for v in t)
            fs = ["string%s" % x for x in NAMES] + ["string-ci%s" % x for x in NAMES]
            e = "(map (lambda (f) (f %s)) (list %s))" % (" ".join(lit_s(v) for v in t), " ".join(fs))
            w = [all(o(k(a), k(b)) for a, b in zip(t, t[1:])) for k in (list, lambda v: [fold(y) for y in v]) for o in OPS]
            cases.append(e); want.append(ser(w))
            if cs:
                cases.append("(map (lambda (f) (f %s)) (list %s))" % (" ".join("#\\x%x" % v[0] for v in t), " ".join(x.replace("string", "char") for x in fs))); want.append(ser(w))
    c.compare("comparisons", cases, want, PRE)
    c.states += len(cases); c.transitions += sum(x.count("#") for x in want); c.traces_validated += len(cases)

# ---- 5. case conversion of strings: every string up to a length over letters with simple mappings
if c.part("case of strings"):
    cases, want = [], []
    A = [0x61, 0x42, 0x31, 0xE9, 0xC9, 0x3B1, 0x391, 0x1C5, 0x10428, 0x10400, 0x3042]
    app = lambda m, cs: "".join(chr(m.get(x, x)) for x in cs)
    for n in range(d(4, 5)):
        for cs in itertools.product(A, repeat=n):
            cases.append("(let* ((s %s) (a (string-upcase s)) (b (string-downcase s)) (c (string-foldcase s))) (list a b c (string-ci=? s a b c) (string=? s %s) (char-ci=? #\\a #\\A)))" % (lit_s(cs), lit_s(cs)))
            want.append(ser([app(UP, cs), app(LOW, cs), app(FOLD, cs), True, True, True]))
    # every character whose full mapping is its simple mapping, in a string
    for a, b in blocks[:32]:
        for f, m, py in (("string-upcase", UP, str.upper), ("string-downcase", LOW, str.lower), ("string-foldcase", FOLD, str.casefold)):
            xs = [x for x in scal(a, b) if x in m and len(py(chr(x))) == 1 and x != 0x3A3]
            if not xs: continue
            for i in range(0, len(xs), 256):
                g = xs[i:i + 256]
                cases.append("(%s (apply string (map integer->char '(%s))))" % (f, " ".join(map(str, g)))); want.append(ser("".join(chr(m[x]) for x in g)))
    c.compare("case of strings", cases, want, PRE)
    c.states += len(cases); c.transitions += len(cases); c.traces_validated += len(cases)

c.known_probes()
c.finish("a case is one block of code points under one function, or one string or tuple of strings under all functions; distinct outcomes are distinct (part, observable outcome) pairs",
         bounds={"code points": "all 1112064", "mixed string length": d(3, 4), "compared strings": "length 2 over 14-16 letters, length 3 over 3"})
