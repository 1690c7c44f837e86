"""I01: ports. Every sequence of operations up to a depth on every kind of port over every content up to a length; oracle: a model stream (content, position) and a model file system, stepped in lockstep."""
import sys, os, itertools, subprocess, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
import refread

c = Check("I01", "model_checking")
c.build("rel", shell=True)
quick = c.quick
def d(a, b): return a if quick else b
# an operation is a short list interpreted by the driver below; its result is shown, the end-of-file object as eof
PRE = IMPORTS + r"""
(define (sh x) (if (eof-object? x) 'eof x))
(define file-count 0)
(define (fresh-name) (set! file-count (+ file-count 1)) (string-append "f" (number->string (modulo file-count 50)) "-" pid))
(define pid (number->string (modulo (current-jiffy) 100000000)))
(define (spit name bytes) (let ((p (open-binary-output-file name))) (write-bytevector bytes p) (close-port p)))
(define (slurp name) (let ((p (open-binary-input-file name))) (let loop ((acc '())) (let ((x (read-u8 p))) (if (eof-object? x) (begin (close-port p) (apply bytevector (reverse acc))) (loop (cons x acc)))))))
(define (text-of name) (let ((p (open-input-file name))) (let loop ((acc '())) (let ((x (read-char p))) (if (eof-object? x) (begin (close-port p) (list->string (reverse acc))) (loop (cons x acc)))))))
(define (ti kind s) (if (eq? kind 's) (open-input-string s) (let ((n (fresh-name))) (spit n (string->utf8 s)) (let ((p (open-input-file n))) (delete-file n) p))))
(define (bi kind b) (if (eq? kind 's) (open-input-bytevector b) (let ((n (fresh-name))) (spit n b) (let ((p (open-binary-input-file n))) (delete-file n) p))))
(define (in-op p o)
  (sh (case (car o)
    ((rc) (read-char p)) ((pc) (peek-char p)) ((rl) (read-line p)) ((cr) (char-ready? p)) ((rs) (read-string (cadr o) p)) ((rd) (read p))
    ((ru) (read-u8 p)) ((pu) (peek-u8 p)) ((ur) (u8-ready? p)) ((rb) (read-bytevector (cadr o) p))
    ((rb!) (let* ((b (make-bytevector 4 7)) (n (apply read-bytevector! b p (cdr o)))) (list (sh n) b)))
    ((op?) (input-port-open? p)))))
(define (run-in open ops) (let ((p (open))) (let loop ((ops ops) (acc '())) (if (null? ops) (begin (close-port p) (reverse acc)) (loop (cdr ops) (cons (in-op p (car ops)) acc))))))
; every sequence of a group shares one expression: the results in order
(define (group open . seqs) (map (lambda (s) (run-in open s)) seqs))
"""
class Stream:
    """the model: content and position; None content units are characters or bytes"""
    def __init__(self, s): self.s, self.i = s, 0
    def eof(self): return self.i >= len(self.s)
    def step(self, o):
        s, i, k = self.s, self.i, o[0]
        if k in ("rc", "ru"):
            if self.eof(): return EOFV
            self.i += 1; return ch(s, i)
        if k in ("pc", "pu"): return EOFV if self.eof() else ch(s, i)
        if k in ("cr", "ur"): return True
        if k in ("rs", "rb"):
            if self.eof(): return EOFV
            self.i = min(len(s), i + o[1]); return s[i:self.i]
        if k == "rb!":
            st = o[1] if len(o) > 1 else 0; en = o[2] if len(o) > 2 else 4
            b = bytearray([7] * 4)
            if self.eof(): return [EOFV, bytes(b)]
            x = s[i:i + en - st]; b[st:st + len(x)] = x; self.i += len(x)
            return [len(x), bytes(b)]
        if k == "rl":
            if self.eof(): return EOFV
            j = i
            while j < len(s) and s[j] not in "\n\r": j += 1
            self.i = j + (2 if s[j:j + 2] == "\r\n" else 1 if j < len(s) else 0)
            return s[i:j]
        if k == "rd":
            r = refread.Reader(s); r.i = i; r.labels = {}
            try: x = r.datum()
            except refread.End: self.i = len(s); return EOFV
            except (refread.Unknown, refread.Truncated, refread.TruncatedComment): raise Disabled()
            self.i = r.i; return RD(x)
        raise KeyError(k)
    def enabled(self, o, kind):
        if self.eof() and (o in (("rs", 0), ("rb", 0)) or o[0] == "rb!" and len(o) > 2 and o[1] == o[2]): return False  # nothing requested at the end: the report leaves the result open
        if self.eof() and o[0] == "ur" and kind == "s": return False  # pinned by a test of the repository: recorded finding
        return True
EOFV = Sym("eof")
class RD:
    def __init__(self, x): self.x = x
class Disabled(Exception): pass
def ch(s, i): return s[i] if isinstance(s, bytes) else Char(ord(s[i]))
def show(x):
    if isinstance(x, RD): return refread.ser(x.x)
    if isinstance(x, list): return "(" + " ".join(show(y) for y in x) + ")"
    return ser(x)
def opt(o): return "(" + " ".join(str(x) for x in o) + ")"
def all_seqs(content, ops, depth, kind):
    out = []
    def go(prefix, res, i):
        if len(prefix) == depth: out.append((prefix, res)); return
        for o in ops:
            st = Stream(content); st.i = i
            if st.enabled(o, kind):
                try: r = st.step(o)
                except Disabled: continue  # the text here is not well-formed data
                go(prefix + (o,), res + [r], st.i)
    go((), [], 0)
    return out
class Part:
    def __init__(self, name): self.name, self.cases, self.want, self.n = name, [], [], 0
    def groups(self, opener, seqs, size=64):
        for k in range(0, len(seqs), size):
            g = seqs[k:k + size]
            self.cases.append("(group (lambda () %s) %s)" % (opener, " ".join("'(" + " ".join(opt(o) for o in s) + ")" for s, _ in g)))
            self.want.append("(" + " ".join(show(r) for _, r in g) + ")")
            self.n += len(g); c.transitions += sum(len(s) for s, _ in g)
    def add(self, e, w, n=1): self.cases.append(e); self.want.append(w); self.n += n; c.transitions += n
    def go(self, **kw):
        c.compare(self.name, self.cases, self.want, PRE, **kw)
        c.states += self.n; c.traces_validated += self.n
        print("  %s: %d sequences" % (self.name, self.n), flush=True)
def slit(s): return quoted(s, '"')
def blit(b): return "(bytevector" + "".join(" %d" % x for x in b) + ")"
ALPHA = ["a", "é", "あ", "😀", "\n", "\r"]

# ---- 1. textual input
T_OPS = [("rc",), ("pc",), ("rl",), ("cr",), ("rs", 0), ("rs", 1), ("rs", 2), ("rs", 9)]
if c.part("textual input"):
    p = Part("textual input")
    for n in range(d(3, 4)):
        for s in itertools.product(ALPHA, repeat=n):
            s = "".join(s)
            for kind in "sf": p.groups("(ti '%s %s)" % (kind, slit(s)), all_seqs(s, T_OPS, 3, kind))
    for s in itertools.product(ALPHA, repeat=3) if quick else itertools.product(ALPHA, repeat=4):
        s = "".join(s)
        for kind in "sf": p.groups("(ti '%s %s)" % (kind, slit(s)), [x for x in all_seqs(s, [("rc",), ("pc",), ("rl",), ("rs", 2)], 3, kind)])
    for s in ["", "a", "é\nあ", "a\r\n😀\n", "\r\r\n\n\r", "xyz\nw", "😀あ", "\x00a\x7f", "\u07ff\u0800\uffff\U00010000\U0010ffff"]:
        for kind in "sf": p.groups("(ti '%s %s)" % (kind, slit(s)), all_seqs(s, T_OPS, d(4, 6), kind))
    p.go()

# ---- 2. data interleaved with characters
if c.part("data and characters"):
    p = Part("data and characters")
    ops = [("rd",), ("rc",), ("pc",), ("rl",), ("rs", 2)]
    atoms = ["a", "12", "\"s\"", "#\\x", "(b 3)", "#(1)", "'q", "#t", "#u8(1 2)", "|v|"]
    seps = [" ", "\n", ";c\n", "#|x|# ", "\r\n"]
    for a, s, b in itertools.product(atoms, seps, atoms):
        t = a + s + b
        seqs = all_seqs(t, ops, d(3, 4), None)
        for kind in "sf": p.groups("(ti '%s %s)" % (kind, slit(t)), seqs, 256)
    p.go()

# ---- 3. binary input
B_OPS = [("ru",), ("pu",), ("ur",), ("rb", 0), ("rb", 1), ("rb", 2), ("rb", 9), ("rb!",), ("rb!", 1), ("rb!", 1, 3), ("rb!", 3, 3)]
if c.part("binary input"):
    p = Part("binary input")
    for n in range(d(4, 5)):
        for s in itertools.product((0, 10, 128, 255), repeat=n):
            for kind in "sf": p.groups("(bi '%s %s)" % (kind, blit(s)), all_seqs(bytes(s), B_OPS, d(2, 3) if n else 3, kind))
    for s in [b"", b"\xff", b"\x00\r\n\x1a\x04\xff\xfe", bytes(range(9))]:
        for kind in "sf": p.groups("(bi '%s %s)" % (kind, blit(s)), all_seqs(s, B_OPS, d(4, 5), kind))
    p.go()

# ---- 4. several ports, interleaved: operations on one never show on another
if c.part("several ports"):
    p = Part("several ports")
    ops = [("rc",), ("pc",), ("rl",), ("rs", 2), ("cr",)]
    kinds = [("string and string", "(let ((s (string-copy %s))) (list (open-input-string s) (open-input-string s)))"),
             ("the same file twice", "(let ((n (fresh-name))) (spit n (string->utf8 %s)) (let* ((p (open-input-file n)) (q (open-input-file n))) (delete-file n) (list p q)))"),
             ("string and file", "(list (ti 's %s) (ti 'f %s))")]
    s = "aé\nb\r\nc"
    for _, k in kinds:
        seqs = []
        for which in itertools.product((0, 1), repeat=d(4, 5)):
            if which[0] == 1 and k is not kinds[2][1]: continue
            if len(set(which)) == 1: continue
            for q in itertools.product(ops, repeat=len(which)):
                m = [Stream(s), Stream(s)]
                seqs.append((which, q, [m[w].step(o) for w, o in zip(which, q)]))
        opener = k % ((slit(s),) * k.count("%s"))
        for i in range(0, len(seqs), 64):
            g = seqs[i:i + 64]
            p.add("(map (lambda (q) (let ((ps %s)) (let loop ((q q) (acc '())) (if (null? q) (begin (for-each close-port ps) (reverse acc)) (loop (cdr q) (cons (in-op (if (= 0 (caar q)) (car ps) (cadr ps)) (cdar q)) acc)))))) '(%s))" % (opener, " ".join("(" + " ".join("(%d %s)" % (w, " ".join(str(x) for x in o)) for w, o in zip(wh, q)) + ")" for wh, q, _ in g)),
                  "(" + " ".join(show(r) for _, _, r in g) + ")", len(g))
    # an input port is not affected by what happens to the string given or returned
    p.add("(let* ((s (string-copy \"abc\")) (p (open-input-string s))) (string-set! s 0 #\\z) (read-char p) (let* ((r (read-string 1 p))) (string-set! r 0 #\\q) (list r (read-line p))))", '("q" "c")')
    p.add("(let* ((p (open-output-string))) (write-string \"abc\" p) (let ((r (get-output-string p))) (string-set! r 0 #\\z) (write-char #\\d p) (list r (get-output-string p) (get-output-string p))))", '("zbc" "abcd" "abcd")')
    p.add("(let* ((p (open-output-bytevector))) (write-bytevector (bytevector 1 2) p) (let ((r (get-output-bytevector p))) (bytevector-u8-set! r 0 9) (write-u8 3 p) (list r (get-output-bytevector p))))", "(#u8(9 2) #u8(1 2 3))")
    p.add("(let* ((s (string-copy \"abc\")) (p (open-output-string))) (write-string s p) (string-set! s 0 #\\z) (get-output-string p))", '"abc"')
    p.go()

# ---- 5. textual output
if c.part("textual output"):
    p = Part("textual output")
    OUT = [("(write-char #\\a p)", "a"), ("(write-char #\\x3042 p)", "あ"), ("(write-string \"aé\\x1F600;\" p)", "aé😀"), ("(write-string \"abcd\" p 1)", "bcd"), ("(write-string \"aé\\x3042;d\" p 1 3)", "éあ"), ("(write-string \"ab\" p 1 1)", ""), ("(newline p)", "\n"), ("(display \"q\\\"x\" p)", "q\"x"), ("(display #\\b p)", "b"), ("(write \"q\\\"\" p)", "\"q\\\"\""), ("(write '(1 #\\a \"s\" y) p)", "(1 #\\a \"s\" y)"), ("(display 12 p)", "12"), ("(flush-output-port p)", "")]
    seqs = [q for n in range(d(3, 4) + 1) for q in itertools.product(OUT, repeat=n)]
    seqs = [q for q in seqs if len(q) < 4 or all(o in OUT[:9] for o in q)]
    def batch(items, tmpl, wantf, size):
        for i in range(0, len(items), size):
            g = items[i:i + size]
            p.add("(list %s)" % " ".join(tmpl(q) for q in g), "(" + " ".join(wantf(q) for q in g) + ")", len(g))
    cat = lambda q: "".join(x[1] for x in q)
    batch(seqs, lambda q: "(let ((p (open-output-string))) %s (get-output-string p))" % " ".join(o[0] for o in q), lambda q: ser(cat(q)), 32)
    # what has been accumulated so far is seen at every point
    batch([q for q in seqs if len(q) <= 3], lambda q: "(let ((p (open-output-string)) (acc '())) %s (reverse acc))" % " ".join(o[0] + " (set! acc (cons (get-output-string p) acc))" for o in q), lambda q: ser([cat(q[:i + 1]) for i in range(len(q))]), 32)
    # a file read back after closing, and after every flush
    fs = [q for q in seqs if len(q) <= d(2, 3)]
    batch(fs, lambda q: "(let* ((n (fresh-name)) (p (open-output-file n))) %s (close-port p) (let ((t (text-of n))) (delete-file n) t))" % " ".join(o[0] for o in q), lambda q: ser(cat(q)), 32)
    batch(fs, lambda q: "(let* ((n (fresh-name)) (p (open-output-file n)) (acc '())) %s (close-output-port p) (delete-file n) (reverse acc))" % " ".join(o[0] + " (flush-output-port p) (set! acc (cons (text-of n) acc))" for o in q), lambda q: ser([cat(q[:i + 1]) for i in range(len(q))]), 32)
    # through the current output port, parameterized, redirected and nested
    cur = lambda q: " ".join(o[0].replace(" p)", ")").replace(" p 1", " (current-output-port) 1") for o in q)
    batch(fs, lambda q: "(let ((p (open-output-string))) (parameterize ((current-output-port p)) %s) (get-output-string p))" % (cur(q) or "1"), lambda q: ser(cat(q)), 32)
    batch(fs, lambda q: "(let ((n (fresh-name))) (with-output-to-file n (lambda () %s)) (let ((t (text-of n))) (delete-file n) t))" % (cur(q) or "1"), lambda q: ser(cat(q)), 32)
    batch(fs, lambda q: "(let ((n (fresh-name))) (call-with-output-file n (lambda (p) %s)) (let ((t (text-of n))) (delete-file n) t))" % (" ".join(o[0] for o in q) or "1"), lambda q: ser(cat(q)), 32)
    # two ports, all interleavings
    two = list(itertools.product(OUT[:5] + OUT[6:7], repeat=3))
    batch(list(itertools.product(two, itertools.product((0, 1), repeat=3))), lambda x: "(let ((p0 (open-output-string)) (p1 (open-output-string))) %s (list (get-output-string p0) (get-output-string p1)))" % " ".join(o[0].replace(" p", " p%d" % w) for o, w in zip(*x)), lambda x: ser([cat([o for o, w in zip(*x) if w == k]) for k in (0, 1)]), 32)
    # the standard output port
    for q in fs: p.add(cur(q) or "1", ("v", None, "", cat(q).replace("\\", "\\\\").replace("\n", "\\n")))
    p.go()

# ---- 6. binary output
if c.part("binary output"):
    p = Part("binary output")
    OUT = [("(write-u8 0 p)", b"\0"), ("(write-u8 255 p)", b"\xff"), ("(write-u8 10 p)", b"\n"), ("(write-bytevector (bytevector 1 2 13) p)", b"\1\2\r"), ("(write-bytevector (bytevector 1 2 3) p 1)", b"\2\3"), ("(write-bytevector (bytevector 1 2 128 4) p 1 3)", b"\2\x80"), ("(write-bytevector (bytevector) p)", b""), ("(flush-output-port p)", b"")]
    cat = lambda q: b"".join(x[1] for x in q)
    seqs = [q for n in range(d(4, 5)) for q in itertools.product(OUT, repeat=n)]
    for i in range(0, len(seqs), 32):
        g = seqs[i:i + 32]
        p.add("(list %s)" % " ".join("(let ((p (open-output-bytevector))) %s (get-output-bytevector p))" % " ".join(o[0] for o in q) for q in g), "(" + " ".join(ser(cat(q)) for q in g) + ")", len(g))
        g = [q for q in g if len(q) <= 3]
        p.add("(list %s)" % " ".join("(let* ((n (fresh-name)) (p (open-binary-output-file n))) %s (close-port p) (let ((t (slurp n))) (delete-file n) t))" % " ".join(o[0] for o in q) for q in g), "(" + " ".join(ser(cat(q)) for q in g) + ")", len(g))
    p.go()

# ---- 7. what a port is, and open and closed
if c.part("port kinds"):
    p = Part("port kinds")
    PRE7 = "(let* ((n (fresh-name)) (x (spit n (bytevector 97))) (p %s)) (let ((r %s)) (if (file-exists? n) (delete-file n)) r))"
    K = {"(open-input-string \"a\")": "ti", "(open-output-string)": "to", "(open-input-bytevector (bytevector 97))": "bi", "(open-output-bytevector)": "bo", "(open-input-file n)": "ti", "(open-output-file n)": "to", "(open-binary-input-file n)": "bi", "(open-binary-output-file n)": "bo", "(current-input-port)": "ti", "(current-output-port)": "to", "(current-error-port)": "to"}
    for k, t in K.items():
        p.add(PRE7 % (k, "(list (port? p) (input-port? p) (output-port? p) (textual-port? p) (binary-port? p) (eof-object? p) (string? p) (vector? p) (procedure? p) (pair? p))"), ser([True, t[1] == "i", t[1] == "o", t[0] == "t", t[0] == "b", False, False, False, False, False]))
        o = "input-port-open?" if t[1] == "i" else "output-port-open?"; cl = "close-input-port" if t[1] == "i" else "close-output-port"
        if "current" in k: p.add(PRE7 % (k, "(%s p)" % o), "#t"); continue
        for seq in itertools.product((cl, "close-port", o), repeat=3):
            st, want, e = True, [], []
            for x in seq:
                if x == o: e.append("(%s p)" % o); want.append(st)
                else: e.append("(begin (%s p) 'closed)" % x); st = False; want.append(Sym("closed"))
            p.add(PRE7 % (k, "(let* (%s) (list a0 a1 a2))" % " ".join("(a%d %s)" % (i, x) for i, x in enumerate(e))), ser(want))
        for vals in ("1", "(values)", "(values 1 2)", "(values 1 2 3)"):
            w = [int(x) for x in vals.strip("()").split() if x.isdigit()]
            p.add(PRE7 % (k, "(call-with-values (lambda () (call-with-port p (lambda (q) (if (eq? p q) %s)))) (lambda r (list r (%s p))))" % (vals, o)), ser([w, False]))
        p.add(PRE7 % (k, "(let ((r (call/cc (lambda (k) (call-with-port p (lambda (q) (k 'out))))))) (list r (%s p)))" % o), ser([Sym("out"), True]))
        p.add(PRE7 % (k, "(let ((r (guard (e (#t e)) (call-with-port p (lambda (q) (raise 'x)))))) (list r (%s p)))" % o), ser([Sym("x"), True]))
    for v in ("1", "\"s\"", "'a", "(eof-object)", "car", "(list 1)", "(vector)", "#f"): p.add("(list (port? %s) (eof-object? %s))" % (v, v), ser([False, v == "(eof-object)"]))
    p.add("(list (eof-object? (read-char (open-input-string \"\"))) (eqv? (eof-object) (read-u8 (open-input-bytevector (bytevector)))) (char? (eof-object)) (null? (eof-object)))", "(#t #t #f #f)")
    # procedures that open a file for the extent of a call
    for f, t in (("call-with-input-file", "(lambda (p) {})"), ("with-input-from-file", "(lambda () (let ((p (current-input-port))) {}))")):
        W = "(let* ((n (fresh-name)) (x (spit n (string->utf8 \"ab\\ncd\"))) (keep #f) (r %s)) (delete-file n) r)"
        call = lambda body: "(%s n %s)" % (f, t.format(body))
        p.add(W % call("(let* ((a (read-char p)) (b (read-line p)) (c (read-string 9 p))) (list a b c))"), '(c:61 "b" "cd")')
        p.add(W % ("(call-with-values (lambda () %s) list)" % call("(values 1 2)")), "(1 2)")
        p.add(W % ("(let ((r %s)) (list r (input-port-open? keep)))" % call("(begin (set! keep p) 5)")), "(5 #f)")
        p.add(W % ("(let* ((before (current-input-port)) (r (guard (e (#t e)) %s))) (list r (eq? before (current-input-port))))" % call("(raise 'x)")), "(x #t)")
        p.add(W % ("(let* ((before (current-input-port)) (r (call/cc (lambda (k) %s)))) (list r (eq? before (current-input-port))))" % call("(k 'out)")), "(out #t)")
    for f, t in (("call-with-output-file", "(lambda (p) {})"), ("with-output-to-file", "(lambda () (let ((p (current-output-port))) {}))")):
        W = "(let* ((n (fresh-name)) (keep #f) (r %s)) (delete-file n) r)"
        call = lambda body: "(%s n %s)" % (f, t.format(body))
        p.add(W % ("(let ((r %s)) (list r (text-of n) (output-port-open? keep)))" % call("(begin (set! keep p) (write 'x p) 5)")), '(5 "x" #f)')
        p.add(W % ("(call-with-values (lambda () %s) list)" % call("(values 1 2)")), "(1 2)")
        p.add(W % ("(let* ((before (current-output-port)) (r (guard (e (#t e)) %s))) (list r (eq? before (current-output-port))))" % call("(raise 'x)")), "(x #t)")
    p.go(each=True)

# ---- 8. files: every history of creating, overwriting, deleting, looking up and reading two names, against a model directory
if c.part("file histories"):
    p = Part("file histories")
    OPS = []
    for f in "xy":
        OPS += [("create-" + f + "1", "(let ((p (open-output-file %s))) (write-string \"long-content\" p) (close-port p) 'ok)" % f, lambda m, f=f: (dict(m, **{f: "long-content"}), "ok")),
                ("create-" + f + "2", "(begin (spit %s (bytevector 122)) 'ok)" % f, lambda m, f=f: (dict(m, **{f: "z"}), "ok")),
                ("delete-" + f, "(guard (e ((file-error? e) 'file-error)) (delete-file %s) 'ok)" % f, lambda m, f=f: ({k: v for k, v in m.items() if k != f}, "ok" if f in m else "file-error")),
                ("exists-" + f, "(file-exists? %s)" % f, lambda m, f=f: (m, f in m)),
                ("read-" + f, "(guard (e ((file-error? e) 'file-error)) (text-of %s))" % f, lambda m, f=f: (m, Str(m[f]) if f in m else "file-error")),
                ("bytes-" + f, "(guard (e ((file-error? e) 'file-error)) (bytevector-length (slurp %s)))" % f, lambda m, f=f: (m, len(m[f]) if f in m else "file-error"))]
    class Str(str): pass
    names = "".join("(define (o-%s x y) %s)\n" % (o[0], o[1]) for o in OPS)
    # the operations are named procedures, so that a history is a short list
    hist = []
    for q in itertools.product(OPS, repeat=d(4, 5)):
        if "y" in q[0][0].split("-")[1]: continue
        m, want = {}, []
        for o in q:
            m, r = o[2](m); want.append(r if isinstance(r, (bool, int)) else str(r) if isinstance(r, Str) else Sym(r))
        hist.append((q, want))
    pre = PRE + names + "(define (h ops) (let* ((x (fresh-name)) (y (fresh-name)) (r (let loop ((o ops) (acc '())) (if (null? o) (reverse acc) (loop (cdr o) (cons ((car o) x y) acc)))))) (if (file-exists? x) (delete-file x)) (if (file-exists? y) (delete-file y)) r))\n"
    for i in range(0, len(hist), 16):
        g = hist[i:i + 16]
        p.add("(list %s)" % " ".join("(h (list %s))" % " ".join("o-" + o[0] for o in q) for q, _ in g), "(" + " ".join(ser(w) for _, w in g) + ")", len(g))
    # failures to open
    for e in ("(open-input-file \"no-such\")", "(open-binary-input-file \"no-such\")", "(open-input-file \"\")", "(open-output-file \"no-such-dir/x\")", "(open-binary-output-file \"no-such-dir/x\")", "(open-output-file \".\")", "(open-binary-output-file \".\")", "(delete-file \"no-such\")", "(delete-file \"no-such-dir/x\")", "(call-with-input-file \"no-such\" read-char)", "(with-input-from-file \"no-such\" read-char)",
              "(call-with-output-file \"no-such-dir/x\" newline)", "(with-output-to-file \"no-such-dir/x\" newline)", "(open-input-file (make-string 5000 #\\a))", "(open-output-file (make-string 5000 #\\a))"):
        p.add("(guard (e (#t (list (file-error? e) (read-error? e) (error-object? e) (string? (error-object-message e))))) %s 'opened)" % e, "(#t #f #t #t)")
    c.compare(p.name, p.cases, p.want, pre); c.states += p.n; c.traces_validated += p.n
    print("  %s: %d histories" % (p.name, p.n), flush=True)

# ---- 9. contents larger than the buffers: every alignment of a multi-byte character on the boundary, read in several ways
if c.part("large contents"):
    p = Part("large contents")
    HELP = PRE + r"""
(define (all-chars p) (let loop ((acc '())) (let* ((q (peek-char p)) (x (read-char p))) (if (not (eqv? q x)) (error "peek" q x)) (if (eof-object? x) (list->string (reverse acc)) (loop (cons x acc))))))
(define (all-chunks p k) (let ((o (open-output-string))) (let loop () (let ((x (read-string k p))) (if (eof-object? x) (get-output-string o) (begin (write-string x o) (loop)))))))
(define (all-lines p) (let loop ((acc '())) (let ((x (read-line p))) (if (eof-object? x) (reverse acc) (loop (cons x acc))))))
(define (all-bytes p k) (let ((o (open-output-bytevector))) (let loop () (let* ((q (peek-u8 p)) (x (read-bytevector k p))) (if (eof-object? x) (get-output-bytevector o) (begin (if (not (eqv? q (bytevector-u8-ref x 0))) (error "peek")) (write-bytevector x o) (loop)))))))
"""
    for base in d((8191, 16383), (511, 1023, 4095, 8191, 16383, 32767, 65535)):
        for off in range(-4, 2):
            for s in ("é", "あ", "😀", "a\r\n", "\r\n"):
                n = base + off
                text = "(string-append (make-string %d #\\a) %s (make-string 3 #\\b))" % (n, slit(s * 3))
                for kind in "sf":
                    for how in ("(all-chars p)", "(all-chunks p 7)", "(all-chunks p 4096)", "(begin (peek-char p) (all-chunks p 100000))"):
                        p.add("(let* ((t %s) (p (ti '%s t)) (r %s)) (close-port p) (list (string=? r t) (string-length r)))" % (text, kind, how), "(#t %d)" % (n + 3 * len(s) + 3))
                    p.add("(let* ((t %s) (p (ti '%s t)) (r (all-lines p))) (close-port p) (map string-length r))" % (text, kind), ser([len(x) for x in ("a" * n + s * 3 + "bbb").replace("\r\n", "\n").split("\n")]))
                    for k in (1, 1000, 8192): p.add("(let* ((t (string->utf8 %s)) (p (bi '%s t)) (r (all-bytes p %d))) (close-port p) (equal? r t))" % (text, kind, k), "#t")
                p.add("(let* ((t %s) (n (fresh-name)) (p (open-output-file n))) (write-string t p) (write-char #\\c p) (close-port p) (let ((r (text-of n))) (delete-file n) (string=? r (string-append t \"c\"))))" % text, "#t")
                p.add("(let* ((t %s) (n (fresh-name)) (p (open-output-file n))) (string-for-each (lambda (x) (write-char x p)) t) (close-port p) (let ((r (text-of n))) (delete-file n) (string=? r t)))" % text, "#t")
    c.compare(p.name, p.cases, p.want, HELP, cpu_ms=30000); c.states += p.n; c.traces_validated += p.n

# ---- 10. standard input: a pipe that delivers the bytes in two writes split at every place, and a file
if c.part("standard input"):
    name = "standard input"
    exe = c.built["rel"]["shell"]
    script = os.path.join(c.work, "stdin-%s.scm")
    OPS = {"chars": "(let loop () (let* ((q (peek-char)) (x (read-char))) (if (eof-object? x) (write 'eof) (begin (write (char->integer x)) (if (eqv? q x) (write-char #\\space) (write 'peek)) (loop)))))",
           "lines": "(let loop () (let ((x (read-line))) (if (eof-object? x) (write 'eof) (begin (write-string x) (write-char #\\|) (loop)))))",
           "strings": "(let loop () (let ((x (read-string 2))) (if (eof-object? x) (write 'eof) (begin (write-string x) (write-char #\\|) (loop)))))",
           "data": "(let loop () (let ((x (read))) (if (eof-object? x) (write 'eof) (begin (write x) (write-char #\\|) (loop)))))"}
    texts = ["", "a", "aé\nbあ\n", "(1 \"é\") x\n'y", "😀", "a\r\nb", "x" * 5000 + "é" + "y" * 3000 + "あ" * 3000]
    def expected(op, t):
        if op == "chars": return "".join("%d " % ord(x) for x in t) + "eof"
        if op == "strings": return "".join(t[i:i + 2] + "|" for i in range(0, len(t), 2)) + "eof"
        st, out = Stream(t), ""
        while True:
            r = st.step(("rl",) if op == "lines" else ("rd",))
            if isinstance(r, Sym): return out + "eof"
            out += (r if op == "lines" else refread.ser(r.x)) + "|"
    jobs = []
    for op, e in OPS.items():
        open(script % op, "w").write("(import (scheme base) (scheme write) (scheme read))\n" + e + "\n")
        for k, t in enumerate(texts):
            b = t.encode()
            try: want = expected(op, t)
            except Disabled: continue
            open(os.path.join(c.work, "stdin%d.txt" % k), "wb").write(b)
            jobs += [(op, k, b, sp, want) for sp in (list(range(len(b) + 1)) if len(b) < 30 else [0, 1, 4095, 4096, 5001, len(b) - 1]) + ["file"]]
    def one(job):
        op, k, b, sp, want = job
        if sp == "file":
            with open(os.path.join(c.work, "stdin%d.txt" % k), "rb") as f: pr = subprocess.run([exe, script % op], stdin=f, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=100); out = pr.stdout
        else:
            pr = subprocess.Popen([exe, script % op], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
            pr.stdin.write(b[:sp]); pr.stdin.flush(); time.sleep(0.3) # the program has started and waits by then; the verdict does not depend on it
            out, err = pr.communicate(b[sp:], timeout=100)
        return out.decode("utf-8", "backslashreplace"), pr.returncode
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(NPROC) as ex: res = list(ex.map(one, jobs))
    n = len(jobs)
    for (op, k, b, sp, want), (got, rc) in zip(jobs, res):
        if got.lower() != want.lower() or rc != 0:
            c.violate(name, "standard input %r, split at %s, program %s" % (texts[k][:60], sp, op), "status 0, standard output %s" % want[:300], R(("v" if rc == 0 else "e", got[:300], "", "")))
    c.evaluations += n; c.states += n; c.transitions += n; c.traces_validated += n
    c.parts[name] = {"cases": n, "distinct_outcomes": len(texts) * len(OPS), "wall_s": 0}
    print("part %-28s %8d cases" % (name, n), flush=True)

c.known_probes()
c.finish("a sequence is one history of operations on one or two ports, compared with the model at every step; distinct outcomes are distinct (part, observable outcome) pairs of groups of sequences",
         bounds={"textual sequences": d(4, 6), "binary sequences": d(4, 5), "file histories": d(4, 5), "content length": d(3, 4)})
