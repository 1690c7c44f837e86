"""R02: reading. Every text up to a length over several alphabets of characters and of tokens is read by the real reader until the end of the text; oracle: a reference reader written from section 7.1 of the report."""
import sys, os, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
import refread

c = Check("R02", "model_checking")
c.build("rel")
quick = c.quick
# (rd text) -> one item per read: (datum) for a datum, eof, read-error or error; after an error one more read must come back as well
PRE = IMPORTS + """
(define (rd s)
  (let ((p (open-input-string s)))
    (let loop ((k 0) (acc '()))
      (if (= k 40) (reverse (cons 'more acc))
        (let ((x (guard (e ((read-error? e) 'read-error) (#t 'error)) (let ((d (read p))) (if (eof-object? d) 'eof (list d))))))
          (cond ((pair? x) (loop (+ k 1) (cons x acc)))
                ((eq? x 'eof) (reverse (cons x acc)))
                (else (guard (e (#t #f)) (read p)) (reverse (cons x acc)))))))))
"""
def text_lit(s): return quoted(s, '"')

def expect(text, shared):
    o = refread.read(text)
    last = o[-1][0]
    items = [x[1] for x in o if x[0] == "ok"]
    anyz = any(refread.contains_z(x) for x in items)
    def listof(*tail):
        l = NIL
        for t in reversed(tail): l = refread.P(Sym(t), l)
        for x in reversed(items): l = refread.P(refread.P(x, NIL), l)
        return refread.ser(l, shared)
    if anyz: return last, len(items), None
    if last == "eof": return last, len(items), [listof("eof")]
    if last == "err": return last, len(items), [listof("read-error")]
    if last == "end?": return last, len(items), [listof("eof"), listof("read-error")]
    pre = listof("?")
    return last, len(items), pre[:-2] # everything before the first item that is not in the grammar

def judge(kind, n, want):
    def j(r):
        if r.status != "v": return "reading must return: %s" % r.status
        if want is None or r.value.endswith(" more)"): return True
        if kind == "?": return True if r.value.startswith(want.rstrip()) else "the data before the malformed one should be %s..." % want
        return True if r.value in want else "the data read should be %s" % " or ".join(want)
    return j

seen_texts = set()
kinds = {}
def part(name, texts, shared=False, **kw):
    if not c.part(name): return
    cases, want = [], []
    for t in texts:
        if (t, shared) in seen_texts: continue
        seen_texts.add((t, shared))
        k, n, w = expect(t, shared)
        kinds[k] = kinds.get(k, 0) + 1
        cases.append("(rd %s)" % text_lit(t)); want.append(judge(k, n, w))
    c.transitions += sum(1 + 1 for _ in cases)
    c.states += len(cases)
    c.compare(name, cases, want, PRE, shared=shared, grain=500, **kw)

def words(alphabet, n): return ("".join(w) for k in range(n + 1) for w in itertools.product(alphabet, repeat=k))
def d(a, b): return a if quick else b

part("lists", words("().a1' ", d(5, 6)))
part("comments", words("#|;a\n (", d(5, 6)))
part("datum comments", words(["#;", "(", ")", "a", " ", ".", "'"], d(5, 6)))
part("strings", ('"' + w for w in words('"\\ax41;n\n |', d(4, 5))))
part("string continuation", ('"' + w for w in words(['"', "\\", "\n", " ", "\t", "a"], d(5, 6))))
part("bar symbols", ("|" + w for w in words('|\\ax41;n"( ', d(4, 5))))
part("characters", ("#\\" + w for w in words("\\x41a() \";|s", d(3, 5))))
part("character names", (a + b + e for n in list(refread.NAMES) + ["x", "x41", "x3bb", "x1F642", "xD800", "x110000", "X41", "nul", "newlin", "newlines", "Space", "U+41", "("] for a in ("", "(", "'", "#(a ", "a ", "#!fold-case ") for b in ["#\\" + n] for e in ("", " ", ")", "(", "\"", ";x", "|a|", "'a", " b)", "\n)")))
part("numbers", words("10.+-e/#xi", d(5, 6)))
part("number prefixes", (p + w for p in ["#" + a for a in "bodxeiBODXEI"] + ["#%s#%s" % x for x in itertools.product("bodx", "eiEI")] + ["#%s#%s" % x for x in itertools.product("eiEI", "bodxX")] + ["#x#x", "#e#i", "#e#e", "#x#b", "#", "##"] for w in words("1f/.-e", d(3, 4))))
part("special numbers", (a + b + e for a in ("", "(", "#e", "#i", "#x") for b in ("+inf.0", "-inf.0", "+nan.0", "-nan.0", "+INF.0", "+inf.", "+inf", "-inf.00", "inf.0", "+inf.0a", "+i", "-i", "1+i", "1@2", "+1i") for e in ("", " ", ")", "(", "\"", ";", "|")))
part("identifiers", words("a+-.1@:", d(5, 6)))
part("identifier characters", (x + y + z for x in ("", "a", "+", ".") for y in map(chr, range(1, 127)) for z in ("", "a", "1", " ", ")", "(b)")))
part("booleans", ("#" + w for w in words(["t", "f", "true", "false", "T", "r", " ", "(", ")", "|", ";", "1"], d(3, 4))))
part("labels", words(["#0=", "#0#", "#1=", "#1#", "(", ")", "a", " "], d(5, 6)), shared=True)
part("labels in vectors", (a + w for a in ("#(", "(#(") for w in words(["#0=", "#0#", "(", "#(", ")", "a", " ", ". "], d(5, 6))), shared=True)
part("bytevectors", ("#" + w for w in words(["u8(", "u8", "1", "255", "256", "(", ")", " ", "-", "#;"], d(4, 5))))
part("fold case", ("#!fold-case" + w for w in words([" ", "A", "#!no-fold-case", "#\\A", "|A|", "\"A\"", "(", ")", "#T"], d(4, 5))))
part("abbreviations", words(["'", "`", ",", ",@", "@", "(", ")", "a", " "], d(5, 6)))
TOKENS = ["(", ")", "#(", "#u8(", "'", "`", ",", ",@", ".", "a", "12", "-1.5", "1/2", "#t", "#\\a", "#\\(", "#\\space", "\"s\"", "\"\"", "|b|", "||", ";c\n", "#|d|#", "#;", "#0=", "#0#", "...", "+", "#xF", "\"\\x41;\"", "\u03bb", "#!fold-case"]
part("tokens", ("".join(w) for n in range(1, d(3, 4)) for w in itertools.product(TOKENS, repeat=n)))
part("tokens apart", (" ".join(w) for n in range(1, d(3, 4)) for w in itertools.product(TOKENS, repeat=n)))
part("tokens in a list", ("(" + s.join(w) + ")z" for s in ("", " ") for n in range(1, d(3, 4)) for w in itertools.product(TOKENS, repeat=n)))
if not quick:
    part("three tokens on lines", ("\n".join(w) for w in itertools.product(TOKENS, repeat=3)))
# every atom against every delimiter and follower
ATOMS = ["a", "+", "-", "...", "..", ".a", "+.a", "-a", "->x", "1", "-1", "+1", "1.", ".5", "1e3", "1E3", "-1.5e-3", "1/3", "-10/4", "#t", "#f", "#true", "#false", "#\\a", "#\\x", "#\\x41", "#\\tab", "\"\"", "\"a\"", "\"\\n\"", "||", "|a b|", "|\\x3bb;|", "#x1F", "#b101", "#o17", "#d9", "#e1.5", "#i1/2", "#x#e10", "#e#x10", "()", "#()", "#u8()", "(a . b)", "'a", "`a", ",a", ",@a", "#0=(a . #0#)", "!", "$x", "%", "&", "*", "/", ":", "<=?", ">", "?", "^", "_", "~", "a.b", "a@b", "+nan.0", "-inf.0", "1a", "+1a"]
SEPS = ["", " ", "\n", "\t", "\r", "\r\n", ";c\n", "#|c|#", " #;x ", " #|a#|b|#c|# ", "#;(x y)"]
part("atom pairs", (a + s + b for a in ATOMS for s in SEPS for b in ATOMS))
part("atoms in lists", ("(" + a + s + b + t + ")" + u for a in ATOMS for s in SEPS for b in ATOMS[::3] for t in ("", " ") for u in ("",)))
part("dotted tails", ("(" + h + s1 + "." + s2 + t + s3 + ")" + "x" for h in ATOMS for t in ATOMS[::2] for s1 in (" ", "\n", ";c\n", "#|c|#") for s2 in (" ", "(", "\"", ";c\n", " #;x ") for s3 in ("", " ", " #;x")))
# nesting
def nests(k):
    opens = [("(", ")"), ("#(", ")"), ("'", ""), ("(a . ", ")"), ("(a ", " b)"), ("#;x ", ""), ("#0=(", " . #0#)")]
    for w in itertools.product(opens, repeat=k): yield "".join(o for o, _ in w) + "z" + "".join(e for _, e in reversed(w))
for k in range(1, d(5, 7)): part("nesting %d" % k, [t for t in nests(k) if t.count("#0=") < 2], shared=True)
part("truncations", (t[:i] for t in itertools.chain(nests(3), ["(define (f \"a\\x41;b\" |c d| #\\space #u8(1 2) #(1 . 2)) '(a . b) `(,c ,@d) #;(e) #|f|# ;g\n h)", "#0=(a #1=#(b #0#) . #1#)"]) for i in range(len(t) + 1)), shared=True)
big = [("(" * n + ")" * n, None) for n in (10, 100, 1000)]
part("depth", [b + i + e for n in (10, 100, 1000) for b, e, i in (("(" * n, ")" * n, ""), ("'" * n, "", "a"), ("#(" * n, ")" * n, ""), ("#|" * n, "|#" * n, "x"), ("#;" * n, " x" * n, " "), ("(a . " * n, ")" * n, "()"))] if sys.getrecursionlimit() > 10000 else [])
part("length", [b + i * n + e for n in (10, 1000, 100000) for b, i, e in (("(", "a ", ")"), ("#(", "1 ", ")"), ("#u8(", "7 ", ")"), ("\"", "x", "\""), ("|", "x", "|"), ("", "x", ""), ("", "1", ""), (";", "x", "\na"), ("#|", "x", "|#a"), ("", " ", "a"), ("(a", " #;b", ")"), ("", "#|b|#", "a"), ("", "#;b ", "a"), ("", ";\n", "a"), ("", "#!fold-case ", "a"))])

# ---- every scalar value as a text of its own, in a string, in a bar symbol, in a comment and as a character
if c.part("all characters"):
    PRE2 = PRE + """
(define (sweep from to f)
  (let loop ((k from) (bad '()))
    (if (= k to) (reverse bad)
      (if (<= #xD800 k #xDFFF) (loop (+ k 1) bad)
        (loop (+ k 1) (if (guard (e (#t #f)) (f (integer->char k) (string (integer->char k)))) bad (cons k bad)))))))
(define (char-ok c s) (equal? (rd (string-append "#\\\\" s)) (list (list c) 'eof)))
(define (hex-ok c s) (equal? (rd (string-append "#\\\\x" (number->string (char->integer c) 16) " \\"\\\\x" (number->string (char->integer c) 16) ";\\"")) (list (list c) (list s) 'eof)))
(define (string-ok c s) (equal? (rd (string-append "\\"" s "\\"")) (list (list s) 'eof)))
(define (symbol-ok c s) (let ((r (rd (string-append "|" s "|")))) (and (symbol? (caar r)) (equal? (symbol->string (caar r)) s) (eq? 'eof (cadr r)))))
(define (comment-ok c s) (equal? (rd (string-append ";" s "\\na")) '((a) eof)))
(define (block-ok c s) (equal? (rd (string-append "#|" s "|#a")) '((a) eof)))
(define (alone-ok c s) (and (list? (rd s)) (list? (rd (string-append "a" s "b"))) (list? (rd (string-append "(" s ")")))))
"""
    cs, ws = [], []
    step = 1024
    skip = {"char-ok": (), "hex-ok": (), "string-ok": (10, 13, 34, 92), "symbol-ok": (10, 13, 92, 124), "comment-ok": (10, 13), "block-ok": (35,), "alone-ok": ()}
    for f in skip:
        top = 0x110000 if not quick else 0x11000 if f in ("char-ok", "string-ok") else 0x800
        for a in range(0, top, step):
            if 0xd800 <= a < 0xe000: continue
            bad = ["%d" % x for x in skip[f] if a <= x < a + step]
            cs.append("(sweep %d %d (lambda (c s) (or %s (%s c s))))" % (a, a + step, "(memv (char->integer c) '(%s))" % " ".join(bad) if bad else "#f", f)); ws.append("()")
    c.states += len(cs) * step; c.transitions += len(cs) * step
    c.compare("all characters", cs, ws, PRE2, cpu_ms=20000, grain=8)
c.traces_validated = c.transitions
c.cov["reference_verdicts"] = kinds
c.finish("every text over the alphabet of each part up to its length (characters and tokens), every atom x separator x atom, every nesting, every truncation of the sample texts, every scalar value; each text is read to its end on the real reader and the sequence of data, end-of-file object or read error is compared with the reference reader",
         bounds={"characters": d(5, 6), "tokens": d(2, 3)})
