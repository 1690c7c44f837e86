"""Reference reader: the lexical syntax of R7RS-small section 7.1, written from the report.
read(text) -> list of outcomes: ("ok", datum) ..., then one of
  ("eof",)   only intertoken space is left
  ("err",)   the text ends inside a datum: a read error is required
  ("end?",)  the text ends inside a comment: an end-of-file object or a read error
  ("?",)     the rest is not in the grammar: any datum, end-of-file object or error, but the reader must return
Nodes with identity: P (pair), V (vector); everything else is a vlib value."""
import sys, os, re, fractions
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import Sym, Char, NIL, ser as vser

class P:
    __slots__ = ("a", "d")
    def __init__(self, a, d): self.a, self.d = a, d
class V:
    __slots__ = ("xs",)
    def __init__(self, xs): self.xs = xs
class Ref:
    __slots__ = ("n",)
    def __init__(self, n): self.n = n
class U8(bytes): pass
class Z: # a literal that is valid but whose value is not compared
    pass

class Unknown(Exception): pass
class Truncated(Exception): pass
class TruncatedComment(Exception): pass
class End(Exception): pass

WS = " \t\n\r"
DELIM = WS + "|()\";"
NAMES = {"alarm": 7, "backspace": 8, "delete": 0x7f, "escape": 0x1b, "newline": 10, "null": 0, "return": 13, "space": 32, "tab": 9}
INITIAL = set("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ!$%&*/:<=>?^_~")
DIGIT = set("0123456789")
SUBSEQ = INITIAL | DIGIT | set("+-.@")
SIGNSUB = INITIAL | set("+-@")
DOTSUB = SIGNSUB | {"."}

def is_identifier(t):
    """Certain identifiers only: ASCII, by the grammar; not numbers."""
    if not t or not all(c in SUBSEQ for c in t): return False
    if t[0] in INITIAL: return True
    if t in ("+", "-"): return True
    if t[0] in "+-":
        if t[1] in SIGNSUB: return True
        return len(t) > 2 and t[1] == "." and t[2] in DOTSUB
    if t[0] == ".": return len(t) > 1 and t[1] in DOTSUB
    return False

RD = {2: "[01]", 8: "[0-7]", 10: "[0-9]", 16: "[0-9a-fA-F]"}
RX = {}
for r_, d_ in RD.items():
    RX[r_] = (re.compile("[+-]?%s+$" % d_), re.compile("([+-]?%s+)/(%s+)$" % (d_, d_)))
DEC = re.compile(r"[+-]?([0-9]+\.?[0-9]*|\.[0-9]+)([eE][+-]?[0-9]+)?$")
INF = {"+inf.0": float("inf"), "-inf.0": float("-inf"), "+nan.0": float("nan"), "-nan.0": float("nan")}

def exact_decimal(t):
    m, _, e = t.lower().partition("e")
    return fractions.Fraction(m if m[-1:] != "." else m + "0") * fractions.Fraction(10) ** int(e or 0)

def number(t):
    """None if t is not certainly a number; else its value (int, Fraction, float) or Z()."""
    radix, exactness, i = None, None, 0
    while t[i:i + 1] == "#":
        k = t[i + 1:i + 2].lower()
        if k in ("b", "o", "d", "x") and radix is None and k: radix = {"b": 2, "o": 8, "d": 10, "x": 16}[k]
        elif k in ("e", "i") and exactness is None and k: exactness = k
        else: return None
        i += 2
    b = t[i:]
    radix = radix or 10
    ri, rq = RX[radix]
    if ri.match(b): v = int(b, radix)
    elif rq.match(b):
        n, d = rq.match(b).groups()
        if int(d, radix) == 0: return None
        v = fractions.Fraction(int(n, radix), int(d, radix))
    elif radix == 10 and DEC.match(b):
        m = re.search("[eE]([+-]?[0-9]+)$", b)
        if m and abs(int(m.group(1))) > 400: return Z() # magnitude: N03's business
        q = exact_decimal(b)
        if exactness == "e": v = q
        else:
            try: v = q.numerator / q.denominator
            except OverflowError: v = float("inf") if q > 0 else float("-inf")
            if b[0] == "-" and v == 0: v = -0.0
    elif b.lower() in INF:
        if exactness == "e": return None
        v = INF[b.lower()]
    else: return None
    if isinstance(v, fractions.Fraction) and v.denominator == 1: v = int(v)
    if exactness == "i" and not isinstance(v, float):
        neg = b[0] == "-"
        v = fractions.Fraction(v); v = v.numerator / v.denominator
        if neg and v == 0: return Z() # -0 or 0
    return v

class Reader:
    def __init__(self, text, ext=False): self.t, self.i, self.fold, self.ext = text, 0, False, ext
    def peek(self): return self.t[self.i] if self.i < len(self.t) else None
    def at(self, s): return self.t.startswith(s, self.i)
    def token(self):
        j = self.i
        while j < len(self.t) and self.t[j] not in DELIM: j += 1
        return self.t[self.i:j]

    def skip(self):
        while True:
            c = self.peek()
            if c is None: return
            if c in WS: self.i += 1
            elif c == ";":
                while self.peek() not in (None, "\n", "\r"): self.i += 1
            elif self.at("#|"): self.block()
            elif self.at("#;"):
                self.i += 2
                try: self.datum()
                except End: raise TruncatedComment()
            elif self.at("#!"):
                t = self.token()
                if t == "#!fold-case": self.fold = True
                elif t == "#!no-fold-case": self.fold = False
                else: raise Unknown()
                self.i += len(t)
            else: return

    def block(self):
        self.i += 2; depth = 1
        while depth:
            if self.at("|#"): depth -= 1; self.i += 2
            elif self.at("#|"): depth += 1; self.i += 2
            elif self.peek() is None: raise TruncatedComment()
            else: self.i += 1

    def quotedtext(self, q):
        """string or |identifier| after its opening character"""
        o = []
        while True:
            c = self.peek()
            if c is None: raise Truncated()
            self.i += 1
            if c == q: return "".join(o)
            if c == "\r": raise Unknown()
            if c != "\\": o.append(c); continue
            e = self.peek()
            if e is None: raise Truncated()
            self.i += 1
            if e in "abtnr": o.append({"a": "\a", "b": "\b", "t": "\t", "n": "\n", "r": "\r"}[e])
            elif e == "|" or (q == '"' and e in '"\\'): o.append(e)
            elif e in "xX":
                j = self.i
                while j < len(self.t) and self.t[j] in "0123456789abcdefABCDEF": j += 1
                if e == "X": raise Unknown()
                if j == len(self.t): raise Truncated()
                if j == self.i or self.t[j] != ";": raise Unknown()
                k = int(self.t[self.i:j], 16)
                if k > 0x10ffff or 0xd800 <= k < 0xe000: raise Unknown()
                o.append(chr(k)); self.i = j + 1
            elif q == '"' and e in " \t\n":
                j = self.i - 1
                while j < len(self.t) and self.t[j] in " \t": j += 1
                if j == len(self.t): raise Truncated()
                if self.t[j] != "\n": raise Unknown()
                j += 1
                while j < len(self.t) and self.t[j] in " \t": j += 1
                self.i = j
            else: raise Unknown()

    def datum(self):
        self.skip()
        c = self.peek()
        if c is None: raise End()
        if c == "(": self.i += 1; return self.rest_of_list()
        if c == ")": raise Unknown()
        if c == '"': self.i += 1; return self.quotedtext('"')
        if c == "|": self.i += 1; return Sym(self.quotedtext("|"))
        for p, n in (("'", "quote"), ("`", "quasiquote"), (",@", "unquote-splicing"), (",", "unquote")):
            if self.at(p):
                self.i += len(p)
                return P(Sym(n), P(self.inner(), NIL))
        if c == "#": return self.hash()
        t = self.token()
        v = number(t)
        if v is None and self.ext: self.i += len(t); return Sym(t)
        if any(ord(x) > 126 or x in "'`,[]{}#" for x in t): raise Unknown()
        if v is None:
            if not is_identifier(t): raise Unknown()
            if t.lower() in ("+i", "-i"): raise Unknown()
            v = Sym(t.lower() if self.fold else t)
            # complex numbers of polar or rectangular form are numbers, not identifiers
            if re.match(r"[+-](inf|nan)\.0", t, re.I) : raise Unknown()
        self.i += len(t)
        return v

    def inner(self):
        try: return self.datum()
        except End: raise Truncated()

    def skip_inner(self):
        # inside a datum a truncated comment leaves the datum incomplete as well
        try: self.skip()
        except TruncatedComment: raise Truncated()

    def rest_of_list(self):
        xs, tail = [], NIL
        while True:
            self.skip_inner()
            c = self.peek()
            if c is None: raise Truncated()
            if c == ")": self.i += 1; break
            if c == "." and self.token() == ".":
                if not xs: raise Unknown()
                self.i += 1
                self.skip_inner()
                if self.peek() == ")": raise Unknown()
                tail = self.inner()
                self.skip_inner()
                if self.peek() is None: raise Truncated()
                if self.peek() != ")": raise Unknown()
                self.i += 1
                break
            xs.append(self.inner())
        for x in reversed(xs): tail = P(x, tail)
        return tail

    def elements(self):
        xs = []
        while True:
            self.skip_inner()
            c = self.peek()
            if c is None: raise Truncated()
            if c == ")": self.i += 1; return xs
            if c == "." and self.token() == ".": raise Unknown()
            xs.append(self.inner())

    def hash(self):
        if self.ext and self.at('#"'): self.i += 2; return Sym(self.quotedtext('"'))
        if self.at("#("): self.i += 2; return V(self.elements())
        m = re.compile(r"#u8\(", re.I if self.fold else 0).match(self.t, self.i)
        if m:
            self.i = m.end()
            xs = self.elements()
            if not all(type(x) is int and 0 <= x < 256 for x in xs): raise Unknown()
            return U8(xs)
        if self.at("#\\"):
            if self.i + 2 >= len(self.t): raise Truncated()
            self.i += 2
            first = self.peek(); self.i += 1
            rest = self.token(); self.i += len(rest)
            if not rest: return Char(ord(first))
            name = first + rest
            if first in DELIM or "'" in rest or "`" in rest or "," in rest or "#" in rest: raise Unknown()
            n2 = name.lower() if self.fold else name
            if n2 in NAMES: return Char(NAMES[n2])
            if re.match("x[0-9a-fA-F]+$", name):
                k = int(name[1:], 16)
                if k > 0x10ffff or 0xd800 <= k < 0xe000: raise Unknown()
                return Char(k)
            raise Unknown()
        m = re.compile(r"#([0-9]+)([=#])").match(self.t, self.i)
        if m:
            self.i = m.end()
            n = int(m.group(1))
            if m.group(2) == "#":
                if n not in self.labels: raise Unknown()
                return self.labels[n]
            if n in self.labels: raise Unknown()
            r = Ref(n); self.labels[n] = r
            v = self.inner()
            if v is r: raise Unknown()
            self.labels[n] = v
            self.patch(v, r, v, set())
            return v
        t = self.token()
        if len(t) == 1 and self.i + 1 == len(self.t): raise Unknown() # a lone # at the end of the text
        tl = t.lower()
        v = {"#t": True, "#true": True, "#f": False, "#false": False}.get(tl)
        if v is None and len(t) > 1: v = number(t)
        if v is None: raise Unknown()
        self.i += len(t)
        return v

    def patch(self, x, ref, v, seen):
        st = [x]
        while st:
            x = st.pop()
            if id(x) in seen: continue
            if isinstance(x, P):
                seen.add(id(x))
                if x.a is ref: x.a = v
                else: st.append(x.a)
                if x.d is ref: x.d = v
                else: st.append(x.d)
            elif isinstance(x, V):
                seen.add(id(x))
                x.xs = [v if y is ref else y for y in x.xs]
                st.extend(x.xs)

    def outcomes(self, limit=40):
        o = []
        while len(o) < limit:
            self.labels = {}
            try: o.append(("ok", self.datum()))
            except End: o.append(("eof",)); break
            except Truncated: o.append(("err",)); break
            except TruncatedComment: o.append(("end?",)); break
            except Unknown: o.append(("?",)); break
        return o

def contains_z(x, seen=None):
    st, seen = [x], set()
    while st:
        x = st.pop()
        if isinstance(x, Z): return True
        if isinstance(x, (P, V)):
            if id(x) in seen: continue
            seen.add(id(x)); st.extend([x.a, x.d] if isinstance(x, P) else x.xs)
    return False

def ser(x, shared=False):
    """The text harness/mvx.hpp gives for x: labels on the targets of cycles, or with shared on everything met twice."""
    color, need = {}, set()
    if isinstance(x, (P, V)):
        color[id(x)] = 1; st = [[x, 0]]
        while st:
            f = st[-1]; y, i = f
            ch = None
            kids = (y.a, y.d) if isinstance(y, P) else y.xs
            if i < len(kids): ch = kids[i]; f[1] += 1
            else: color[id(y)] = 2; st.pop(); continue
            if isinstance(ch, (P, V)):
                k = color.get(id(ch), 0)
                if k == 0: color[id(ch)] = 1; st.append([ch, 0])
                elif k == 1 or shared: need.add(id(ch))
    label, o = {}, []
    def go(x):
        if isinstance(x, (P, V)):
            if id(x) in need:
                if id(x) in label: o.append("#%d#" % label[id(x)]); return
                label[id(x)] = len(label); o.append("#%d=" % label[id(x)])
        if isinstance(x, P):
            o.append("("); p = x
            while True:
                go(p.a); d = p.d
                if d is NIL: break
                if isinstance(d, P) and id(d) not in need: o.append(" "); p = d; continue
                o.append(" . "); go(d); break
            o.append(")")
        elif isinstance(x, V):
            o.append("#(")
            for i, y in enumerate(x.xs):
                if i: o.append(" ")
                go(y)
            o.append(")")
        else: o.append(vser(x))
    go(x)
    return "".join(o)

def read(text, limit=40, ext=False):
    """ext: also the implementation's own way to write symbols (#"..." and bare identifiers of any other characters)"""
    return Reader(text, ext).outcomes(limit)
