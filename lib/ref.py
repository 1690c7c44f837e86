"""Reference machine: an explicit CEK interpreter for the part of R7RS the control and evaluation checks use.

Configurations are (f, a, b) triples: either (node, env, k) or (ret, value, k); the dynamic environment
(handler stack, parameter bindings) and the wind list are machine registers captured by continuations.
`order` selects the order in which operands are evaluated, so that a caller can find out whether a
program depends on it.
"""
import re
from fractions import Fraction
from vlib import Sym, Char, Pair, NIL, UNSPEC, lst, ser

class RefError(Exception): pass       # the program is outside what the reference models
class Halt(Exception): pass
class OutOfSteps(Exception): pass

# ---------------------------------------------------------------- reader
TOK = re.compile(r"""\s+|;[^\n]*|(,@|[()'`,]|\#\()|("(?:\\.|[^"\\])*")|([^\s()"';`,]+)""")
def parse(text):
    toks = []
    i = 0
    while i < len(text):
        m = TOK.match(text, i)
        if not m: raise RefError("token at %r" % text[i:i + 20])
        i = m.end()
        if m.group(1) or m.group(2) or m.group(3): toks.append(m.group(0))
    pos = 0
    def datum():
        nonlocal pos
        t = toks[pos]; pos += 1
        if t == "(": return seq()
        if t == "#(":
            xs = []
            while toks[pos] != ")": xs.append(datum())
            pos += 1
            return tuple(xs)
        q = {"'": "quote", "`": "quasiquote", ",": "unquote", ",@": "unquote-splicing"}.get(t)
        if q: return lst([Sym(q), datum()])
        return atom(t)
    def seq():
        nonlocal pos
        xs = []; tail = NIL
        while toks[pos] != ")":
            if toks[pos] == ".":
                pos += 1; tail = datum(); break
            xs.append(datum())
        assert toks[pos] == ")"; pos += 1
        return lst(xs, tail)
    out = []
    while pos < len(toks): out.append(datum())
    return out
def atom(t):
    if t in ("#t", "#true"): return True
    if t in ("#f", "#false"): return False
    if t[0] == '"': return t[1:-1].replace('\\"', '"').replace("\\\\", "\\")
    if re.fullmatch(r"[+-]?\d+", t): return int(t)
    if re.fullmatch(r"[+-]?\d+/\d+", t): return Fraction(t)
    if re.fullmatch(r"[+-]?\d+\.\d*", t): return float(t)
    if t.startswith("#\\"): return Char(ord(t[2])) if len(t) == 3 else Char(int(t[3:], 16))
    return Sym(t)

# ---------------------------------------------------------------- values
class Closure:
    __slots__ = ("clauses", "env")          # clauses: list of (params, rest, body)
    def __init__(self, clauses, env): self.clauses, self.env = clauses, env
class Prim:
    __slots__ = ("f", "name")
    def __init__(self, f, name): self.f, self.name = f, name
class Control:
    __slots__ = ("f", "name")
    def __init__(self, f, name): self.f, self.name = f, name
class Cont:
    __slots__ = ("k", "winds", "dyn")
    def __init__(self, k, winds, dyn): self.k, self.winds, self.dyn = k, winds, dyn
class Param:
    __slots__ = ("cell", "conv")
    def __init__(self, cell, conv): self.cell, self.conv = cell, conv
class Promise:
    __slots__ = ("box",)                    # box: [done, value-or-(node, env, dyn)]
    def __init__(self, box): self.box = box
class MV(tuple): __slots__ = ()
class ErrObj:
    __slots__ = ("msg", "irritants")
    def __init__(self, msg, irritants): self.msg, self.irritants = msg, irritants
class SchemeRaise(Exception):               # raised by primitives
    def __init__(self, obj): self.obj = obj
class Uninit: pass
UNINIT = Uninit()

def truthy(x): return x is not False
def is_proc(x): return isinstance(x, (Closure, Prim, Control, Cont, Param))
def to_list(x):
    out = []
    while isinstance(x, Pair): out.append(x.car); x = x.cdr
    if x is not NIL: raise RefError("improper list")
    return out

class Dyn:
    __slots__ = ("handlers", "params")
    def __init__(self, handlers, params): self.handlers, self.params = handlers, params

# ---------------------------------------------------------------- the machine
def ret(m, v, k):
    return k[0](m, v, k)

class Machine:
    def __init__(self, order="lr", max_steps=200000, strict=True):
        self.order = order
        self.max_steps = max_steps
        self.trace = []
        self.winds = None                   # linked (before, after, dyn, parent, depth)
        self.dyn = Dyn(None, None)
        self.steps = 0
        self.frames_max = 0
        self.globals = {}
        self.macros = {}
        for n, f in PRIMS.items(): self.globals[n] = Prim(f, n)
        for n, f in CONTROLS.items(): self.globals[n] = Control(f, n)
        self.globals["ev"] = Prim(self.ev, "ev")
    def ev(self, *xs):
        self.trace.append(" ".join(ser(self.show(x)) for x in xs) + ";")
        return xs[0]
    def show(self, x):
        if isinstance(x, Closure): return Raw("<closure>")
        if isinstance(x, (Prim, Control)): return Raw("<procedure>")
        return x
    def loop(self, f, a, b):
        n = 0
        limit = self.max_steps
        try:
            while True:
                n += 1
                if n > limit: raise OutOfSteps()
                try:
                    f, a, b = f(self, a, b)
                except SchemeRaise as e:
                    f, a, b = do_raise(self, e.obj, getattr(e, "k", b), False)
        finally:
            self.steps += n
    def run(self, text):
        """-> (status, value, trace): status v / e / o, like the runner's"""
        v = UNSPEC
        status = "v"
        try:
            for form in parse(text):
                node = compile_top(form, self)
                try:
                    self.loop(node, (self.globals, None), (halt_k, None, None))
                except Halt as h:
                    v = h.args[0]
        except Uncaught as u:
            x = u.args[0]
            if isinstance(x, ErrObj): return ("e", "<error " + ser(x.msg) + " " + ser(x.irritants) + ">", "".join(self.trace))
            return ("o", sershow(self, x), "".join(self.trace))
        return (status, sershow(self, v), "".join(self.trace))

class Raw(str):
    __slots__ = ()
import vlib
_ser0 = vlib.ser
def sershow(m, v):
    if isinstance(v, Closure): return "<closure>"
    if isinstance(v, Cont): return "<continuation>"
    if isinstance(v, (Prim, Control)): return "<procedure>"
    if isinstance(v, ErrObj): return "<error " + sershow(m, v.msg) + " " + sershow(m, v.irritants) + ">"
    if isinstance(v, Pair):
        o = []
        while isinstance(v, Pair): o.append(sershow(m, v.car)); v = v.cdr
        return "(" + " ".join(o) + (")" if v is NIL else " . " + sershow(m, v) + ")")
    if isinstance(v, (tuple, list)) and not isinstance(v, MV): return "#(" + " ".join(sershow(m, e) for e in v) + ")"
    return _ser0(v)
def ser(v): return sershow(None, v)

class Uncaught(Exception): pass
def halt_k(m, v, k): raise Halt(v)

def lookup(env, name):
    e = env
    while e is not None:
        d = e[0]
        if name in d:
            return d
        e = e[1]
    return None

# ---------------------------------------------------------------- compiler
def const(v):
    return lambda m, env, k: (ret, v, k)

def compile_top(x, m):
    if isinstance(x, Pair) and isinstance(x.car, Sym):
        if x.car == "define": return comp_define(x, m, True)
        if x.car == "begin":
            ns = [compile_top(e, m) for e in to_list(x.cdr)]
            return sequence(ns) if ns else const(UNSPEC)
        if x.car == "define-values": return comp_define_values(x, m)
        if x.car == "define-record-type": return comp_record(x, m)
    return comp(x, m)

def sequence(ns):
    if len(ns) == 1: return ns[0]
    first, rest = ns[0], sequence(ns[1:])
    def kf(m, v, k): return rest, k[1], k[2]
    return lambda m, env, k: (first, env, (kf, env, k))

def comp(x, m):
    if isinstance(x, Sym):
        name = str(x)
        def ref(m, env, k):
            d = lookup(env, name)
            if d is None: raise RefError("unbound " + name)
            v = d[name]
            if v is UNINIT: raise RefError("uninitialised " + name)
            return ret, v, k
        return ref
    if not isinstance(x, Pair):
        if x is NIL: raise RefError("()")
        return const(x)
    h = x.car
    if isinstance(h, Sym) and str(h) in SPECIAL:
        return SPECIAL[str(h)](x, m)
    return comp_app(to_list(x), m)

def comp_app(xs, m):
    nodes = [comp(e, m) for e in xs]
    return app_nodes(nodes, m, apply_proc)

def app_nodes(nodes, m, finish):
    n = len(nodes)
    order = list(range(n)) if m.order == "lr" else list(range(n - 1, -1, -1))
    # frame data: (env, index in order, values tuple)
    def kf(m, v, k):
        env, i, vals = k[1]
        if isinstance(v, MV): raise RefError("multiple values to an operand")
        vals = vals + (v,)
        i += 1
        if i == n:
            if order[0] != 0: vals = vals[::-1]
            return finish(m, vals, k[2])
        return nodes[order[i]], env, (kf, (env, i, vals), k[2])
    return lambda m, env, k: (nodes[order[0]], env, (kf, (env, 0, ()), k))

def apply_proc(m, vals, k):
    return call(m, vals[0], vals[1:], k)

def call(m, f, args, k):
    if isinstance(f, Closure):
        for params, rest, body in f.clauses:
            if len(args) == len(params) or (rest is not None and len(args) > len(params)):
                d = dict(zip(params, args))
                if rest is not None: d[rest] = lst(args[len(params):])
                return body, (d, f.env), k
        raise RefError("arity")
    if isinstance(f, Prim):
        try:
            return ret, f.f(*args), k
        except SchemeRaise as e:
            return do_raise(m, e.obj, k, False)
    if isinstance(f, Control): return f.f(m, args, k)
    if isinstance(f, Cont): return throw(m, f, args[0] if len(args) == 1 else MV(args))
    if isinstance(f, Param): return ret, param_cell(m, f)[0], k
    raise RefError("not a procedure")

def body_node(xs, m):
    """body with internal definitions: letrec* semantics"""
    xs = to_list(xs) if not isinstance(xs, list) else xs
    flat = []
    def flatten(x):
        if isinstance(x, Pair) and isinstance(x.car, Sym) and str(x.car) == "begin" and x.cdr is not NIL and \
           all(isinstance(e, Pair) and isinstance(e.car, Sym) and str(e.car) in ("define", "define-values") for e in to_list(x.cdr)):
            for e in to_list(x.cdr): flatten(e)
        else: flat.append(x)
    for x in xs: flatten(x)
    names, ns = [], []
    for x in flat:
        if isinstance(x, Pair) and isinstance(x.car, Sym) and str(x.car) == "define":
            t = x.cdr.car
            while isinstance(t, Pair): t = t.car
            names.append(str(t)); ns.append(comp_define(x, m, False))
        elif isinstance(x, Pair) and isinstance(x.car, Sym) and str(x.car) == "define-values":
            f = x.cdr.car
            while isinstance(f, Pair): names.append(str(f.car)); f = f.cdr
            if f is not NIL: names.append(str(f))
            ns.append(comp_define_values(x, m))
        else: ns.append(comp(x, m))
    seq = sequence(ns)
    if not names: return seq
    def f(m, env, k):
        d = {n: UNINIT for n in names}
        # internal definitions live in their own frame inside the parameters' frame
        return seq, (d, env), k
    return f

def formals(f):
    ps = []
    while isinstance(f, Pair): ps.append(str(f.car)); f = f.cdr
    return ps, (None if f is NIL else str(f))

def sp_lambda(x, m):
    ps, rest = formals(x.cdr.car)
    body = body_node(x.cdr.cdr, m)
    cl = [(ps, rest, body)]
    return lambda m, env, k: (ret, Closure(cl, env), k)

def sp_case_lambda(x, m):
    cl = []
    for c in to_list(x.cdr):
        ps, rest = formals(c.car); cl.append((ps, rest, body_node(c.cdr, m)))
    return lambda m, env, k: (ret, Closure(cl, env), k)

def comp_define(x, m, top):
    t = x.cdr.car
    if isinstance(t, Pair):
        while isinstance(t.car, Pair):      # curried define is not standard
            raise RefError("curried define")
        name = str(t.car)
        ps, rest = formals(t.cdr)
        cl = [(ps, rest, body_node(x.cdr.cdr, m))]
        node = lambda m, env, k: (ret, Closure(cl, env), k)
    else:
        name = str(t); node = comp(x.cdr.cdr.car, m)
    def kf(m, v, k):
        env = k[1]
        if isinstance(v, MV): raise RefError("multiple values to a definition")
        d = lookup(env, name) if not top else env[0]
        d[name] = v
        return ret, UNSPEC, k[2]
    return lambda m, env, k: (node, env, (kf, env, k))

def comp_define_values(x, m):
    ps, rest = formals(x.cdr.car)
    node = comp(x.cdr.cdr.car, m)
    def kf(m, v, k):
        env = k[1]
        vs = tuple(v) if isinstance(v, MV) else (v,)
        for n, w in zip(ps, vs): env[0][n] = w
        if rest is not None: env[0][rest] = lst(vs[len(ps):])
        elif len(vs) != len(ps): raise RefError("arity of define-values")
        return ret, UNSPEC, k[2]
    return lambda m, env, k: (node, env, (kf, env, k))

def comp_record(x, m):
    xs = to_list(x.cdr)
    raise RefError("record")

def sp_set(x, m):
    name = str(x.cdr.car); node = comp(x.cdr.cdr.car, m)
    def kf(m, v, k):
        if isinstance(v, MV): raise RefError("multiple values to set!")
        d = lookup(k[1], name)
        if d is None: raise RefError("unbound " + name)
        d[name] = v
        return ret, UNSPEC, k[2]
    return lambda m, env, k: (node, env, (kf, env, k))

def sp_if(x, m):
    xs = to_list(x.cdr)
    t, a = comp(xs[0], m), comp(xs[1], m)
    b = comp(xs[2], m) if len(xs) > 2 else const(UNSPEC)
    def kf(m, v, k):
        if isinstance(v, MV): raise RefError("multiple values to if")
        return (a if v is not False else b), k[1], k[2]
    return lambda m, env, k: (t, env, (kf, env, k))

def S(*xs): return lst([Sym(x) if isinstance(x, str) and not isinstance(x, Sym) else x for x in xs])
def L(params, *body): return Pair(Sym("lambda"), Pair(params, lst(body)))

gensym_n = [0]
def gensym():
    gensym_n[0] += 1
    return Sym(" g%d" % gensym_n[0])

def sp_let(x, m):
    if isinstance(x.cdr.car, Sym):
        name = x.cdr.car
        bs = [to_list(b) for b in to_list(x.cdr.cdr.car)]
        loop = L(lst([b[0] for b in bs]), *to_list(x.cdr.cdr.cdr))
        f = comp(lst([S("letrec", lst([lst([name, loop])]), name)] + [b[1] for b in bs]), m)
        return f
    bs = [to_list(b) for b in to_list(x.cdr.car)]
    return comp(lst([L(lst([b[0] for b in bs]), *to_list(x.cdr.cdr))] + [b[1] for b in bs]), m)
def sp_let_star(x, m):
    bs = to_list(x.cdr.car); body = x.cdr.cdr
    if len(bs) <= 1: return sp_let(Pair(Sym("let"), x.cdr), m)
    return comp(S("let", lst([bs[0]]), Pair(Sym("let*"), Pair(lst(bs[1:]), body))), m)
def sp_letrec_star(x, m):
    bs = to_list(x.cdr.car)
    return comp(lst([L(NIL, *([Pair(Sym("define"), b) for b in bs] + [Pair(L(NIL, *to_list(x.cdr.cdr)), NIL)]))]), m)
def sp_letrec(x, m):
    bs = [to_list(b) for b in to_list(x.cdr.car)]
    names = [str(b[0]) for b in bs]
    inits = [comp(b[1], m) for b in bs]
    body = body_node(x.cdr.cdr, m)
    def finish(m, vals, k):
        env, kk = k[1], k[2]
        for n, v in zip(names, vals): env[0][n] = v
        return body, env, kk
    if not inits: return lambda m, env, k: (body, ({}, env), k)
    a = app_nodes(inits, m, finish)
    def f(m, env, k):
        e = ({n: UNINIT for n in names}, env)
        return a, e, (None, e, k)
    return f
def sp_begin(x, m):
    xs = to_list(x.cdr)
    return sequence([comp(e, m) for e in xs]) if xs else const(UNSPEC)
def sp_cond(x, m):
    cs = to_list(x.cdr)
    if not cs: return const(UNSPEC)
    c = to_list(cs[0]); rest = Pair(Sym("cond"), lst(cs[1:]))
    if isinstance(c[0], Sym) and c[0] == "else": return comp(Pair(Sym("begin"), lst(c[1:])), m)
    if len(c) == 1:
        t = gensym()
        return comp(S("let", lst([lst([t, c[0]])]), S("if", t, t, rest)), m)
    if isinstance(c[1], Sym) and c[1] == "=>":
        t = gensym()
        return comp(S("let", lst([lst([t, c[0]])]), S("if", t, lst([c[2], t]), rest)), m)
    return comp(S("if", c[0], Pair(Sym("begin"), lst(c[1:])), rest), m)
def eqv(a, b):
    if isinstance(a, bool) or isinstance(b, bool): return a is b
    if isinstance(a, float) or isinstance(b, float): return isinstance(a, float) and isinstance(b, float) and (a == b)
    if isinstance(a, (int, Fraction)) and isinstance(b, (int, Fraction)) and isinstance(a, Char) == isinstance(b, Char): return a == b
    if isinstance(a, Sym) and isinstance(b, Sym): return str(a) == str(b)
    return a is b
def sp_case(x, m):
    t = gensym(); cs = to_list(x.cdr.cdr)
    out = []
    for c in cs:
        c = to_list(c)
        body = c[1:]
        if isinstance(body[0], Sym) and body[0] == "=>": body = [lst([body[1], t])]
        if isinstance(c[0], Sym) and c[0] == "else": out.append(Pair(Sym("else"), lst(body)))
        else: out.append(Pair(S(" memv", t, lst([Sym("quote"), c[0]])), lst(body)))
    return comp(S("let", lst([lst([t, x.cdr.car])]), Pair(Sym("cond"), lst(out))), m)
def sp_and(x, m):
    xs = to_list(x.cdr)
    if not xs: return const(True)
    if len(xs) == 1: return comp(xs[0], m)
    return comp(S("if", xs[0], Pair(Sym("and"), lst(xs[1:])), False), m)
def sp_or(x, m):
    xs = to_list(x.cdr)
    if not xs: return const(False)
    if len(xs) == 1: return comp(xs[0], m)
    t = gensym()
    return comp(S("let", lst([lst([t, xs[0]])]), S("if", t, t, Pair(Sym("or"), lst(xs[1:])))), m)
def sp_when(x, m): return comp(S("if", x.cdr.car, Pair(Sym("begin"), x.cdr.cdr)), m)
def sp_unless(x, m): return comp(S("if", S("not", x.cdr.car), Pair(Sym("begin"), x.cdr.cdr)), m)
def sp_do(x, m):
    xs = to_list(x.cdr)
    specs = [to_list(s) for s in to_list(xs[0])]; test = to_list(xs[1]); body = xs[2:]
    loop = gensym()
    again = lst([loop] + [s[2] if len(s) > 2 else s[0] for s in specs])
    return comp(S("let", loop, lst([lst([s[0], s[1]]) for s in specs]),
                  S("if", test[0], Pair(Sym("begin"), lst(test[1:])) if len(test) > 1 else S("begin"), Pair(Sym("begin"), lst(body + [again])))), m)
def sp_let_values(x, m, star=False):
    bs = [to_list(b) for b in to_list(x.cdr.car)]
    if star:
        if len(bs) > 1:
            return comp(S("let-values", lst([lst(bs[0])]), Pair(Sym("let*-values"), Pair(lst([lst(b) for b in bs[1:]]), x.cdr.cdr))), m)
    body = L(NIL, *to_list(x.cdr.cdr))
    # each init evaluated in the outer environment, results collected, then bound all at once
    inits = []
    for b in bs:
        inits.append(S("call-with-values", L(NIL, b[1]), S("lambda", gensymlist(), Sym(" args"))) if False else S("call-with-values", L(NIL, b[1]), Sym("list")))
    names = [formals(b[0]) for b in bs]
    nodes = [comp(i, m) for i in inits]
    bodyn = body_node(x.cdr.cdr, m)
    def finish(m, vals, k):
        d = {}
        for (ps, rest), v in zip(names, vals):
            vs = to_list(v)
            if len(vs) < len(ps) or (rest is None and len(vs) != len(ps)): raise RefError("arity of let-values")
            for n, w in zip(ps, vs): d[n] = w
            if rest is not None: d[rest] = lst(vs[len(ps):])
        return bodyn, (d, k[1]), k[2]
    if not nodes: return lambda m, env, k: (bodyn, ({}, env), k)
    a = app_nodes(nodes, m, finish)
    return lambda m, env, k: (a, env, (None, env, k))
def sp_quote(x, m): return const(x.cdr.car)
def qq(x, d):
    if not isinstance(x, Pair):
        if isinstance(x, tuple): return S("list->vector", qq(lst(x), d))
        return lst([Sym("quote"), x])
    if isinstance(x.car, Sym) and x.car == "unquote":
        return x.cdr.car if d == 1 else S("list", S("quote", Sym("unquote")), qq(x.cdr.car, d - 1))
    if isinstance(x.car, Sym) and x.car == "quasiquote": return S("list", S("quote", Sym("quasiquote")), qq(x.cdr.car, d + 1))
    if isinstance(x.car, Sym) and x.car == "unquote-splicing":
        if d == 1: raise RefError("unquote-splicing outside a list")
        return S("list", lst([Sym("quote"), Sym("unquote-splicing")]), qq(x.cdr.car, d - 1))
    if isinstance(x.car, Pair) and isinstance(x.car.car, Sym) and x.car.car == "unquote-splicing" and d == 1:
        return S("append", x.car.cdr.car, qq(x.cdr, d))
    if isinstance(x.car, Pair) and isinstance(x.car.car, Sym) and x.car.car == "unquote-splicing":
        return S("cons", S("list", S("quote", Sym("unquote-splicing")), qq(x.car.cdr.car, d - 1)), qq(x.cdr, d))
    return S("cons", qq(x.car, d), qq(x.cdr, d))
def sp_quasiquote(x, m): return comp(qq(x.cdr.car, 1), m)

# ---- parameters
class PCell(list): pass
def param_cell(m, p):
    b = m.dyn.params
    while b is not None:
        if b[0] is p: return b[1]
        b = b[2]
    return p.cell
def sp_parameterize(x, m):
    bs = [to_list(b) for b in to_list(x.cdr.car)]
    nodes = [comp(e, m) for b in bs for e in b]
    body = body_node(x.cdr.cdr, m)
    if not bs: return lambda m, env, k: (body, ({}, env), k)
    def finish(m, vals, k):
        env, kk = k[1], k[2]
        return convert(m, list(zip(vals[0::2], vals[1::2])), [], env, kk)
    def convert(m, todo, done, env, k):
        if not todo:
            ps = m.dyn.params
            for p, v in done: ps = (p, [v], ps)
            old = m.dyn
            m.dyn = Dyn(old.handlers, ps)
            return body, ({}, env), (restore_k, old, k)
        p, v = todo[0]
        if not isinstance(p, Param): raise RefError("parameterize of a non-parameter")
        if p.conv is None: return convert(m, todo[1:], done + [(p, v)], env, k)
        def kf(m, w, kk): return convert(m, todo[1:], done + [(p, w)], env, kk[2])
        return call(m, p.conv, (v,), (kf, None, k))
    a = app_nodes(nodes, m, finish)
    return lambda m, env, k: (a, env, (None, env, k))
def restore_k(m, v, k):
    m.dyn = k[1]
    return ret, v, k[2]
def c_make_parameter(m, args, k):
    if len(args) == 1: return ret, Param([args[0]], None), k
    def kf(m, v, k): return ret, Param([v], args[1]), k[2]
    return call(m, args[1], (args[0],), (kf, None, k))

# ---- continuations and winds
def c_callcc(m, args, k):
    return call(m, args[0], (Cont(k, m.winds, m.dyn),), k)
def throw(m, c, v):
    # target winds
    here, there = m.winds, c.winds
    outs, ins = [], []
    a, b = here, there
    while (a[4] if a else 0) > (b[4] if b else 0): outs.append(a); a = a[3]
    while (b[4] if b else 0) > (a[4] if a else 0): ins.append(b); b = b[3]
    while a is not b: outs.append(a); ins.append(b); a, b = a[3], b[3]
    ins.reverse()
    steps = [(1, w) for w in outs] + [(0, w) for w in ins]
    def go(m, _, k):
        i = k[1]
        if i > 0 and steps[i - 1][0] == 0: m.winds = steps[i - 1][1]
        if i == len(steps):
            m.winds = there
            m.dyn = c.dyn
            return ret, v, c.k
        which, w = steps[i]
        if which == 1: m.winds = w[3]
        m.dyn = w[2]
        return call(m, w[which], (), (go, i + 1, None))
    return go(m, None, (go, 0, None))
def c_dynamic_wind(m, args, k):
    before, thunk, after = args
    dyn = m.dyn
    def k1(m, _, k):
        m.winds = w = (before, after, dyn, k[1], (k[1][4] if k[1] else 0) + 1)
        return call(m, thunk, (), (k2, w, k[2]))
    def k2(m, v, k):
        m.winds = k[1][3]
        m.dyn = dyn
        return call(m, after, (), (k3, v, k[2]))
    def k3(m, _, k): return ret, k[1], k[2]
    return call(m, before, (), (k1, m.winds, k))
def c_values(m, args, k): return ret, (args[0] if len(args) == 1 else MV(args)), k
def c_cwv(m, args, k):
    def kf(m, v, k): return call(m, args[1], tuple(v) if isinstance(v, MV) else (v,), k[2])
    return call(m, args[0], (), (kf, None, k))
def c_apply(m, args, k):
    return call(m, args[0], tuple(args[1:-1]) + tuple(to_list(args[-1])), k)

# ---- exceptions
def do_raise(m, obj, k, continuable):
    hs = m.dyn.handlers
    if hs is None: raise Uncaught(obj)
    old = m.dyn
    m.dyn = Dyn(hs[1], old.params)
    def back(m, v, k):
        if continuable:
            m.dyn = old
            return ret, v, k[2]
        # a secondary exception is raised in the same dynamic environment as the handler
        return do_raise(m, SECONDARY, k[2], False)
    return call(m, hs[0], (obj,), (back, None, k))
class Secondary:
    pass
SECONDARY = Secondary()
def c_raise(m, args, k): return do_raise(m, args[0], k, False)
def c_raisec(m, args, k): return do_raise(m, args[0], k, True)
def c_weh(m, args, k):
    old = m.dyn
    m.dyn = Dyn((args[0], old.handlers), old.params)
    return call(m, args[1], (), (restore_k, old, k))
def c_error(m, args, k): return do_raise(m, ErrObj(args[0], lst(args[1:])), k, False)

def sp_guard(x, m):
    var = x.cdr.car.car; clauses = to_list(x.cdr.car.cdr); body = x.cdr.cdr
    has_else = clauses and isinstance(clauses[-1].car, Sym) and clauses[-1].car == "else"
    gk, hk, cond, args = gensym(), gensym(), gensym(), gensym()
    if not has_else:
        clauses = clauses + [lst([Sym("else"), lst([hk, L(NIL, S("raise-continuable", cond))])])]
    inner = L(NIL, S("let", lst([lst([var, cond])]), Pair(Sym("cond"), lst(clauses))))
    handler = L(lst([cond]), lst([S("call/cc", L(lst([hk]), lst([gk, inner])))]))
    thunk = L(NIL, S("call-with-values", L(NIL, *to_list(body)), Pair(Sym("lambda"), Pair(args, lst([lst([gk, L(NIL, S("apply", Sym("values"), args))])])))))
    return comp(lst([S("call/cc", L(lst([gk]), S("with-exception-handler", handler, thunk)))]), m)

# ---- promises
def sp_delay(x, m):
    node = comp(x.cdr.car, m)
    def kf(m, v, k): return ret, v if False else Promise([[True, v]]), k[2]
    def wrapped(m, env, k): return node, env, (kf, None, k)
    return lambda m, env, k: (ret, Promise([[False, (wrapped, env)]]), k)
def sp_delay_force(x, m):
    node = comp(x.cdr.car, m)
    return lambda m, env, k: (ret, Promise([[False, (node, env)]]), k)
def c_force(m, args, k):
    p = args[0]
    if not isinstance(p, Promise): raise RefError('force of a non-promise')
    if p.box[0][0]: return ret, p.box[0][1], k
    node, env = p.box[0][1]
    def kf(m, q, k):
        p = k[1]
        if not isinstance(q, Promise): raise RefError("delay-force of a non-promise")
        if not p.box[0][0]:
            p.box[0][0] = q.box[0][0]; p.box[0][1] = q.box[0][1]
            q.box[0] = p.box[0]
        return c_force(m, (p,), k[2])
    return node, env, (kf, p, k)
def p_make_promise(x): return x if isinstance(x, Promise) else Promise([[True, x]])

SPECIAL = {"lambda": sp_lambda, "if": sp_if, "set!": sp_set, "quote": sp_quote, "let": sp_let, "let*": sp_let_star, "letrec": sp_letrec, "letrec*": sp_letrec_star,
           "begin": sp_begin, "cond": sp_cond, "case": sp_case, "and": sp_and, "or": sp_or, "when": sp_when, "unless": sp_unless, "do": sp_do,
           "let-values": sp_let_values, "let*-values": lambda x, m: sp_let_values(x, m, True), "quasiquote": sp_quasiquote, "case-lambda": sp_case_lambda,
           "parameterize": sp_parameterize, "guard": sp_guard, "delay": sp_delay, "make-promise-lazy": sp_delay_force, "delay-force": sp_delay_force}

# ---- higher-order list procedures, in terms of call (order of application is fixed by the report for for-each, vector-for-each; map is probed in both orders)
def c_for_each(m, args, k):
    f = args[0]; ls = [to_list(a) for a in args[1:]]
    rows = list(zip(*ls))
    def kf(m, _, k):
        i = k[1]
        if i == len(rows): return ret, UNSPEC, k[2]
        return call(m, f, rows[i], (kf, i + 1, k[2]))
    return kf(m, None, (kf, 0, k))
def c_map(m, args, k):
    f = args[0]; ls = [to_list(a) for a in args[1:]]
    rows = list(zip(*ls)); n = len(rows)
    lr = m.order == "lr"
    def kf(m, v, k):
        i, acc = k[1]
        acc = acc + (v,)
        if i == n: return ret, lst(acc if lr else acc[::-1]), k[2]
        return call(m, f, rows[i if lr else n - 1 - i], (kf, (i + 1, acc), k[2]))
    if n == 0: return ret, NIL, k
    return call(m, f, rows[0 if lr else n - 1], (kf, (1, ()), k))
CONTROLS = {"call/cc": c_callcc, "call-with-current-continuation": c_callcc, "dynamic-wind": c_dynamic_wind, "values": c_values, "call-with-values": c_cwv, "apply": c_apply,
            "raise": c_raise, "raise-continuable": c_raisec, "with-exception-handler": c_weh, "error": c_error, "make-parameter": c_make_parameter, "force": c_force,
            "for-each": c_for_each, "map": c_map}

def num(f):
    def g(*xs):
        for x in xs:
            if isinstance(x, bool) or not isinstance(x, (int, float, Fraction)): raise RefError("number expected")
        return f(*xs)
    return g
def fold(f, u):
    def g(*xs):
        r = u
        for i, x in enumerate(xs): r = x if i == 0 else f(r, x)
        return r
    return g
def chain(f): return lambda *xs: all(f(a, b) for a, b in zip(xs, xs[1:]))
def p_div(*xs):
    r = Fraction(1) if len(xs) == 1 else Fraction(xs[0])
    for x in xs if len(xs) == 1 else xs[1:]:
        if x == 0: raise SchemeRaise(ErrObj("division by zero", lst([r, x])))
        r = r / x
    return int(r) if r.denominator == 1 else r
def p_car(x):
    if not isinstance(x, Pair): raise RefError("car")
    return x.car
def p_cdr(x):
    if not isinstance(x, Pair): raise RefError("cdr")
    return x.cdr
def p_setcar(x, v): x.car = v; return UNSPEC
def p_setcdr(x, v): x.cdr = v; return UNSPEC
def p_append(*ls):
    if not ls: return NIL
    r = ls[-1]
    for l in reversed(ls[:-1]): r = lst(to_list(l), r)
    return r
def equal(a, b):
    while True:
        if isinstance(a, Pair) and isinstance(b, Pair):
            if not equal(a.car, b.car): return False
            a, b = a.cdr, b.cdr; continue
        if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)): return len(a) == len(b) and all(equal(x, y) for x, y in zip(a, b))
        if type(a) is str and type(b) is str: return a == b
        return eqv(a, b)
def p_memv(x, l):
    while isinstance(l, Pair):
        if eqv(x, l.car): return l
        l = l.cdr
    return False
def p_assv(x, l):
    while isinstance(l, Pair):
        if eqv(x, l.car.car): return l.car
        l = l.cdr
    return False
PRIMS = {
    "+": num(lambda *xs: sum(xs)), "*": num(fold(lambda a, b: a * b, 1)), "-": num(lambda a, *r: -a if not r else a - sum(r)), "/": num(p_div),
    "<": num(chain(lambda a, b: a < b)), ">": num(chain(lambda a, b: a > b)), "=": num(chain(lambda a, b: a == b)), "<=": num(chain(lambda a, b: a <= b)), ">=": num(chain(lambda a, b: a >= b)),
    "zero?": num(lambda a: a == 0), "even?": num(lambda a: a % 2 == 0), "odd?": num(lambda a: a % 2 == 1),
    "not": lambda x: x is False, "eq?": eqv, "eqv?": eqv, "equal?": equal,
    "cons": Pair, "car": p_car, "cdr": p_cdr, "cadr": lambda x: p_car(p_cdr(x)), "cddr": lambda x: p_cdr(p_cdr(x)), "set-car!": p_setcar, "set-cdr!": p_setcdr, "list": lambda *xs: lst(xs), "append": p_append,
    "null?": lambda x: x is NIL, "pair?": lambda x: isinstance(x, Pair), "length": lambda l: len(to_list(l)), "reverse": lambda l: lst(to_list(l)[::-1]), "list-tail": lambda l, k: l if k == 0 else PRIMS["list-tail"](p_cdr(l), k - 1),
    "memv": p_memv, " memv": p_memv, "memq": p_memv, "assv": p_assv, "assq": p_assv,
    "vector": lambda *xs: list(xs), "vector-ref": lambda v, i: v[i], "vector-set!": lambda v, i, x: v.__setitem__(i, x) or UNSPEC, "list->vector": lambda l: list(to_list(l)), "make-vector": lambda n, x=0: [x] * n,
    "vector->list": lambda v: lst(v),
    "symbol?": lambda x: isinstance(x, Sym), "string?": lambda x: type(x) is str, "number?": lambda x: isinstance(x, (int, float, Fraction)) and not isinstance(x, (bool, Char)), "integer?": lambda x: isinstance(x, int) and not isinstance(x, (bool, Char)),
    "boolean?": lambda x: isinstance(x, bool), "procedure?": is_proc, "error-object?": lambda x: isinstance(x, ErrObj), "error-object-message": lambda x: x.msg, "error-object-irritants": lambda x: x.irritants,
    "promise?": lambda x: isinstance(x, Promise), "make-promise": p_make_promise,
}

def outcome(text, prelude="", max_steps=200000):
    """Runs the program with both operand orders: (result or None, steps, why).
    None: the program is outside the reference (or depends on the order of evaluation, or does not end)."""
    rs = []
    steps = 0
    for order in ("lr", "rl"):
        m = Machine(order, max_steps)
        try:
            r = m.run(prelude + text)
        except RefError as e:
            return None, steps + m.steps, "ref: %s" % e
        except OutOfSteps:
            return None, steps + m.steps, "steps"
        except (TypeError, IndexError, AttributeError) as e:
            return None, steps + m.steps, "type: %s" % e
        steps += m.steps
        if "<" in r[1] and "Secondary" in r[1]: return None, steps, "secondary"
        rs.append(r)
    if rs[0] != rs[1]: return None, steps, "order"
    return rs[0], steps, None

# ---------------------------------------------------------------- many programs
def _one(args):
    text, prelude, max_steps = args
    return outcome(text, prelude, max_steps)
def outcomes(texts, prelude="", max_steps=100000):
    """Reference outcomes of all programs, in parallel: list of (result or None, steps, why)."""
    import multiprocessing
    if len(texts) < 400: return [outcome(t, prelude, max_steps) for t in texts]
    with multiprocessing.get_context("fork").Pool(8) as p:
        return p.map(_one, [(t, prelude, max_steps) for t in texts], chunksize=max(1, min(500, len(texts) // 64)))

def judge_programs(c, name, texts, prelude="", impl_prelude=None, preamble="", max_steps=100000, accept=None, wrap=None, **kw):
    """Explores `texts` on the reference machine and on the implementation and compares value and trace.
    Programs the reference gives no verdict on (order dependent, invalid, unbounded) are not run."""
    if not c.part(name): return
    import collections
    texts = list(dict.fromkeys(texts))
    rs = outcomes(texts, prelude, max_steps)
    cases, exp = [], []
    why = collections.Counter()
    for t, (r, steps, w) in zip(texts, rs):
        c.states += steps; c.transitions += steps
        if r is None: why[(w or "?").split(":")[0]] += 1; continue
        if accept is not None and not accept(t, r): why["scope"] += 1; continue
        cases.append(t if wrap is None else wrap(t)); exp.append(r)
    c.traces_validated += len(cases)
    c.cov.setdefault("no_verdict", {})[name] = dict(why)
    print("   %s: %d programs, %d with a verdict, no verdict: %s" % (name, len(texts), len(cases), dict(why)), flush=True)
    c.compare(name, cases, exp, preamble + (prelude if impl_prelude is None else impl_prelude), **kw)
