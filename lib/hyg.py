"""Reference for hygienic expansion: an interpreter in which every macro expansion renames the identifiers its template
introduces to fresh aliases that remember the environment of the macro definition (explicit renaming). An alias binds only
itself; a free alias denotes what its name denotes where the macro was defined."""
from vlib import Sym, Pair, NIL, lst, ser
import ref

class Bad(Exception): pass            # outside what the reference covers: unbound names, wrong syntax, wrong arguments
class Alias:
    __slots__ = ("name", "env")
    def __init__(self, name, env): self.name, self.env = name, env
class Env:
    __slots__ = ("d", "up")
    def __init__(self, d, up): self.d, self.up = d, up
class Var:
    __slots__ = ("v",)
    def __init__(self, v): self.v = v
UN = object()
class Macro:
    __slots__ = ("kind", "lits", "rules", "env", "ell")
class Core:
    __slots__ = ("name",)
    def __init__(self, name): self.name = name
class Clo:
    __slots__ = ("ps", "rest", "body", "env")

def is_id(x): return isinstance(x, (Sym, Alias))
def items(x):
    o = []
    while isinstance(x, Pair): o.append(x.car); x = x.cdr
    if x is not NIL and x != []: raise Bad("improper")
    return o
def strip(x):
    if isinstance(x, Alias): return strip(x.name)
    if isinstance(x, Pair): return Pair(strip(x.car), strip(x.cdr))
    if isinstance(x, tuple): return tuple(strip(y) for y in x)
    return x

CORE = "lambda let let* letrec letrec* if set! quote define define-syntax let-syntax letrec-syntax begin or and cond case when unless do else => syntax-rules er-macro-transformer sc-macro-transformer rsc-macro-transformer quasiquote ... _ named-lambda".split()
def num(f):
    def g(*a):
        if not all(type(x) is int for x in a): raise Bad("number")
        return f(*a)
    return g
PRIMS = {"list": lambda *a: lst(a), "+": num(lambda *a: sum(a)), "-": num(lambda a, *b: a - sum(b) if b else -a), "=": num(lambda a, b: a == b), "<": num(lambda a, b: a < b), "not": lambda a: a is False,
         "cons": lambda a, b: Pair(a, b), "car": lambda p: p.car if isinstance(p, Pair) else (_ for _ in ()).throw(Bad("car")), "cdr": lambda p: p.cdr if isinstance(p, Pair) else (_ for _ in ()).throw(Bad("cdr")),
         "null?": lambda x: x is NIL, "pair?": lambda x: isinstance(x, Pair), "eq?": lambda a, b: a is b or (type(a) is type(b) and a == b)}

class Machine:
    def __init__(self):
        self.top = Env({}, None)
        for n in CORE: self.top.d[Sym(n)] = Core(n)
        for n, f in PRIMS.items(): self.top.d[Sym(n)] = Var(f)
        self.steps = 0
        self.used = {}                # keyword denotations looked up per frame, to reject bodies that redefine what they have used
    def lookup(self, i, env, opt=False):
        while True:
            e = env
            while e is not None:
                d = e.d.get(i)
                if d is not None: return d
                self.used.setdefault(id(e), set()).add(i)
                e = e.up
            if isinstance(i, Alias): i, env = i.name, i.env
            else:
                if opt: return None
                raise Bad("unbound %s" % i)
    def denotes(self, a, ea, b, eb):
        x = self.lookup(a, ea, True); y = self.lookup(b, eb, True)
        if x is None and y is None: return strip(a) == strip(b)
        return x is y
    def bind(self, e, i, d):
        if i in self.used.get(id(e), ()): raise Bad("redefined after use")
        e.d[i] = d
    # ---- evaluation
    def ev(self, x, env):
        self.steps += 1
        if self.steps > 20000: raise Bad("steps")
        if is_id(x):
            d = self.lookup(x, env)
            if not isinstance(d, Var): raise Bad("keyword as variable")
            if d.v is UN: raise Bad("uninitialised")
            return d.v
        if isinstance(x, tuple): return strip(x)
        if not isinstance(x, Pair):
            if x is NIL: raise Bad("()")
            return x
        if is_id(x.car):
            d = self.lookup(x.car, env)
            if isinstance(d, Macro): return self.ev(self.expand(d, x, env), env)
            if isinstance(d, Core): return getattr(self, "do_" + {"let*": "lets", "letrec*": "letrec", "set!": "set", "let-syntax": "letsyntax", "letrec-syntax": "letrecsyntax", "define-syntax": "none", "if": "if_", "or": "or_", "and": "and_", "lambda": "lambda_"}.get(d.name, d.name), self.none)(x, env)
        f = self.ev(x.car, env)
        args = [self.ev(a, env) for a in reversed(items(x.cdr))][::-1]
        return self.apply(f, args)
    def none(self, x, env): raise Bad("syntax")
    do_none = none
    def apply(self, f, args):
        if isinstance(f, Clo):
            if len(args) < len(f.ps) or (f.rest is None and len(args) != len(f.ps)): raise Bad("arguments")
            d = {p: Var(a) for p, a in zip(f.ps, args)}
            if f.rest is not None: d[f.rest] = Var(lst(args[len(f.ps):]))
            return self.body(f.body, Env(d, f.env))
        if callable(f):
            try: return f(*args)
            except TypeError: raise Bad("arguments")
        raise Bad("not applicable")
    def body(self, forms, env, frame=True):
        e = Env({}, env)
        work = list(forms); defs = []
        while work:
            x = work[0]
            if isinstance(x, Pair) and is_id(x.car):
                d = self.lookup(x.car, e, True)
                if isinstance(d, Macro): work[0] = self.expand(d, x, e); continue
                if isinstance(d, Core) and d.name == "begin": work[0:1] = items(x.cdr); continue
                if isinstance(d, Core) and d.name == "define":
                    p = items(x)
                    if isinstance(p[1], Pair): n, v = p[1].car, ("fn", p[1].cdr, p[2:])
                    else: n, v = p[1], ("ex", p[2])
                    if not is_id(n): raise Bad("define")
                    if n in e.d: raise Bad("duplicate definition")
                    self.bind(e, n, Var(UN)); defs.append((n, v)); work.pop(0); continue
                if isinstance(d, Core) and d.name == "define-syntax":
                    p = items(x)
                    if p[1] in e.d: raise Bad("duplicate definition")
                    self.bind(e, p[1], self.transformer(p[2], e)); work.pop(0); continue
            break
        if not work: raise Bad("empty body")
        for n, v in defs:
            e.d[n].v = self.closure(v[1], v[2], e) if v[0] == "fn" else self.ev(v[1], e)
        r = None
        for x in work: r = self.ev(x, e)
        return r
    def closure(self, formals, body, env):
        c = Clo(); c.ps = []; c.rest = None; c.body = body; c.env = env
        while isinstance(formals, Pair): c.ps.append(formals.car); formals = formals.cdr
        if formals is not NIL: c.rest = formals
        if not all(is_id(p) for p in c.ps + ([c.rest] if c.rest is not None else [])): raise Bad("formals")
        if len(set(c.ps)) < len(c.ps): raise Bad("duplicate formals")
        return c
    def do_lambda_(self, x, env):
        p = items(x); return self.closure(p[1], p[2:], env)
    def bindings(self, bs):
        o = []
        for b in items(bs):
            b = items(b)
            if len(b) < 2 or not is_id(b[0]): raise Bad("binding")
            o.append(b)
        return o
    def do_let(self, x, env):
        p = items(x)
        if is_id(p[1]):
            bs = self.bindings(p[2]); vals = [self.ev(b[1], env) for b in bs]
            e = Env({p[1]: Var(UN)}, env); c = self.closure(lst([b[0] for b in bs]), p[3:], e); e.d[p[1]].v = c
            return self.apply(c, vals)
        bs = self.bindings(p[1])
        return self.apply(self.closure(lst([b[0] for b in bs]), p[2:], env), [self.ev(b[1], env) for b in bs])
    def do_lets(self, x, env):
        p = items(x)
        for b in self.bindings(p[1]): env = Env({b[0]: Var(self.ev(b[1], env))}, env)
        return self.body(p[2:], env)
    def do_letrec(self, x, env):
        p = items(x); bs = self.bindings(p[1]); e = Env({b[0]: Var(UN) for b in bs}, env)
        if len(e.d) < len(bs): raise Bad("duplicate")
        for b in bs: e.d[b[0]].v = self.ev(b[1], e)
        return self.body(p[2:], e)
    def do_if_(self, x, env):
        p = items(x)
        if len(p) not in (3, 4): raise Bad("if")
        if self.ev(p[1], env) is not False: return self.ev(p[2], env)
        if len(p) == 3: raise Bad("unspecified")
        return self.ev(p[3], env)
    def do_set(self, x, env):
        p = items(x)
        if len(p) != 3 or not is_id(p[1]): raise Bad("set!")
        d = self.lookup(p[1], env)
        if not isinstance(d, Var) or d.v is UN or callable(d.v): raise Bad("set!")
        d.v = self.ev(p[2], env); return Unspecified
    def do_quote(self, x, env): return strip(x.cdr.car)
    def do_begin(self, x, env):
        r = None
        for y in items(x.cdr): r = self.ev(y, env)
        return r
    def do_or_(self, x, env):
        r = False
        for y in items(x.cdr):
            r = self.ev(y, env)
            if r is not False: return r
        return r
    def do_and_(self, x, env):
        r = True
        for y in items(x.cdr):
            r = self.ev(y, env)
            if r is False: return r
        return r
    def do_when(self, x, env):
        p = items(x)
        if self.ev(p[1], env) is False: raise Bad("unspecified")
        return self.do_begin(Pair(None, x.cdr.cdr), env)
    def is_core(self, i, env, name):
        if not is_id(i): return False
        d = self.lookup(i, env, True)
        return isinstance(d, Core) and d.name == name
    def do_cond(self, x, env):
        for c in items(x.cdr):
            p = items(c)
            if self.is_core(p[0], env, "else"): return self.do_begin(c, env)
            v = self.ev(p[0], env)
            if v is not False:
                if len(p) == 1: return v
                if self.is_core(p[1], env, "=>"): return self.apply(self.ev(p[2], env), [v])
                return self.do_begin(c, env)
        raise Bad("unspecified")
    def do_case(self, x, env):
        p = items(x); v = self.ev(p[1], env)
        for c in p[2:]:
            q = items(c)
            if self.is_core(q[0], env, "else") or any(type(v) is type(d) and v == d for d in strip_list(q[0])): return self.do_begin(c, env)
        raise Bad("unspecified")
    def do_do(self, x, env):
        p = items(x); bs = [items(b) for b in items(p[1])]; t = items(p[2])
        vals = [self.ev(b[1], env) for b in bs]
        while True:
            self.steps += 1
            if self.steps > 20000: raise Bad("steps")
            e = Env({b[0]: Var(v) for b, v in zip(bs, vals)}, env)
            if self.ev(t[0], e) is not False:
                if len(t) == 1: raise Bad("unspecified")
                return self.do_begin(p[2], e)
            for y in p[3:]: self.ev(y, e)
            vals = [self.ev(b[2], e) if len(b) > 2 else e.d[b[0]].v for b in bs]
    def do_letsyntax(self, x, env):
        p = items(x)
        return self.body(p[2:], Env({b[0]: self.transformer(b[1], env) for b in self.bindings(p[1])}, env))
    def do_letrecsyntax(self, x, env):
        p = items(x); e = Env({}, env)
        for b in self.bindings(p[1]): e.d[b[0]] = self.transformer(b[1], e)
        return self.body(p[2:], e)
    def do_quasiquote(self, x, env): raise Bad("quasiquote")
    # ---- macros
    def transformer(self, x, env):
        if is_id(x):
            d = self.lookup(x, env)
            if isinstance(d, (Macro, Core)): return d
            raise Bad("transformer")
        if not isinstance(x, Pair) or not is_id(x.car): raise Bad("transformer")
        d = self.lookup(x.car, env)
        if isinstance(d, Macro): return self.transformer(self.expand(d, x, env), env)
        if not isinstance(d, Core) or d.name != "syntax-rules": raise Bad("transformer")
        p = items(x); m = Macro(); m.env = env; m.lits = items(p[1]); m.rules = [items(r) for r in p[2:]]
        return m
    def is_ell(self, m, x): return is_id(x) and self.denotes(x, m.env, Sym("..."), self.top)
    def expand(self, m, form, use):
        for r in m.rules:
            b = {}
            if self.match(m, r[0].cdr, form.cdr, use, b):
                return self.build(m, r[1], b, {})
        raise Bad("no rule")
    def match(self, m, p, f, use, b):
        if is_id(p):
            if p in m.lits: return is_id(f) and self.denotes(f, use, p, m.env)
            if self.denotes(p, m.env, Sym("_"), self.top): return True
            b[p] = f; return True
        if isinstance(p, Pair):
            if isinstance(p.cdr, Pair) and self.is_ell(m, p.cdr.car):
                need = 0; r = p.cdr.cdr
                while isinstance(r, Pair): need += 1; r = r.cdr
                n = 0; q = f
                while isinstance(q, Pair): n += 1; q = q.cdr
                n -= need
                if n < 0: return False
                rows = []
                for _ in range(n):
                    row = {}
                    if not self.match(m, p.car, f.car, use, row): return False
                    rows.append(row); f = f.cdr
                for v in self.pvars(m, p.car): b[v] = [row[v] for row in rows]
                return self.match(m, p.cdr.cdr, f, use, b)
            return isinstance(f, Pair) and self.match(m, p.car, f.car, use, b) and self.match(m, p.cdr, f.cdr, use, b)
        if p is NIL: return f is NIL
        return type(p) is type(f) and p == f
    def pvars(self, m, p):
        if is_id(p): return [] if p in m.lits or self.is_ell(m, p) else [p]
        if isinstance(p, Pair): return self.pvars(m, p.car) + self.pvars(m, p.cdr)
        return []
    def build(self, m, t, b, al):
        if is_id(t):
            if t in b:
                if isinstance(b[t], list): raise Bad("depth")
                return b[t]
            if t not in al: al[t] = Alias(t, m.env)
            return al[t]
        if isinstance(t, Pair):
            if self.is_ell(m, t.car): raise Bad("escape")
            if isinstance(t.cdr, Pair) and self.is_ell(m, t.cdr.car):
                vs = [v for v in self.tvars(t.car) if isinstance(b.get(v), list)]
                if not vs: raise Bad("ellipsis")
                xs = [self.build(m, t.car, {**b, **{v: b[v][i] for v in vs}}, al) for i in range(len(b[vs[0]]))]
                return lst(xs, self.build(m, t.cdr.cdr, b, al))
            return Pair(self.build(m, t.car, b, al), self.build(m, t.cdr, b, al))
        return t
    def tvars(self, t):
        if is_id(t): return [t]
        if isinstance(t, Pair): return self.tvars(t.car) + self.tvars(t.cdr)
        return []
    def run(self, text):
        """top-level forms -> serialised value of the last one; raises Bad"""
        r = None
        try:
            for x in ref.parse(text): r = self.toplevel(x)
        except (AttributeError, IndexError, RecursionError, TypeError): raise Bad("syntax")
        return self.show(r)
    def run2(self, library, program, exports):
        """a library's forms, then a program that imports its exports"""
        core = dict(self.top.d)
        try:
            for x in ref.parse(library): self.toplevel(x)
        except (AttributeError, IndexError, RecursionError, TypeError): raise Bad("syntax")
        lib = self.top
        self.top = Env({**core, **{Sym(n): lib.d[Sym(n)] for n in exports}}, None)
        return self.run(program)
    def toplevel(self, x):
        while isinstance(x, Pair) and is_id(x.car):
            d = self.lookup(x.car, self.top)
            if isinstance(d, Macro): x = self.expand(d, x, self.top); continue
            if isinstance(d, Core) and d.name == "begin":
                r = None
                for y in items(x.cdr): r = self.toplevel(y)
                return r
            if isinstance(d, Core) and d.name == "define":
                p = items(x)
                n, v = (p[1].car, self.closure(p[1].cdr, p[2:], self.top)) if isinstance(p[1], Pair) else (p[1], self.ev(p[2], self.top))
                if isinstance(n, Alias): raise Bad("top-level alias")
                self.top.d[n] = Var(v); return None
            if isinstance(d, Core) and d.name == "define-syntax":
                p = items(x)
                if isinstance(p[1], Alias): raise Bad("top-level alias")
                self.top.d[p[1]] = self.transformer(p[2], self.top); return None
            break
        return self.ev(x, self.top)
    def show(self, x):
        def go(x):
            if isinstance(x, (Clo,)) or callable(x): raise Bad("procedure result")
            if x is Unspecified or x is None: raise Bad("unspecified")
            if isinstance(x, Pair): return Pair(go(x.car), go(x.cdr))
            return x
        return ser(go(x))
def strip_list(x): return items(strip(x))
class U: pass
Unspecified = U()
