"""Enumeration of all terms of a grammar up to a cost.

A grammar maps a nonterminal to productions (cost, template, (children...)); the template holds one {} per child.
terms(g, nt, n) yields every term of nt whose cost is exactly n.  A template may mention $ for a number unique
within the finished program (markers); number() fills them in.
"""
import functools, itertools

class Grammar:
    def __init__(self, prods):
        self.prods = prods
        self.memo = {}
    def terms(self, nt, n):
        key = (nt, n)
        if key in self.memo: return self.memo[key]
        out = []
        self.memo[key] = out
        for cost, tpl, kids in self.prods[nt]:
            if cost > n: continue
            parts = tpl.split("{}")
            assert len(parts) == len(kids) + 1, tpl
            for split in compositions(n - cost, len(kids)):
                lists = [self.terms(k, s) for k, s in zip(kids, split)]
                if any(not l for l in lists): continue
                for combo in itertools.product(*lists):
                    s = parts[0]
                    for c, p in zip(combo, parts[1:]): s += c + p
                    out.append(s)
        return out
    def upto(self, nt, n):
        out = []
        for k in range(n + 1): out.extend(self.terms(nt, k))
        return out

@functools.lru_cache(None)
def compositions(n, k):
    if k == 0: return ((),) if n == 0 else ()
    if k == 1: return ((n,),)
    return tuple((i,) + r for i in range(n + 1) for r in compositions(n - i, k - 1))

def number(s, start=0):
    """Replaces each $ by a distinct number."""
    out = []; n = start
    for p in s.split("$"):
        out.append(p); out.append(str(n)); n += 1
    return "".join(out[:-1])
