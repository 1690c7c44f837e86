"""G01: garbage collection is invisible. Every allocation point of every program of the corpus is made a collection point."""
import sys, os, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
from grammar import *
import gcprogs, mvbuild

c = Check("G01", "model_checking")
c.build("hook"); c.build("gcs")
quick = c.quick
c.cov["allocation_points"] = 0
c.cov["collections"] = 0

def invisible(name, programs, pre, flavours=("hook", "gcs"), every=(1,), singles=0, args=(), cpu_ms=100000, most=None):
    """Each program is run without collections, then with a collection at every `every`-th allocation point, then (singles) with
    exactly one collection at point k for every k; status, trace and output must be those of the first run."""
    if not c.part(name): return
    wrap = lambda w, p: "%s\n(gc/%s)\n%s\n(gc/off)" % ((p[0], w, p[1]) if isinstance(p, tuple) else ("", w, p)) # (set-up, what runs under the schedule)
    for fl in flavours:
        t = time.time()
        base = c.run([wrap("at -1", p) for p in programs], pre, flavour=fl, args=args, cpu_ms=cpu_ms)
        n = [int(r.value) if r.status == "v" else 0 for r in base]
        for p, r in zip(programs, base):
            if r.status in "KTc": c.violate(name, wrap("at -1", p), "the run without collections ends abnormally", r, pre)
        cases, exp = [], []
        for k in every:
            for p, r, m in zip(programs, base, n):
                if most is not None: k = m // most + 1
                cases.append(wrap("every %d" % k, p)); exp.append((r.status, None if r.status == "v" else r.value, r.trace, r.output))
                c.cov["collections"] += m // k
        for p, r, m in zip(programs, base, n):
            if singles and r.status == "v":
                for k in range(min(m, singles)):
                    cases.append(wrap("at %d" % k, p)); exp.append((r.status, None, r.trace, r.output)); c.cov["collections"] += 1
        c.cov["allocation_points"] += sum(n)
        print("     %s/%s: %d programs, %d allocation points, baseline %.1f s" % (name, fl, len(programs), sum(n), time.time() - t), flush=True)
        # interleaved so that every worker gets its share of the long programs
        order = sorted(range(len(cases)), key=lambda i: i % 8)
        c.compare(name + "/" + fl, [cases[i] for i in order], [exp[i] for i in order], pre, flavour=fl, args=args, cpu_ms=cpu_ms, grain=2)

_part = c.part
c.part = lambda name: _part(name.split("/")[0])

# ---- primitives, reader, expander, compiler
pre, progs = gcprogs.t0(mvbuild.REPO)
invisible("primitives", gcprogs.t0(mvbuild.REPO, True)[1] if quick else progs, pre, flavours=("hook",), args=("-m",))
invisible("primitives", progs, pre, flavours=("gcs",), args=("-m",))
if not quick: invisible("primitives, single points", progs, pre, flavours=("gcs",), every=(2, 3), singles=60, args=("-m",))

# ---- control: continuations, extents, exceptions, parameters, promises
g = Grammar({"E": gcprogs.CONTROL})
pre = gcprogs.control_preamble(mvbuild.REPO)
def control(name, es, flavours, every):
    if not c.part(name): return
    invisible(name, [gcprogs.control_program(e) for e in es], pre, flavours=flavours, every=every, args=("-m",))
small = [e for n in range(1, 4) for e in g.terms("E", n)]
nest = [e for e in g.terms("E", 4) if "again" in e and "k0 k" in e]
if quick: control("control", small + nest[::4], ("gcs",), (1,)); control("control", small[::3], ("hook",), (1,))
else: control("control", small + nest, ("gcs",), (1,)); control("control", small, ("hook",), (1,))

# ---- R7RS forms, in the full environment
pairs = gcprogs.r7programs()
if quick: invisible("r7rs", pairs, IMPORTS, ("gcs",), (1,), most=400)
else: invisible("r7rs", pairs, IMPORTS, ("gcs",), (1,)); invisible("r7rs", pairs, IMPORTS, ("hook",), (1,), most=100)
exps = [e.replace("%d", str(k)) for k, e in enumerate(gcprogs.EXPANSIONS)]
invisible("expansion", exps, IMPORTS, ("gcs",), (401,) if quick else (11, 101, 103))
c.assumptions += ["a collection at every allocation point reclaims at each point whatever any schedule could have made reclaimable there; single-point schedules are added in the thorough tier",
                  "flavour gcs: the allocator as shipped, freed memory overwritten (MALLOC_PERTURB_); flavour hook: AddressSanitizer, every cell a heap block of its own"]
c.states = c.cov["allocation_points"]; c.transitions = c.cov["collections"]; c.traces_validated = sum(x["cases"] for x in c.parts.values())
c.finish("every allocation point of every program of the corpus is a collection point (control programs: every term of the grammar up to the bound); observed result, trace and output equal those of the run without collections",
         bounds={"control programs": "all terms up to 3 operators, re-entering ones of 4", "r7rs": "every k-th point, at most 400 collections per program in the quick tier, every point in the thorough tier", "expansion": "every 401st point (thorough: 11th, 101st, 103rd)"})
