"""Configurations and the solver (Solver.tla)."""
import concurrent.futures as cf

from . import core, fm

PROPS = {
    "C05": {"quick": [("tree", 3, 0), ("treer", 6, 250), ("big", 1, 40), ("wide", 1, 0)],
            "thorough": [("tree", 4, 0), ("treer", 6, 4000), ("treer", 8, 1500), ("big", 1, 1500), ("wide", 2, 0)]},
    "C06": {"quick": [("hist", 3, 0), ("histm", 5, 0), ("histr", 14, 250), ("iter", 6, 0), ("treer", 4, 120)],
            "thorough": [("hist", 4, 0), ("histm", 8, 0), ("histr", 24, 5000), ("iter", 9, 0), ("treer", 5, 2000)]},
    "C07": {"quick": [("cons1", 1, 0), ("consr", 1, 180), ("big", 1, 40)],
            "thorough": [("consb", 1, 0), ("consn", 1, 0), ("consx", 1, 0), ("consr", 1, 4000), ("big", 1, 1000)]},
}
INV = ["CountLaw", "Shares", "Sess"]


# numbers in models with large numbers are multiples of one of these
UNITS = {1: 3000000019, 2: 2**60}


def scaled(v, u):
    """every number of a list, range, step or constraint times u"""
    if isinstance(v, dict):
        return {k: [x * u for x in y] if k in ("list", "range") else y * u if k == "c" or k == "v" else scaled(y, u)
                for k, y in v.items()}
    if isinstance(v, list):
        return [scaled(x, u) for x in v]
    return v


def expand(op):
    if "big" in op:
        return dict(scaled({k: v for k, v in op.items() if k != "big"}, UNITS[op["big"]]))
    return op


def slim(e):
    e["st"] = {}
    u = e.pop("unit", None)
    for c in e.get("cfgs", []) + ([e["cfg"]] if "cfg" in e else []):
        for v in c.values():
            if v[0] == "i" and u:
                v[1] = v[1] // u if v[1] % u == 0 else 999999999
            elif v[0] == "i" and abs(v[1]) > 2**31 - 1:
                v[1] = 999999998


def gen(c, k, prof, depth, walks):
    t = core.explore(c.wd, "Solver_MC", {"Profile": prof, "Depth": depth, "Walks": walks}, tag="-%s%d" % (prof, k),
                     invariants=INV, view="View", workers=1, seed=c.seed, xmx="4g")
    return t, list(t.scripts())


def execute(c, q, tag=""):
    tr = core.run_driver(c.driver(), c.wd, q, tag=tag, timeout=60, expand=expand)
    for t in tr:
        unit = None
        for e in t["ev"]:
            unit = UNITS.get(e["op"].get("big"), unit)
            if unit:
                e["unit"] = unit
    core.histogram(c, tr)
    return core.validate(c.wd, "SolverTrace", {}, tr, tag=tag, slim=slim, per=900)


def check(c):
    scripts = []
    profs = PROPS[c.prop][c.tier]
    with cf.ThreadPoolExecutor(max_workers=6) as ex:
        fb = ex.submit(c.driver)
        fs = [ex.submit(gen, c, k, *p) for k, p in enumerate(profs)]
        for p, f in zip(profs, fs):
            t, s = f.result()
            c.mc(t)
            c.note("sessions_" + p[0], len(s))
            scripts += s
        fb.result()
    q = [(o, [False] * len(o)) for o, _ in core.quiet_prefixes(scripts)]
    for b in range(0, len(q), 10000):
        part = q[b:b + 10000]
        rej, st = execute(c, part, "-b%d" % b)
        c.traces += st["traces"]
        c.events += st["events"]
        if rej:
            fm.confirm(c, rej, part, execute)
            break
    for k in (0, len(q) // 3, 2 * len(q) // 3, len(q) - 1):
        c.samples.append(q[k][0][-6:])


def replay(c, v):
    rej, _ = execute(c, [(v["ops"], [False] * len(v["ops"]))])
    for r in rej:
        print("VIOLATION property=%s replay=again" % c.prop)
        print(fm.describe(r))
    return 1 if rej else 0
