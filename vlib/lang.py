"""The constraint language (Lang.tla): texts and builder calls."""
import concurrent.futures as cf
import json

from . import core, fm

PROPS = {
    "C08": {"quick": [("chars", 3, 0), ("chars2", 2, 0), ("toks", 2, 0), ("pairs", 1, 0), ("words", 1, 0), ("wordr", 1, 300),
                      ("rand", 4, 1500)],
            "thorough": [("chars", 4, 0), ("chars2", 4, 0), ("toks", 3, 0), ("pairs", 1, 0), ("words", 1, 0), ("wordr", 1, 6000),
                         ("rand", 5, 20000)]},
    "C09": {"quick": [("calls", 4, 0), ("callsp", 1, 0), ("callsr", 4, 3000)],
            "thorough": [("calls", 5, 0), ("callsp", 1, 0), ("callsr", 5, 30000)]},
}
INV = ["PrintParse", "Brackets", "SpaceFree", "UnaryTight"]
CH = {"SP": " ", "NL": "\n", "TAB": "\t", "CR": "\r", "NUL": "\0"}
BACK = {v: k for k, v in CH.items()}


def expand(op):
    o = dict(op)
    if "cs" in o:
        o["text"] = "".join(CH.get(x, x) for x in o.pop("cs"))
    return o


def slim(e):
    if "pc" in e:
        e["pc"] = [BACK.get(x, x) for x in e["pc"]]
    e.pop("s", None)
    if "next" in e:
        e["next"].pop("pc", None)


def domain(props, module, inv, expand, slim, single=25):
    """check and replay for inputs that are judged one by one"""

    def gen(c, prof, depth, walks):
        t = core.explore(c.wd, module + "_MC", {"Profile": prof, "Depth": depth, "Walks": walks}, tag="-" + prof,
                         invariants=inv, workers=1, seed=c.seed, xmx="4g")
        return t, [s[0] for s in t.scripts()]

    def execute(c, q, tag=""):
        tr = core.run_driver(c.driver(), c.wd, q, tag=tag, expand=expand)
        core.histogram(c, tr)
        return core.validate(c.wd, module + "Trace", {}, tr, tag=tag, slim=slim)

    def check(c):
        ops = {}
        profs = props[c.prop][c.tier]
        with cf.ThreadPoolExecutor(max_workers=6) as ex:
            fb = ex.submit(c.driver)
            fs = [ex.submit(gen, c, *p) for p in profs]
            for p, f in zip(profs, fs):
                t, s = f.result()
                c.mc(t)
                c.note("inputs_" + p[0], len(s))
                for o in s:
                    ops[json.dumps(o)] = o
            fb.result()
        ops = list(ops.values())
        q = [(ops[k:k + single], [False] * single) for k in range(0, len(ops), single)]
        for b in range(0, len(q), 10000):
            part = q[b:b + 10000]
            rej, st = execute(c, part, "-b%d" % b)
            c.traces += st["traces"]
            c.events += st["events"]
            if rej:
                # each offending input on its own
                alone = []
                for r in rej[:40]:
                    ev = r.trace["ev"]
                    alone.append(([ev[min(r.i, len(ev) - 1)]["op"]], [False]))
                rej2, _ = execute(c, alone, "-s")
                fm.confirm(c, rej2, alone, execute)
                if not c.violations:
                    raise core.ToolError("divergence does not repeat: " + fm.describe(rej[0]))
                break
        c.note("distinct_inputs", len(ops))
        for k in range(0, len(ops), max(1, len(ops) // 5)):
            c.samples.append(expand(ops[k]))

    def replay(c, v):
        rej, _ = execute(c, [(v["ops"], [False] * len(v["ops"]))])
        for r in rej:
            print("VIOLATION property=%s replay=again" % c.prop)
            print(fm.describe(r))
        return 1 if rej else 0

    return check, replay


check, replay = domain(PROPS, "Lang", INV, expand, slim)
