"""Properties decided with the feature model specification FM.tla."""
import concurrent.futures as cf
import json
import os

from . import core, descr, dotread, tables

# property -> tier -> list of (profile, depth, walks)
PROPS = {
    "C01": {"quick": [("tx1", 3, 0), ("tx2", 4, 0), ("walk", 60, 80), ("ptr1", 3, 0), ("bigtx", 1, 0)],
            "thorough": [("tx1", 4, 0), ("tx2", 5, 0), ("ptr1", 4, 0), ("walk", 200, 600), ("cptr1", 3, 0), ("bigtx", 1, 0)]},
    "C02": {"quick": [("tx1", 3, 0), ("tx2", 4, 0), ("ptr1", 3, 0), ("moved", 4, 0), ("walk", 60, 60), ("bigtx", 1, 0)],
            "thorough": [("tx1", 4, 0), ("tx2", 5, 0), ("ptr1", 4, 0), ("walk", 200, 400), ("bigtx", 1, 0)]},
    "C03": {"quick": [("copy1", 3, 0), ("cptr1", 3, 0), ("copy2", 4, 0), ("moved", 4, 0), ("walk", 60, 60), ("bigcopy", 1, 0)],
            "thorough": [("copy1", 4, 0), ("copy2", 5, 0), ("cptr1", 4, 0), ("walk", 200, 400), ("bigcopy", 1, 0)]},
    "C04": {"quick": [("clone", 3, 0), ("walk", 60, 40)],
            "thorough": [("clone", 4, 0), ("walk", 200, 400)]},
    "C10": {"quick": [("sone", 1, 0), ("srand", 3, 480)],
            "thorough": [("sone", 1, 0), ("srand", 5, 4000)]},
    "C11": {"quick": [("xdocs", 1, 0), ("xalt", 1, 0), ("xone", 1, 0), ("xrand", 1, 1500)],
            "thorough": [("xdocs", 1, 0), ("xalt", 1, 0), ("xone", 1, 0), ("xrand", 1, 20000)]},
    "C12": {"quick": [("merge", 2, 0), ("mpair", 1, 0), ("walk", 60, 30), ("bigmerge", 2, 0)], "thorough": [("merge", 3, 0), ("mpair", 1, 0), ("walk", 200, 200), ("bigmerge", 2, 0)]},
    "C13": {"quick": [("bulk3", 2, 0), ("bulkr", 3, 150), ("bigbulk", 1, 0)],
            "thorough": [("bulk3", 2, 0), ("bulk4", 3, 0), ("bulkr", 3, 4000), ("bigbulk", 1, 0)]},
    "C14": {"quick": [("group", 2, 0), ("walk", 60, 30), ("biggrp", 1, 0)], "thorough": [("group", 3, 0), ("walk", 200, 300), ("biggrp", 1, 0)]},
    "C15": {"quick": [("loc", 2, 0), ("locset", 1, 0), ("pairs", 1, 0)], "thorough": [("loc", 4, 0), ("locset", 2, 0), ("pairs", 1, 0), ("walk", 200, 200)]},
    "C16": {"quick": [("ord3", 2, 0), ("curs", 1, 0), ("ordr", 4, 200), ("bigorder", 1, 0)],
            "thorough": [("ord3", 2, 0), ("curs", 1, 0), ("ordr", 4, 4000), ("walk", 200, 200), ("bigorder", 1, 0)]},
    "C18": {"quick": [("sxlines", 1, 0), ("sxids", 1, 0), ("sxone", 1, 0), ("sxrand", 1, 1500)],
            "thorough": [("sxlines", 1, 0), ("sxids", 1, 0), ("sxone", 1, 0), ("sxrand", 1, 20000)]},
    "C21": {"quick": [("build1", 3, 0), ("build2", 3, 0), ("buildr", 1, 1000)],
            "thorough": [("build1", 4, 0), ("build2", 4, 0), ("buildr", 1, 10000)]},
    "C22": {"quick": [("dseed", 2, 0), ("dtree", 1, 0), ("done", 1, 0), ("drand", 3, 240)],
            "thorough": [("dseed", 2, 0), ("dtree", 1, 0), ("done", 1, 0), ("drand", 5, 6000)]},
    "C23": {"quick": [("pyone", 2, 0), ("pyhist", 3, 0), ("pybuild", 2, 0), ("pycall", 1, 300), ("pyloc", 1, 0),
                      ("pyrand", 6, 360)],
            "thorough": [("pyone", 2, 0), ("pyhist", 3, 0), ("pybuild", 3, 0), ("pycall", 1, 10000), ("pyloc", 1, 0),
                         ("pyrand", 10, 6000)]},
    "C24": {"quick": [("know", 2, 0), ("walk", 60, 40), ("show", 1, 0)],
            "thorough": [("know", 3, 0), ("walk", 200, 400), ("copy1", 4, 0), ("merge", 3, 0)]},
    "C26": {"quick": [("tall", 1, 0), ("tone", 1, 0), ("trand", 1, 480)],
            "thorough": [("tall", 1, 0), ("tone", 1, 0), ("trand", 1, 12000)]},
    "C25": {"quick": [("nseed", 2, 0), ("ntree", 1, 0), ("none", 1, 0), ("nrand", 3, 240)],
            "thorough": [("nseed", 2, 0), ("ntree", 1, 0), ("none", 1, 0), ("nrand", 5, 6000)]},
}
INV = ["AllWF", "CopyWF", "Traversal"]
EXTRA = {"C14": ["GroupInverse"], "C12": ["MergeLaws", "MergeWF"], "C13": ["BulkLaws"]}
ACT = ["Invisible", "CopyIsolated"]

# parts of the recorded state a property does not look at
KNOW = ("cs", "im", "ex")


def slim(prop):
    def f(e):
        if "dot" in e:
            e["graph"] = dotread.read(e.pop("dot"))
        if e["op"]["op"] == "tool":
            e["temp"] = dotread.read(e["temp"])
            e["dump"] = descr.model(e["dump"])
        elif "dump" in e:
            e["text"] = {k: descr.feature(v) for k, v in e["text"].items()}
            e["dump"] = descr.model(e["dump"])
            e["single"] = [descr.feature(e["single"])]
        if prop == "C23":
            return
        for d in e.get("st", {}).values():
            for x in d["F"].values():
                if prop != "C24":
                    for k in KNOW:
                        x.pop(k, None)
                if prop in ("C01", "C16", "C24"):
                    for k in ("locs", "out", "vals", "step"):
                        x.pop(k, None)
            for k in ("cb", "cn", "cx"):
                for y in d[k]:
                    y.pop("s", None)
                    if prop != "C24":
                        y.pop("ok", None)
                    if prop in ("C01", "C16", "C15"):
                        y.pop("a", None)
    return f


# profiles explored by another module than FM_MC
MODULE = {"xdocs": "Xml", "xalt": "Xml", "xone": "Xml", "xrand": "Xml", "tall": "Xml", "tone": "Xml", "trand": "Xml", "sone": "Xml", "srand": "Xml",
          "sxlines": "Sxfm", "sxids": "Sxfm", "sxone": "Sxfm", "sxrand": "Sxfm",
          "pyone": "Py", "pyhist": "Py", "pybuild": "Py", "pycall": "Py", "pyloc": "Py", "pyrand": "Py",
          "dseed": "Dot", "dtree": "Dot", "done": "Dot", "drand": "Dot",
          "nseed": "Dot", "ntree": "Dot", "none": "Dot", "nrand": "Dot"}


def shards(profs):
    """random profiles are explored by several processes with different seeds"""
    for p, d, w in profs:
        k = max(1, min(6, w // SHARD.get(p, 10**9)))
        for j in range(k):
            yield p, d, w // k, j


SHARD = {"srand": 60, "xrand": 500, "trand": 500, "sxrand": 500, "drand": 60, "nrand": 60, "walk": 200, "ordr": 400, "bulkr": 400, "pyrand": 60}


def gen(c, prof, depth, walks, tf, shard=0):
    mod = MODULE.get(prof)
    kw = {"init": mod[0] + "Init", "next_": mod[0] + "Next"} if mod else {}
    t = core.explore(c.wd, (mod or "FM") + "_MC", {"Profile": prof, "Depth": depth, "Walks": walks, "TablesFile": tf},
                     tag="-%s%d" % (prof, shard), view="View", invariants=INV + EXTRA.get(c.prop, []),
                     properties=ACT if prof[:2] in ("tx", "co", "wa", "pt", "cp") else [],
                     workers=1, seed=c.seed + 1000 * shard, xmx="4g", **kw)
    return t, list(t.scripts())


def execute(c, q, tag="", exe=None):
    """run scripts and validate the executions"""
    tf = os.path.join(c.wd, "tables%s.json" % tag)
    json.dump(tables.tables(core.names_of(q)), open(tf, "w"))
    env = {"VDRV_VIEWER": c.viewer()} if c.prop in ("C22", "C26") else {}
    tr = core.run_driver(c.driver(), c.wd, q, tag=tag, extra=env)
    core.histogram(c, tr)
    rej, st = core.validate(c.wd, "FMTrace", {"TablesFile": tf, "Prop": c.prop}, tr, tag=tag,
                            invariants=["SpecWF"], slim=slim(c.prop))
    return rej, st


def describe(r):
    ops = [e["op"] for e in r.trace["ev"][:r.i + 1]]
    last = r.trace["ev"][r.i] if r.i < len(r.trace["ev"]) else {}
    brief = "; ".join(" ".join("%s" % (v if not isinstance(v, (dict, list)) else json.dumps(v))
                               for k, v in o.items() if k not in ("nd",)) for o in ops[-6:])
    return "%s at step %d: implementation %s, specification %s; last operations: %s" % (
        r.why, r.i + 1, last.get("res"), r.expected, brief)


def confirm(c, rej, q, runner):
    """every reported divergence is executed again on its own"""
    for r in rej[:40]:
        if len(c.violations) >= 5:
            break
        ops, _ = q[r.trace["id"]]
        again, _ = runner(c, [(ops, [True] * len(ops))], "-again%d" % r.trace["id"])
        if again:
            a = again[0]
            c.violations.append({"ops": ops, "why": a.why, "step": a.i + 1, "expected": a.expected,
                                 "event": a.trace["ev"][a.i] if a.i < len(a.trace["ev"]) else None,
                                 "text": describe(a)})
        else:
            c.note("unconfirmed", 1)
    if rej and not c.violations:
        raise core.ToolError("divergences that do not repeat: " + describe(rej[0]))


def check(c):
    tf = os.path.join(c.wd, "tables0.json")
    json.dump(tables.tables(), open(tf, "w"))
    profs = list(shards(PROPS[c.prop][c.tier]))
    scripts = []
    with cf.ThreadPoolExecutor(max_workers=7) as ex:
        fb = ex.submit(c.driver)
        fv = ex.submit(c.viewer) if c.prop in ("C22", "C26") else None
        fs = [ex.submit(gen, c, p, d, w, tf, j) for p, d, w, j in profs]
        for (p, d, w, j), f in zip(profs, fs):
            t, s = f.result()
            c.mc(t)
            c.note("scripts_" + p, len(s))
            scripts += s
        fb.result()
        fv and fv.result()
    q = core.quiet_prefixes(scripts)
    del scripts
    batch = 40000
    for b in range(0, len(q), batch):
        part = q[b:b + batch]
        rej, st = execute(c, part, "-b%d" % b)
        c.traces += st["traces"]
        c.events += st["events"]
        c.tvstates += st["states"]
        if rej:
            confirm(c, rej, part, execute)
            break
    c.note("trace_states", c.tvstates)
    for k in (0, len(q) // 3, 2 * len(q) // 3, len(q) - 1):
        c.samples.append([o for o in q[k][0]][-6:])


def replay(c, v):
    rej, _ = execute(c, [(v["ops"], [True] * len(v["ops"]))])
    for r in rej:
        print("VIOLATION property=%s replay=again" % c.prop)
        print(describe(r))
    return 1 if rej else 0
