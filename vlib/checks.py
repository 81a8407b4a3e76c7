"""One check per property: explore the specification, execute what it
generates, validate what the implementation did."""
import json
import os
import shutil
import sys
import time
import traceback

from . import build, core, fm

VERIF = build.VERIF
LEVEL = "model_checking"


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier == "quick"
        self.wd = core.workdir(prop)
        self.states = self.transitions = 0
        self.traces = self.events = self.tvstates = 0
        self.samples = []
        self.violations = []   # (replay dict)
        self.known = []
        self.notes = {}
        self.exe = None

    def driver(self):
        if not self.exe:
            self.exe = build.build_python() if self.prop == "C23" else build.build_driver()
            if self.prop == "C27":
                self.exe = ["/usr/bin/env", "VDRV_GEN=" + build.build_driver(generator=True), self.exe]
        return self.exe

    def viewer(self):
        return build.build_driver(viewer=True)

    def note(self, k, v):
        self.notes[k] = self.notes.get(k, 0) + v if isinstance(v, int) else v

    def mc(self, t):
        self.states += t.distinct
        self.transitions += t.states


DOMAINS = {}


def domain_of(prop):
    for d in (fm,):
        if prop in d.PROPS:
            return d
    import importlib
    for name in ("lang", "solver", "conf", "steps", "writer", "gen", "result"):
        try:
            m = importlib.import_module("vlib." + name)
        except ModuleNotFoundError:
            continue
        if prop in m.PROPS:
            return m
    raise SystemExit("no check for " + prop)


def run(prop, tier):
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    c = Ctx(prop, tier, seed)
    try:
        domain_of(prop).check(c)
    except core.ToolError as e:
        print("ERROR of the check: %s" % e)
        return 2
    ev = {"property": prop, "tier": tier, "seed": seed, "level": LEVEL,
          "coverage": dict({"states": c.states, "transitions": c.transitions,
                            "traces_validated_against_impl": c.traces,
                            "events_validated": c.events, "samples": c.samples[:5]}, **c.notes),
          "wall_s": round(time.time() - t0, 1)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    for k in c.known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k))
    print("%s %s: %d states, %d transitions of the specification; %d executions with %d steps validated; %.0f s"
          % (prop, tier, c.states, c.transitions, c.traces, c.events, time.time() - t0))
    if not os.environ.get("VERIF_KEEP"):
        shutil.rmtree(c.wd, ignore_errors=True)
    if c.violations:
        d = os.path.join(VERIF, "build", "replays")
        os.makedirs(d, exist_ok=True)
        for n, v in enumerate(c.violations[:5]):
            p = os.path.join(d, "%s-%d.json" % (prop, n))
            json.dump(dict(v, property=prop), open(p, "w"), indent=1)
            print("VIOLATION property=%s replay=%s" % (prop, p))
            print("  " + v.get("text", "")[:1500])
        return 1
    return 0


def replay(path):
    v = json.load(open(path))
    print(v.get("text", ""))
    c = Ctx(v["property"], "quick", 1)
    return domain_of(v["property"]).replay(c, v)


def setup():
    exe = build.build_driver()
    print(exe)
    for m in ():
        try:
            import importlib
            mod = importlib.import_module(m)
            mod.setup()
        except ModuleNotFoundError:
            pass
    return 0
