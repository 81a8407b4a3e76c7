"""Pipeline: TLC explores the specification and prints histories; the driver
executes them against the library; TLC checks the recorded executions."""
import concurrent.futures as cf
import json
import os
import random
import re
import shutil
import subprocess
import sys
import time

from . import build, tables

VERIF = build.VERIF
SPEC = os.path.join(VERIF, "spec")
CPUS = os.cpu_count() or 4
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class ToolError(Exception):
    pass


def workdir(name):
    d = os.path.join(VERIF, "build", "run", name + "-%d" % os.getpid())
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    return d


def tla(v):
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return '"%s"' % v
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(tla(x) for x in sorted(v)) + "}"
    raise ValueError(v)


class Tlc:
    """one run of TLC"""

    def __init__(self, wd, module, consts, invariants=(), properties=(), view=None, workers=1,
                 seed=1, xmx="6g", init="Init", next_="Next", timeout=3600, tag="", spec=None):
        self.module = module
        d = os.path.join(wd, "%s%s" % (module, tag))
        os.makedirs(d, exist_ok=True)
        cfg = ["CONSTANTS"] + ["  %s = %s" % (k, tla(v)) for k, v in sorted(consts.items())]
        if spec:
            cfg += ["SPECIFICATION " + spec]
        else:
            cfg += ["INIT " + init, "NEXT " + next_]
        cfg += ["CHECK_DEADLOCK FALSE"]
        if invariants:
            cfg += ["INVARIANTS " + " ".join(invariants)]
        if properties:
            cfg += ["PROPERTIES " + " ".join(properties)]
        if view:
            cfg += ["VIEW " + view]
        cf_ = os.path.join(d, module + ".cfg")
        open(cf_, "w").write("\n".join(cfg) + "\n")
        out = os.path.join(d, "out.txt")
        cmd = ["java", "-Xss64m", "-Xmx" + xmx, "-XX:+UseParallelGC", "-XX:ParallelGCThreads=4",
               "-cp", JARS, "tlc2.TLC", "-config", cf_, "-workers", str(workers), "-noGenerateSpecTE",
               "-metadir", os.path.join(d, "meta"), "-fp", "1", "-seed", str(seed),
               os.path.join(SPEC, module + ".tla")]
        t0 = time.time()
        with open(out, "w") as fo:
            try:
                self.rc = subprocess.run(cmd, stdout=fo, stderr=subprocess.STDOUT, cwd=SPEC,
                                         timeout=timeout).returncode
            except subprocess.TimeoutExpired:
                raise ToolError("TLC %s timed out" % module)
        self.wall = time.time() - t0
        self.out = out
        self.states = self.distinct = 0
        self.mismatches = []
        self.error = None
        tail = []
        for line in open(out, errors="replace"):
            m = re.match(r"(\d+) states generated, (\d+) distinct states found", line)
            if m:
                self.states, self.distinct = int(m.group(1)), int(m.group(2))
            if line.startswith('<<"MISMATCH"'):
                self.mismatches.append(line.strip())
            if line.startswith("Error:"):
                self.error = (self.error or "") + line
            if not line.startswith(('"SCRIPT', 'Parsing file', 'Semantic proc', 'Running')):
                tail.append(line)
        shutil.rmtree(os.path.join(d, "meta"), ignore_errors=True)
        if self.rc not in (0,):
            self.error = (self.error or "") + "rc=%d\n" % self.rc + "".join(tail[-60:])

    def scripts(self):
        for line in open(self.out, errors="replace"):
            if line.startswith('"SCRIPT '):
                yield json.loads(json.loads(line)[7:])


def explore(wd, module, consts, tag="", **kw):
    """model-check a generator; a violated invariant of the specification is an
    error of the machinery, not of the code"""
    t = Tlc(wd, module, consts, tag=tag, **kw)
    if t.error:
        raise ToolError("%s%s: %s" % (module, tag, t.error))
    return t


class Trie:
    """Drops scripts that are prefixes of others and marks, for every script,
    which of its operations were already observed in an earlier script."""

    def __init__(self):
        self.root = {}
        self.n = 0

    def add(self, ops):
        node = self.root
        fresh = False
        for o in ops:
            k = json.dumps(o, sort_keys=True)
            if k not in node:
                node[k] = {}
                fresh = True
            node = node[k]
        return fresh

    def scripts(self):
        out = []

        def rec(node, ops, marks):
            first = True
            if not node:
                out.append((ops, marks))
                return
            for k, ch in node.items():
                rec(ch, ops + [json.loads(k)], marks + [True])
                if first:
                    first = False
                    marks = [False] * len(marks)
        sys.setrecursionlimit(10000)
        rec(self.root, [], [])
        return out


def quiet_prefixes(scripts):
    """(ops, marks): marks[i] is true if the state after op i has to be dumped"""
    t = Trie()
    for s in scripts:
        t.add(s)
    return t.scripts()


ASAN = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:hard_rss_limit_mb=3000:allocator_may_return_null=1:symbolize=0:"
                        "detect_stack_use_after_return=0", "LC_ALL": "C"}


def run_driver(exe, wd, scripts, tag="", expand=tables.expand, timeout=20, shards=None, extra={}):
    """scripts: list of (ops, marks) -> list of traces {"id","ev":[..]}"""
    if not scripts:
        return []
    shards = min(shards or CPUS, max(1, len(scripts) // 20 + 1))
    d = os.path.join(wd, "drv" + tag)
    os.makedirs(d, exist_ok=True)
    parts = [list(range(k, len(scripts), shards)) for k in range(shards)]

    def one(k):
        fin = os.path.join(d, "in%d.ndjson" % k)
        fout = os.path.join(d, "out%d.ndjson" % k)
        with open(fin, "w") as f:
            for j in parts[k]:
                ops, marks = scripts[j]
                ex = []
                for o, mk in zip(ops, marks):
                    e = expand(o)
                    if not mk or e.pop("nd", False):
                        e["dump"] = False
                    ex.append(e)
                f.write(json.dumps({"id": j, "ops": ex}) + "\n")
        sd = os.path.join(d, "scratch%d" % k)
        os.makedirs(sd, exist_ok=True)
        env = dict(os.environ, **ASAN, **extra)
        env["TMPDIR"] = sd
        with open(os.path.join(d, "err%d.txt" % k), "w") as er:
            r = subprocess.run(([exe] if isinstance(exe, str) else exe) + [fin, fout, str(timeout)], env=env, stdout=er, stderr=er, cwd=sd)
        shutil.rmtree(sd, ignore_errors=True)
        if r.returncode != 0:
            err = open(os.path.join(d, "err%d.txt" % k), errors="replace").read()
            bad = re.findall(r"BADSCRIPT.*", err)
            raise ToolError("driver failed (%d): %s" % (r.returncode, bad[:3] or err[-500:]))
        ev = {}
        for line in open(fout, errors="replace"):
            e = json.loads(line)
            ev.setdefault(e["s"], []).append(e)
        res = []
        for pos, j in enumerate(parts[k]):
            ops, _ = scripts[j]
            es = ev.get(pos, [])
            tr = []
            for e in es:
                i = e["i"]
                e.pop("s")
                e.pop("i")
                e["op"] = ops[i] if i < len(ops) else {"op": "end"}
                tr.append(e)
            res.append((j, tr))
        return res

    traces = [None] * len(scripts)
    with cf.ThreadPoolExecutor(max_workers=shards) as exr:
        for res in exr.map(one, range(shards)):
            for j, tr in res:
                traces[j] = tr
    out = []
    skipped = 0
    for j, tr in enumerate(traces):
        if not tr and scripts[j][0]:
            skipped += 1  # not run after too many crashes
            continue
        out.append({"id": j, "ev": tr})
    return out


def histogram(c, traces):
    """how often every operation ended how, for the evidence"""
    for t in traces:
        for e in t["ev"]:
            c.note("result %s %s" % (e["op"].get("op", "?"), e.get("res", "?")), 1)


def names_of(scripts):
    s = set()

    def rec(v, key=None):
        if isinstance(v, dict):
            for k, x in v.items():
                rec(x, k)
        elif isinstance(v, list):
            for x in v:
                rec(x, key)
        elif isinstance(v, str) and key in ("n", "c", "p", "root"):
            s.add(v)
    for ops, _ in scripts:
        rec(ops)
    s.discard("")
    return s


class Rejected:
    def __init__(self, trace, i, why, expected):
        self.trace, self.i, self.why, self.expected = trace, i, why, expected


def _marks(tr):
    return [k for k, e in enumerate(tr["ev"]) if "st" in e]


def _validate(wd, module, consts, part, tag, view, invariants, xmx, workers):
    tf = os.path.join(wd, "%s%s.ndjson" % (module, tag))
    with open(tf, "w") as f:
        for t in part:
            f.write(json.dumps({"id": t["id"], "ev": t["ev"]}) + "\n")
    t = Tlc(wd, module, dict(consts, TraceFile=tf), tag=tag, workers=workers, view=view,
            invariants=invariants, xmx=xmx)
    if not os.environ.get("VERIF_KEEP"):
        os.remove(tf)
    byid = {x["id"]: x for x in part}
    if t.error:
        if len(part) == 1:
            # the specification has no meaning for what was recorded
            return [Rejected(part[0], len(part[0]["ev"]) - 1, "unreadable", t.error[-1500:])], t.states
        h = len(part) // 2
        r1, s1 = _validate(wd, module, consts, part[:h], tag + "l", view, invariants, xmx, workers)
        r2, s2 = _validate(wd, module, consts, part[h:], tag + "r", view, invariants, xmx, workers)
        if len(r1) + len(r2) == 0:
            raise ToolError("%s%s: %s" % (module, tag, t.error))
        return r1 + r2, s1 + s2
    bad = {}
    for m in t.mismatches:
        g = re.match(r'<<"MISMATCH", (\d+), (\d+), "(.*?)", "(.*)">>$', m)
        if not g:
            raise ToolError("unreadable: " + m)
        bad[int(g.group(1))] = Rejected(byid[int(g.group(1))], int(g.group(2)) - 1, g.group(3), g.group(4))
    # every event of every accepted trace must have been consumed
    want = 0
    for tr in part:
        n = len(tr["ev"])
        r = bad.get(tr["id"])
        upto = r.i if r else n
        marks = [k for k in range(upto) if "st" in tr["ev"][k]]
        want += 1 + len(marks)
        if r or not marks or marks[-1] != n - 1:
            want += 1
        if not n:
            want -= 1
    if t.distinct != want:
        raise ToolError("%s: consumed %d states, expected %d" % (module, t.distinct, want))
    return list(bad.values()), t.states


def validate(wd, module, consts, traces, tag="", view="VView", invariants=(), per=6000,
             procs=6, slim=None):
    """check recorded traces against the trace specification, several TLC
    processes side by side; returns (rejected, stats)"""
    if slim:
        for t in traces:
            for e in t["ev"]:
                slim(e)
    sizes = [1 + sum(3 + len(e.get("st", ())) * 6 for e in t["ev"]) for t in traces]
    total = sum(sizes)
    shards = max(1, min(procs, total // per + 1))
    parts = [[] for _ in range(shards)]
    for k, t in enumerate(traces):
        parts[k % shards].append(t)
    parts = [p for p in parts if p]
    stats = {"states": 0, "traces": len(traces), "events": sum(len(x["ev"]) for x in traces)}
    rej = []
    with cf.ThreadPoolExecutor(max_workers=procs) as ex:
        fs = [ex.submit(_validate, wd, module, consts, p, "%s-%d" % (tag, k), view, invariants,
                        "3g", 2 if len(parts) > 2 else 4) for k, p in enumerate(parts)]
        for f in fs:
            r, st = f.result()
            rej += r
            stats["states"] += st
    rej.sort(key=lambda r: r.trace["id"])
    return rej, stats
