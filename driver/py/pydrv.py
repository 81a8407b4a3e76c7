"""The conformance driver for the Python bindings: executes the scripts of the
specification through the exported functions and reports what they show.
usage: pydrv.py IN.ndjson OUT.ndjson TIMEOUT; VDRV_PYMOD names the module."""
import importlib.machinery
import importlib.util
import json
import os
import re
import signal
import sys
import tempfile

spec = importlib.util.spec_from_file_location(
    "vara_feature", os.environ["VDRV_PYMOD"],
    loader=importlib.machinery.ExtensionFileLoader("vara_feature", os.environ["VDRV_PYMOD"]))
V = importlib.util.module_from_spec(spec)
spec.loader.exec_module(V)
F, C, FM = V.feature, V.constraint, V.feature_model
KINDS = {"BinaryFeature": "bin", "NumericFeature": "num", "RootFeature": "root", "Feature": "unk"}
REL = {"OR": "OR", "ALT": "XOR"}
CAT = {"n": F.Location.Category.necessary, "i": F.Location.Category.inessential}
SCRATCH = tempfile.mkdtemp()


class Bad(Exception):
    pass


def scratch(n):
    return os.path.join(SCRATCH, n)


# ---------------------------------------------------------------- locations
def pos(p):
    return F.LineColumnOffset(p[0], p[1]) if p else None


def mk_loc(l):
    if "mo" in l or "rev" in l:
        raise Bad("location")
    s, e = pos(l.get("s")), pos(l.get("e"))
    if "cat" in l:
        return F.Location(l["path"], s, e, CAT[l["cat"]])
    # arguments that are left out are the same as none
    full = F.Location(l["path"], s, e, CAT["n"])
    if full != F.Location(l["path"], s, e) or (e is None and full != F.Location(l["path"], s)) or \
            str(full) != str(F.Location(l["path"], s, e)) or (e is None and str(full) != str(F.Location(l["path"], s))):
        raise RuntimeError("location from fewer arguments")
    if e is not None:
        return F.Location(l["path"], s, e)
    if s is not None:
        return F.Location(l["path"], s)
    return F.Location(l["path"])


def show_pos(p):
    if p is None:
        return ""
    t = "%d,%d" % (p.line_number, p.column_offset)
    return t if str(p) == t.replace(",", ":") else "?" + str(p)


def show_loc(l):
    cat = "i" if l.category == CAT["i"] else "n" if l.category == CAT["n"] else "?"
    return "|".join([l.path, show_pos(l.start), show_pos(l.end), cat, str(l)])


# --------------------------------------------------------------- constraints
def mk_con(a):
    """with as many brackets as the builder needs"""
    def rec(b, a):
        o = a["o"]
        if o == "f":
            b.feature(a["n"])
        elif o == "i":
            b.constant(int(a["v"]))
        elif o in ("!", "~"):
            b.lNot() if o == "!" else b.neg()
            b.openPar()
            rec(b, a["x"])
            b.closePar()
        else:
            b.openPar()
            rec(b, a["l"])
            getattr(b, OPS[o])()
            rec(b, a["r"])
            b.closePar()
        return b
    return rec(C.ConstraintBuilder(), a).build()


OPS = {"&": "lAnd", "|": "lOr", "^": "lXor", "=>": "implies", "=>!": "excludes", "<=>": "equivalent", "=": "equal",
       "!=": "notEqual", "<": "less", "<=": "lessEqual", ">": "greater", ">=": "greaterEqual", "+": "add",
       "-": "subtract", "*": "multiply", "/": "divide"}


def cbuild(w, o):
    b = C.ConstraintBuilder()
    for c in o["calls"]:
        k, v = c["k"], c["v"]
        if k == "id":
            r = b.feature(v)
        elif k == "num":
            r = b.constant(int(v))
        elif k == "()":
            r = b()
        else:
            r = getattr(b, OPS[v] if k == "op" else {"!": "lNot", "~": "neg", "(": "openPar", ")": "closePar"}[k])()
        if r is not b:
            return {"res": "CHAIN"}
    x = b.build()
    if x is None:
        return {"res": "NULL"}
    t = str(x)
    y = x.clone()
    wrap = [FM.BooleanConstraint(x), FM.NonBooleanConstraint(y)]
    mixed = [FM.MixedConstraint(x, r, e) for r in (FM.Req.ALL, FM.Req.NONE) for e in (FM.ExprKind.POS, FM.ExprKind.NEG)]
    same = all(str(z) == t for z in [y] + wrap + mixed) and all(str(z.constraint) == t for z in wrap + mixed)
    kinds = ["%s%s" % (z.req.name.lower(), z.exprKind.name.lower()) for z in mixed]
    del wrap, mixed
    return {"res": "OK", "text": t, "same": same and str(x) == t and str(y) == t,
            "kinds": kinds == ["allpos", "allneg", "nonepos", "noneneg"]}


# ------------------------------------------------------------------- models
def is_feature(n):
    return isinstance(n, F.Feature)


def node(n):
    """features by name, groups by their parent"""
    if n is None:
        return ""
    if is_feature(n):
        return n.name.str()
    p = n.parent()
    return "#" + (p.name.str() if p is not None else "?")


TEXT = re.compile(r'  name: "(?P<name>.*)",\n  optional: (?P<opt>true|false),\n  (?:locations: (?P<locs>.*),\n  )?'
                  r'(?:parent: (?P<par>.*),\n  )?children: \[(?P<ch>.*)\]'
                  r'(?:,\n  minValue: (?P<lo>-?\d+),\n  maxValue: (?P<hi>-?\d+)|,\n  values: \[(?P<vals>.*)\])?')


def read_text(t):
    m = TEXT.fullmatch(t)
    if not m:
        return {"name": "?" + t}
    g = m.groupdict()
    if g["lo"] is not None:
        vals = "r:%s:%s" % (g["lo"], g["hi"])
    elif g["vals"] is not None:
        vals = "l" + "".join(":" + v for v in g["vals"].split(",")[:-1])
    else:
        vals = ""
    return {"name": g["name"], "opt": g["opt"] == "true", "locs": g["locs"] or "", "par": g["par"] or "",
            "ch": g["ch"].split(",")[:-1], "vals": vals}


class Model:
    def __init__(self, m):
        self.m, self.held = m, {}

    def get(self, n):
        """a handle that was taken earlier, if there is one"""
        if n not in self.held:
            x = self.m.get_feature(n)
            if x is None:
                raise Bad("no feature " + n)
            self.held[n] = x
        return self.held[n]

    def refresh(self):
        now = {x.name.str() for x in self.m}
        for n in list(self.held):
            if n not in now:
                del self.held[n]


def dump(M):
    m = M.m
    d = {"name": m.name.str(), "path": "CWD" if m.path == os.getcwd() else m.path, "commit": m.commit, "size": m.size(), "len": len(m),
         "root": m.get_root().name.str(), "dfs": [x.name.str() for x in m]}
    fs, groups = {}, {}
    allf = list(m)
    for x in allf:
        n = x.name.str()
        h = M.held.setdefault(n, x)
        again = m.get_feature(n)
        ch = list(h.children())
        for c in ch:
            if not is_feature(c):
                groups[node(c)] = c
        fs[n] = {"k": KINDS.get(type(x).__name__, "?"), "opt": h.is_optional(), "out": h.output_string.str(),
                 "isroot": h.is_root(), "par": node(h.parent()), "ch": [node(c) for c in ch],
                 "it": [node(c) for c in h], "hl": h.hasLocations(),
                 "locs": [show_loc(l) for l in h.locations], "text": read_text(str(h)),
                 "same": again == h and h == x and hash(again) == hash(h) and h.name.str() == n
                         and (type(h) is F.Feature or h.to_string() == str(h))}
    links = allf + list(groups.values())
    for x in allf:
        n = x.name.str()
        fs[n]["kids"] = [node(y) for y in links if x.is_child(y)]
        fs[n]["pars"] = [node(y) for y in links if x.is_parent(y)]
    d["F"] = fs
    d["R"] = {k: {"par": node(g.parent()), "ch": [node(c) for c in g.children()], "it": [node(c) for c in g],
                  "kids": [node(y) for y in links if g.is_child(y)],
                  "pars": [node(y) for y in links if g.is_parent(y)]} for k, g in groups.items()}
    d["cb"] = [str(c) for c in m.booleanConstraints]
    d["cn"] = [str(c) for c in m.nonBooleanConstraints]
    d["cx"] = [{"s": str(c), "req": c.req.name.lower(), "ek": c.exprKind.name.lower()} for c in m.mixedConstraints]
    d["cin"] = (d["cb"] == [str(c.constraint) for c in m.booleanConstraints]
                and d["cn"] == [str(c.constraint) for c in m.nonBooleanConstraints]
                and [c["s"] for c in d["cx"]] == [str(c.constraint) for c in m.mixedConstraints])
    return d


def unordered(d):
    """the order of children and constraints has no meaning"""
    if isinstance(d, dict):
        return {k: v if k == "dfs" else unordered(v) for k, v in d.items()}
    return sorted((unordered(x) for x in d), key=repr) if isinstance(d, list) else d


def build(w, o):
    b = V.feature_model_builder.FeatureModelBuilder()
    for x in o["decls"]:
        k = x["d"]
        if k == "feature":
            if x["k"] != "bin" or x.get("out") or x["locs"]:
                raise Bad("feature")
            b.make_binary_feature(x["n"], x.get("opt", False))
        elif k == "edge":
            b.add_an_edge(x["p"], x["c"])
        elif k == "rel":
            b.emplace_relationship(x["n"], REL[x["kind"]])
        elif k == "root":
            b.make_root(x["n"])
        elif k == "name":
            b.set_vm_name(x["v"])
        elif k == "commit":
            b.set_commit(x["v"])
        elif k == "path":
            b.set_path(x["v"])
        elif k == "constraint" and x["ck"] in "bn":
            c = mk_con(x["a"])
            (b.add_boolean_constraint if x["ck"] == "b" else b.add_non_boolean_constraint)(c)
            del c
        else:
            raise Bad("decl " + k)
    m = b.build_feature_model()
    if m is None:
        return {"res": "NULL", "par": ["-"] * len(o["decls"])}
    w[o["m"]] = Model(m)
    return {"par": ["-"] * len(o["decls"])}


def values(o):
    if "list" in o:
        return [int(v) for v in o["list"]]
    lo, hi = (int(v) for v in o["range"])
    return (lo, hi)


def helper(w, o):
    M = w[o["m"]]
    m, e = M.m, o["e"]
    if e == "addFeature":
        locs = [mk_loc(l) for l in o["locs"]]
        if o.get("out") or o.get("step"):
            raise Bad("feature")
        args = [M.get(o["p"]), o["n"]] + ([] if o["k"] == "bin" else [values(o)]) + [o.get("opt", False)]
        f = {"bin": m.add_binary_feature, "num": m.add_numeric_feature}[o["k"]]
        f(*(args + [locs])) if locs else f(*args)
    elif e == "removeFeature":
        x = M.get(o["n"])
        m.remove_feature(x, recursive=True) if o["rec"] else m.remove_feature(x)
    elif e == "setCommit":
        m.commit = o["v"]
    elif e == "addLoc":
        M.get(o["n"]).addLocation(mk_loc(o["loc"]))
    elif e == "removeLoc":
        M.get(o["n"]).removeLocation(mk_loc(o["loc"]))
    else:
        raise Bad("helper " + e)
    M.refresh()
    return {}


def update_loc(w, o):
    r = w[o["m"]].get(o["n"]).updateLocation(mk_loc(o["loc"]), mk_loc(o["new"]))
    return {"res": {True: "TRUE", False: "FALSE"}.get(r, "?")}


def merge(w, o):
    a, b = w[o["m"]].m, w[o["m2"]].m
    r = a.merge_with(b, strict=o["strict"]) if not o["strict"] else a.merge_with(b)
    if r is None:
        return {"res": "NULL"}
    w[o["to"]] = Model(r)
    return {}


def order(w, o):
    m = w[o["m"]].m
    fs = list(m)
    n = lambda x: x.name.str()
    return {"lt": {n(x): [n(y) for y in fs if x < y] for x in fs},
            "gt": {n(x): [n(y) for y in fs if x > y] for x in fs},
            "eq": {n(x): [n(y) for y in fs if x == y] for x in fs}}


def xmlread(w, o):
    p = scratch("read.xml")
    with open(p, "wb") as f:
        f.write(o["text"].encode())
    ok = FM.verifyFeatureModel(p)
    m = FM.loadFeatureModel(p)
    if m is None:
        return {"res": "NULL", "verify": ok, "file": True}
    if o.get("to") != "nowhere":
        w[o["m"]] = Model(m)
    return {"res": "OK", "verify": ok, "file": True}


def xmlsave(w, o):
    wr = V.fm_writer.FeatureModelXmlWriter(w[o["m"]].m)
    t = wr.get_feature_model_as_string()
    if not t:
        return {"res": "NULL"}
    p = scratch("save.xml")
    r = wr.write_feature_model_to_file(p)
    q = scratch("text.xml")
    with open(q, "wb") as f:
        f.write(t.encode())
    nofile = wr.write_feature_model_to_file(scratch("no/such/dir/x.xml")) < 0
    ver = FM.verifyFeatureModel(p) and FM.verifyFeatureModel(q)
    m, m2 = FM.loadFeatureModel(p), FM.loadFeatureModel(q)
    if m is None or m2 is None:
        return {"res": "UNREADABLE", "text": t}
    ok = r >= 0 and unordered(dump(Model(m))) == unordered(dump(Model(m2)))
    w[o["to"]] = Model(m)
    again = V.fm_writer.FeatureModelXmlWriter(m).get_feature_model_as_string()
    return {"res": "OK", "verify": ver, "same": bool(again), "file": ok, "nofile": nofile}


def pyloc(w, o):
    x, y = mk_loc(o["x"]), mk_loc(o["y"])
    r = {"before": show_loc(x), "eq": x == y, "none": (x == None) or (x.start == None and "s" in o["x"])}  # noqa: E711
    keep = mk_loc(o["x"])
    x.path = o["y"]["path"]
    x.category = CAT[o["y"].get("cat", "n")]
    for k, p in (("s", x.start), ("e", x.end)):
        if p is not None:
            p.line_number = o["y"][k][0]
            p.column_offset = o["y"][k][1]
            if p != (x.start if k == "s" else x.end):
                r["before"] = "?copied"
    r["after"] = show_loc(x)
    r["eqafter"] = x == y and show_loc(keep) == r["before"]
    return r


def loc_eq(w, o):
    x, y = mk_loc(o["x"]), mk_loc(o["y"])
    return {"eq": x == y, "ne": x != y}


def destroy(w, o):
    del w[o["m"]]
    return {}


OP = {"build": build, "helper": helper, "updateLoc": update_loc, "merge": merge, "order": order, "xmlread": xmlread,
      "xmlsave": xmlsave, "cbuild": cbuild, "pyloc": pyloc, "locEq": loc_eq, "destroy": destroy,
      "show": lambda w, o: {}}


def main():
    lines = open(sys.argv[1]).read().splitlines()
    timeout = int(sys.argv[3]) if len(sys.argv) > 3 else 20
    out = os.open(sys.argv[2], os.O_WRONLY | os.O_CREAT | os.O_TRUNC | os.O_APPEND, 0o644)
    mark = os.open(scratch("mark"), os.O_RDWR | os.O_CREAT, 0o600)

    def emit(e):
        os.write(out, (json.dumps(e) + "\n").encode())

    nxt, crashes = 0, 0
    while nxt < len(lines):
        pid = os.fork()
        if pid == 0:
            try:
                for s in range(nxt, len(lines)):
                    signal.alarm(timeout)
                    w = {}
                    i = 0
                    for i, o in enumerate(json.loads(lines[s])["ops"]):
                        os.pwrite(mark, b"%12d%12d" % (s, i), 0)
                        try:
                            r = OP[o["op"]](w, o)
                            threw = False
                        except Bad as e:
                            print("BADSCRIPT", e)
                            sys.stdout.flush()
                            os._exit(77)
                        except Exception as e:  # noqa: BLE001
                            r, threw = {"res": "EXCEPTION", "what": repr(e)[:500]}, True
                        r.setdefault("res", "OK")
                        if not threw and o.get("dump", True):
                            try:
                                r["st"] = {k: dump(m) for k, m in w.items()}
                            except Exception as e:  # noqa: BLE001
                                r, threw = {"res": "EXCEPTION", "what": repr(e)[:500]}, True
                        r["s"], r["i"] = s, i
                        emit(r)
                        if threw:
                            break
                    os.pwrite(mark, b"%12d%12d" % (s, i + 1), 0)
                    w.clear()
                    del w
                    os.pwrite(mark, b"%12d%12d" % (s + 1, 0), 0)
            except BaseException as e:  # noqa: BLE001
                print("BADSCRIPT driver", repr(e))
                sys.stdout.flush()
                os._exit(78)
            sys.stdout.flush()
            os._exit(0)
        _, st = os.waitpid(pid, 0)
        if os.WIFEXITED(st) and os.WEXITSTATUS(st) == 0:
            break
        if os.WIFEXITED(st) and os.WEXITSTATUS(st) in (77, 78):
            return 3
        m = os.pread(mark, 24, 0)
        s, i = (int(m[:12]), int(m[12:])) if len(m) == 24 else (nxt, 0)
        how = "signal %d" % os.WTERMSIG(st) if os.WIFSIGNALED(st) else "exit %d" % os.WEXITSTATUS(st)
        emit({"s": s, "i": i, "res": "CRASH", "how": how})
        nxt = s + 1
        crashes += 100 if how == "signal 14" else 1
        if crashes > 300:
            break
    return 0


sys.exit(main())
