"""Concrete values behind the symbolic attribute and location keys of the
specification: what the driver passes to the library, and how the library's
accessors print it."""

LOCS = {
    "L1": {"path": "src/a.cpp", "s": [1, 2], "e": [3, 4]},
    "L2": {"path": "src/a.cpp", "s": [1, 2], "e": [3, 5]},
    "L3": {"path": "src/b.cpp", "s": [10, 1], "e": [12, 80], "cat": "i", "mo": "N::C::m"},
    "L4": {"path": "src/a.cpp", "s": [1, 2], "e": [3, 4], "cat": "i"},
    "L5": {"path": "src/a.cpp", "s": [1, 2], "e": [3, 4], "mo": "C::m"},
    "L6": {"path": "src/a.cpp", "s": [1, 2], "e": [3, 4], "rev": ["c1"]},
    "L7": {"path": "src/a.cpp", "s": [1, 2], "e": [3, 4], "rev": ["c1", "c2"]},
    "L8": {"path": "src/a.cpp"},
    "L9": {"path": "src/a.cpp", "s": [1, 2]},
    "L10": {"path": "src/a.cpp", "e": [3, 4]},
    "L11": {"path": "src/a.cpp", "s": [2, 2], "e": [3, 4]},
    "L12": {"path": "src/a.cpp", "s": [1, 3], "e": [3, 4]},
    "L13": {"path": "src/a.cpp", "s": [1, 2], "e": [4, 4]},
    "L14": {"path": "src/a.cpp", "s": [1, 2], "e": [3, 4], "mo": "D::m"},
    "L15": {"path": "src/a.cpp", "s": [1, 2], "e": [3, 4], "mo": "C::n"},
    "L16": {"path": "src/a.cpp", "s": [1, 2], "e": [3, 4], "rev": ["c2"]},
    "L17": {"path": "src/a.cpp", "s": [1, 2], "e": [3, 4], "rev": ["c1", "c3"]},
    "L18": {"path": "src/c.cpp", "s": [1, 2], "e": [3, 4]},
    "L19": {"path": "my dir/a&<b>.cpp", "s": [1, 0], "e": [4000000000, 7], "rev": ["c1", "c2"], "mo": "N::C::m",
            "cat": "i"},
    "L21": {"path": "big.cpp", "s": [4000000000, 0], "e": [4000000000, 4294967295]},
    "L22": {"path": "src/a.cpp", "s": [1, 2], "e": [3, 4], "rev": ["c1", "c1"]},
    "L23": {"path": "/abs/\u00e9 \"x\".cpp", "s": [5, 5], "e": [5, 5], "rev": ["HEAD~1", "v1.0"], "mo": "a_1::b"},
    "L20": {"path": "", "s": [0, 0], "e": [0, 0]},
}


def loc_text(l):
    def pos(k):
        return "%d,%d" % tuple(l[k]) if k in l else ""
    rev = l.get("rev")
    return "|".join([l["path"], pos("s"), pos("e"), l.get("cat", "n"), l.get("mo", ""),
                     "" if not rev else rev[0] + ".." + (rev[1] if len(rev) > 1 else "-")])


ATTRS = {
    "b0": {"k": "bin"},
    "b1": {"k": "bin", "opt": True, "out": "-b1", "locs": ["L2"]},
    "b2": {"k": "bin", "opt": False, "out": "--two", "locs": ["L1", "L3"]},
    "b3": {"k": "bin", "opt": True},
    "n0": {"k": "num", "range": [1, 5], "step": {"o": "+", "c": 2}},
    "n1": {"k": "num", "opt": True, "out": "--n=", "list": [1, 2, 4], "locs": ["L2"]},
    "n2": {"k": "num", "range": [-3, 17]},
    "n3": {"k": "num", "list": [4, 2], "step": {"o": "*", "c": 2, "left": True}},
    "n4": {"k": "num", "range": [1, 6], "step": {"o": "+", "c": 2}},
    "n5": {"k": "num", "range": [0, 5]},
    "n6": {"k": "num", "range": [1, 5]},
    "n7": {"k": "num", "list": [1, 5]},
    "n8": {"k": "num", "list": [1, 2, 5]},
    "n9": {"k": "num", "list": [1, 2, 4]},
    "n10": {"k": "num", "range": ["-9223372036854775808", "3000000000"]},
    "n11": {"k": "num", "list": ["9223372036854775807", "-3000000001"], "opt": True},
    "n12": {"k": "num", "range": ["1", "4294967301"]},
    "n13": {"k": "num", "list": [8, 2, 32], "opt": True, "out": "-w ", "step": {"o": "*", "c": 4}, "locs": ["L4", "L2"]},
    "u0": {"k": "unk"},
    "r0": {"k": "root"},
    # made by a script
    "p1": {"k": "bin", "opt": True, "locs": ["L2"]},
    "p2": {"k": "bin", "locs": ["L1", "L4", "L9"]},
    "p3": {"k": "num", "list": [1, 2, 4], "opt": True},
    "p4": {"k": "num", "range": [1, 5]},
    "p5": {"k": "num", "list": ["9223372036854775807", "-9223372036854775808", "0"], "locs": ["L8", "L10"]},
    "p6": {"k": "num", "range": ["-3000000000", "17"], "opt": True, "locs": ["L12"]},
    "p7": {"k": "num", "list": [5]},
    # read from and written to documents
    "rl": {"k": "root", "locs": ["L3", "L1", "L19"]},
    "x0": {"k": "bin", "out": "a & b <c> \"q\" 'p'", "locs": ["L19", "L7", "L3"]},
    "x1": {"k": "bin", "opt": True, "out": "-t ", "locs": ["L20", "L6", "L6"]},
    "x2": {"k": "num", "range": ["-9223372036854775808", "9223372036854775807"], "out": "--r"},
    "x3": {"k": "num", "list": ["3000000000", "-5", "0", "9223372036854775807"], "opt": True},
    "x4": {"k": "num", "list": ["7"], "step": {"o": "^", "c": 2}},
    "x5": {"k": "num", "range": ["0", "64"], "step": {"o": "^", "c": 2, "left": True}, "locs": ["L4", "L22"]},
    "x6": {"k": "num", "range": ["1", "9"], "step": {"o": "*", "c": 0.5}, "opt": True, "out": "-q="},
    "x7": {"k": "num", "list": ["-1", "-2"], "step": {"o": "+", "c": 0.125}, "locs": ["L23", "L5"]},
    "x8": {"k": "num", "range": ["-7", "-7"], "step": {"o": "*", "c": 123456789, "left": True}},
}


def step_text(s):
    """what the function yields for 2, 3 and 5"""
    c = s["c"]
    f = {"+": lambda x: x + c, "*": lambda x: x * c,
         "^": (lambda x: c ** x) if s.get("left") else (lambda x: x ** c)}[s["o"]]
    return "%.6g %.6g %.6g" % (f(2), f(3), f(5))


def loc_disp(l):
    """as the library prints it"""
    t = l["path"]
    if "s" in l:
        t += ":%d:%d" % tuple(l["s"])
    if "e" in l:
        t += "\u2013%d:%d" % tuple(l["e"])
    return t + (" MemberOffset: " + l["mo"] if "mo" in l else "")


# (from, to, component): the second is the first with one component changed
SETTABLE = [(x, y, d[0]) for x in LOCS for y in LOCS if x != y
            for d in [[k for k in ("path", "s", "e", "cat", "mo", "rev")
                       if LOCS[x].get(k, "n" if k == "cat" else "") != LOCS[y].get(k, "n" if k == "cat" else "")]]
            if len(d) == 1 and (d[0] in ("path", "cat") or (d[0] in ("s", "e") and d[0] in LOCS[x] and d[0] in LOCS[y]))]


def attr_spec(a):
    if "list" in a:
        vals = "l" + "".join(":%d" % int(v) for v in a["list"])
    elif "range" in a:
        vals = "r:%d:%d" % tuple(int(v) for v in a["range"])
    else:
        vals = ""
    return {"k": a["k"], "opt": a.get("opt", False), "out": a.get("out", ""), "vals": vals,
            "step": step_text(a["step"]) if "step" in a else "",
            "locs": [loc_text(LOCS[x]) for x in a.get("locs", [])]}


def attr_driver(a):
    d = {k: v for k, v in a.items() if k != "locs"}
    d["locs"] = [LOCS[x] for x in a.get("locs", [])]
    return d


SXFM_NAMES = {"group_%d" % k for k in range(1, 13)} | {
    "ab", "x1", "H_a", "opt", "man", "alt", "deep", "last", "e1", "f_2", "name", "xX", "j", "k", "Top"}
NAMES = ["root", "base", "r0", "r1", "r2", "s", "x", "y", "z", "a", "b", "c", "d", "e", "f", "g", "H", "i",
         "Ab", "aC", "abd", "B1", "a0", "x_1", "a<b&c", "é ü", "two words", "p.q"]


def tables(extra=()):
    names = sorted(set(NAMES) | SXFM_NAMES | set(extra), key=lambda s: (s.lower(), s))
    return {"attr": {k: dict(attr_spec(v), x=k[0] == "x", py=k[0] == "p") for k, v in ATTRS.items()},
            "placed": {loc_text(v): "s" in v and "e" in v for v in LOCS.values()},
            "seen": {loc_text(v): "|".join(loc_text(v).split("|")[:4] + [loc_disp(v)]) for v in LOCS.values()},
            "plain": {k: "mo" not in v and "rev" not in v for k, v in LOCS.items()},
            "shape": {k: ("s" if "s" in v else "") + ("e" if "e" in v else "") for k, v in LOCS.items()},
            "disp": {loc_text(v): loc_disp(v) for v in LOCS.values()},
            "settable": SETTABLE,
            "loc": {k: loc_text(v) for k, v in LOCS.items()},
            "rank": {n: i + 1 for i, n in enumerate(names)}}


def expand(op):
    """operation of the specification -> operation of the driver"""
    o = dict(op)
    if "at" in o:
        o.update(attr_driver(ATTRS[o.pop("at")]))
    for k in ("loc", "new"):
        if isinstance(o.get(k), str) and o[k] in LOCS:
            o[k] = LOCS[o[k]]
    if o.get("op") in ("locEq", "pyloc"):
        o["x"], o["y"] = LOCS[o["x"]], LOCS[o["y"]]
    if o.get("p") == "":
        o.pop("p")
    if o.get("pg"):
        o["p"] = "#" + o["p"]
    if "fs" in o:
        o["fs"] = [expand(x) for x in o["fs"]]
    if "decls" in o:
        o["decls"] = [expand(x) for x in o["decls"]]
    if "doc" in o:
        from . import xmlio
        if o["doc"]["flaw"] == "unspecified":
            o["to"] = "nowhere"  # what such a text means is not judged
        render = xmlio.sxfm if o["op"] == "sxfmread" else xmlio.render
        o["text"] = render(o.pop("doc"), o.pop("deco", 0))
    if "toks" in o:
        o["text"] = "".join(o["toks"])
    return o
