"""Reads the text a feature, or a whole model, describes itself with."""


def feature(text):
    r = {"name": "", "opt": False, "locs": "", "parent": "", "vals": "", "children": [], "lines": 0}
    lo = None
    for line in text.split("\n"):
        line = line.strip()
        if line.endswith(","):
            line = line[:-1]
        k, s, v = line.partition(": ")
        if not s:
            continue
        r["lines"] += 1
        if k == "name":
            r["name"] = v[1:-1] if v[:1] == '"' and v[-1:] == '"' else v
        elif k == "optional":
            r["opt"] = v == "true"
        elif k == "locations":
            r["locs"] = v
        elif k == "parent":
            r["parent"] = v
        elif k == "children":
            r["children"] = [x for x in v.strip("[]").split(",") if x]
        elif k == "minValue":
            lo = v
        elif k == "maxValue":
            r["vals"] = "r:%s:%s" % (lo, v)
        elif k == "values":
            r["vals"] = "l" + "".join(":" + x for x in v.strip("[]").split(",") if x)
    return r


def model(text):
    """blocks between braces"""
    out, cur = [], None
    for line in text.split("\n"):
        if line.strip() == "{":
            cur = []
        elif line.strip() == "}" and cur is not None:
            out.append(feature("\n".join(cur)))
            cur = None
        elif cur is not None:
            cur.append(line)
    return out
