"""Written sample sets (Writer.tla)."""
from . import lang

PROPS = {
    "C20": {"quick": [("all", 2, 0), ("odd", 1, 0), ("rand", 8, 1500)],
            "thorough": [("all", 3, 0), ("odd", 1, 0), ("rand", 10, 15000)]},
}


def expand(op):
    o = dict(op)
    o["confs"] = [[{"n": a["n"], "v": "".join(a["v"])} for a in c] for c in o["confs"]]
    return o


def slim(e):
    e.pop("text", None)


check, replay = lang.domain(PROPS, "Writer", ["Laws"], expand, slim)
