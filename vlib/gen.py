"""Runs of config-generator (Gen.tla)."""
from . import lang

PROPS = {
    "C27": {"quick": [("small", 2, 0), ("ways", 1, 0), ("table", 1, 0), ("rand", 5, 300)],
            "thorough": [("small", 2, 0), ("ways", 1, 0), ("table", 1, 0), ("rand", 4, 1500), ("rand", 6, 2000)]},
}


def expand(op):
    o = dict(op)
    if "csv" in o:
        o["csv"] = {"cols": o["csv"]["cols"], "rows": [[str(v) for v in r] for r in o["csv"]["rows"]]}
    return o


def slim(e):
    e.pop("err", None)


check, replay = lang.domain(PROPS, "Gen", ["Laws"], expand, slim, single=8)
