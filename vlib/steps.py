"""Step functions and ranges (Steps.tla)."""
from . import lang

PROPS = {
    "C19": {"quick": [("chars", 3, 0), ("forms", 1, 0), ("make", 1, 0), ("rand", 1, 600), ("range", 1, 0)],
            "thorough": [("chars", 4, 0), ("forms", 1, 0), ("make", 1, 0), ("rand", 1, 20000), ("range", 1, 0)]},
}


def expand(op):
    o = lang.expand(op)
    if op["op"] == "stepmk":
        o["ctext"] = "".join(op["c"])
    return o


check, replay = lang.domain(PROPS, "Steps", ["Laws", "SpaceFree"], expand, lang.slim)
