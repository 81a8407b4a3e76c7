"""Configurations (Conf.tla)."""
from . import lang

PROPS = {
    "C17": {"quick": [("vals", 2, 0), ("names", 1, 0), ("hist", 2, 0), ("walk", 12, 300), ("toks", 3, 0),
                      ("mut", 1, 0), ("esc", 2, 0)],
            "thorough": [("vals", 4, 0), ("names", 1, 0), ("hist", 3, 0), ("walk", 30, 4000), ("toks", 4, 0),
                         ("mut", 1, 0), ("esc", 3, 0)]},
}
CH = {"SP": " ", "NL": "\n", "TAB": "\t", "CR": "\r", "NUL": "\0", "QT": '"', "BS": "\\", "C1": "\x01",
      "C31": "\x1f", "BSP": "\b", "FF": "\f", "DEL": "\x7f", "E9": "\u00e9", "EUR": "\u20ac", "EMO": "\U0001f600"}
BACK = {v: k for k, v in CH.items()}


def text(cs):
    return "".join(CH.get(x, x) for x in cs)


def chars(s):
    return [BACK.get(x, x) for x in s]


def expand(op):
    o = dict(op)
    o["steps"] = [{k: (v if k == "k" else text(v)) for k, v in a.items()} for a in o["steps"]]
    return o


def opt(x):
    return {k: (chars(v) if k in ("n", "v", "typed", "text") else v) for k, v in x.items()}


def slim(e):
    for s in e.get("ss", []):
        for k in ("it", "ci", "rp", "get"):
            s[k] = [opt(x) for x in s[k]]
        s["dump"] = chars(s["dump"])


check, replay = lang.domain(PROPS, "Conf", ["Laws"], expand, slim)
