"""Results of operations (Result.tla)."""
from . import lang

PROPS = {
    "C28": {"quick": [("each", 3, 0), ("hist", 3, 0), ("rand", 14, 200)],
            "thorough": [("each", 4, 0), ("hist", 4, 0), ("rand", 30, 5000)]},
}

check, replay = lang.domain(PROPS, "Result", ["Laws"], dict, lambda e: None)
