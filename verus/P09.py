"""P09: unbounded proof of the saved form of patterns and cells."""
from extract import run_template, ENUMERATE, AS_F32

RULES = [ENUMERATE] + AS_F32 + [(r"\bNodeId\b", "u64", "NodeId is an opaque value (u64)")]
DROPPED = ["comments, attributes and derives, visibility",
           "floating point operations are uninterpreted functions (total, deterministic)"]


def run(repo, builddir, tier):
    return [run_template(repo, builddir, "P09_patch", RULES, DROPPED)]
