"""P01: unbounded proof of the node ordering (src/nodes/node_graph_ordering.rs)."""
from extract import run_template

RULES = [
    (r"\bNodeId::Nop\b", "NOP", "NodeId::Nop becomes a constant"),
    (r"\bVecDeque::with_capacity\b", "VecDeque::<usize>::with_capacity", "type annotation on VecDeque::with_capacity"),
]
DROPPED = ["comments, attributes and derives, visibility",
           "NodeId is abstracted to u64 (any type with equality and a hash that obeys the HashMap key model)"]


def run(repo, builddir, tier):
    return [run_template(repo, builddir, "P01_ordering", RULES, DROPPED)]
