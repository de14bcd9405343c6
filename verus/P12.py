"""P12: unbounded proof of the display filters (visual_sampling_filter.rs, feedback_filter.rs)."""
import re
from extract import run_template, Source

RULES = [
    (r"\bHashMap<", "Table<", "HashMap is a map (assumed contract of entry/or_insert_with)"),
    (r"\bHashMap::new\(\)", "Table::new()", "HashMap is a map (assumed contract of entry/or_insert_with)"),
    (r"\.entry\(((?:[^()]|\([^()]*\))*)\)\s*\.or_insert_with\(\s*(?:\|\|\s*VisualSamplingFilter::new\(\)|VisualSamplingFilter::new)\s*\)", r".get_or_new(\1)", "HashMap is a map (assumed contract of entry/or_insert_with)"),
    (r"\*v\s*>=\s*0\.0\b", "fge(*v, 0.0)", "comparison of f32 with >= is a function of its operands"),
    (r"\(\*v\)\.abs\(\)", "(*v).abs()", ""),
]
DROPPED = ["comments, attributes and derives, visibility", "NodeId is abstracted to u64"]


def run(repo, builddir, tier):
    s = Source(repo, "src/nodes/visual_sampling_filter.rs").s
    n = re.search(r"\bVALUE_SAMPLING_FILTER_SIZE\s*:\s*usize\s*=\s*(\d+)\s*;", s).group(1)
    return [run_template(repo, builddir, "P12_filter", [r for r in RULES if r[2]], DROPPED, extra={"SIZE": n})]
