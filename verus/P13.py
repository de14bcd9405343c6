"""P13: unbounded proof of the feedback delay line (shared_feedback.rs, global.rs)."""
import re
from extract import run_template, Source

CELL = "Arc<Vec<AtomicFloat>> is a handle of shared memory; the memory is a tracked ghost argument (assumed contract of AtomicFloat::get/set)"
RULES = [
    (r"\bArc<Vec<AtomicFloat>>", "SharedBuf", CELL),
    (r"\bvec!\[\]", "Floats::new()", CELL),
    (r"(\w+)\.resize_with\(\s*([^,]+),\s*\|\|\s*AtomicFloat::new\(0\.0\)\s*\)", r"\1.resize_zeros(\2)", CELL),
    (r"\bArc::new\((\w+)\)", r"SharedBuf::share(\1)", CELL),
    (r"self\.buffer\[([^\]]+)\]\.set\(([^()]*)\)", r"self.buffer.set_at(\1, \2)", CELL),
    (r"self\.buffer\[([^\]]+)\]\.get\(\)", r"self.buffer.get_at(\1)", CELL),
    (r"\(\(sample_rate\s*\*\s*FB_DELAY_LENGTH_MS\)\s*/\s*1000\.0\)\s*as\s+usize", "delay_samples(sample_rate)", "the length of 3.14 ms in samples is a function of the sample rate"),
    (r"\.max\(MAX_BLOCK_SIZE\)", ".max_of(MAX_BLOCK_SIZE)", "Ord::max on usize has an assumed contract"),
    (r"\.get_mut\(&(\w+)\)\s*\.unwrap\(\)", r".existing(&\1)", "HashMap is a map (assumed contracts of contains_key, insert, get_mut)"),
]
DROPPED = ["comments, attributes and derives, visibility", "fields of NodeGlobalData that are not used here"]


def run(repo, builddir, tier):
    b = re.search(r"\bMAX_BLOCK_SIZE\s*:\s*usize\s*=\s*(\d+)\s*;", Source(repo, "src/dsp/mod.rs").s).group(1)
    return [run_template(repo, builddir, "P13_feedback", RULES, DROPPED, extra={"BLOCK": b})]
