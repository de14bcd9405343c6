"""P04: unbounded proof of the paths in the grid (src/cell_dir.rs)."""
from extract import run_template

RULES = [
    (r"\(b\.0 as f32 - (\w+)\.0 as f32\)\.powf\(2\.0\)\s*\+\s*\(b\.1 as f32 - \1\.1 as f32\)\.powf\(2\.0\)", r"dist2(b, \1)", "the squared distance of two cells has an assumed contract (exact below 2048 columns and rows; bounded: p04_distance_exact, complete)"),
    (r"\b(\w*dist\w*)\s*<\s*(\w+(?:::\w+)?)(?=[\s{])", r"flt(\1, \2)", "f32 < f32 has an assumed contract on exact integers and infinity"),
    (r"\bf32::INFINITY\b", "f32_inf()", "f32::INFINITY is a constant"),
    (r"\bi32::from\((!?\w+)\)", r"(if \1 { 1i32 } else { 0i32 })", "i32::from(bool) is 1 or 0"),
]
DROPPED = ["comments, attributes and derives, visibility"]


def run(repo, builddir, tier):
    return [run_template(repo, builddir, "P04_grid", RULES, DROPPED)]
