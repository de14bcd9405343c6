"""P06: unbounded proof of the parameter smoothers (src/util.rs, src/nodes/node_exec.rs)."""
from extract import run_template

RULES = [
    (r"\bself\.(\w+)\s*\+=\s*self\.inc\b", r"self.\1 = self.\1 + self.inc", "x += y on f32 is x = x + y"),
    (r"\(self\.count as f32\)", "u2f(self.count)", "usize to f32 is a function of the value"),
    (r"\(\(sr \* SMOOTHING_TIME_MS\) / 1000\.0\)\.ceil\(\) as usize", "ramp_len(sr)", "the length of 10 ms in samples is a function of the sample rate (Kani and bounded: exact)"),
    (r"\bfor\s*\(\s*(\w+)\s*,\s*(\w+)\s*\)\s*in\s+self\.smoothers\.iter_mut\(\)\.filter\(\|s\|\s*!s\.1\.is_done\(\)\)\s*\{",
     r"let sm_n = self.smoothers.len(); let mut sm_i: usize = 0; while sm_i < sm_n { let sm_c = sm_i; sm_i = sm_i + 1; let sm_e = &mut self.smoothers[sm_c]; if sm_e.1.is_done() { continue; } let \1 = &mut sm_e.0; let \2 = &mut sm_e.1;",
     "for (a, b) in v.iter_mut().filter(p) is desugared to a while loop over the indices that skips the others"),
    (r"self\.smoothers\.iter_mut\(\)\.find\(\|s\|\s*s\.1\.is_done\(\)\)", "find_done(&mut self.smoothers)", "iter_mut().find(is_done) has an assumed contract"),
    (r"self\.target_refresh\.retain\(\|r\|\s*r\.0\s*!=\s*input_idx\)", "retain_ne(&mut self.target_refresh, input_idx)", "Vec::retain has an assumed contract"),
    (r"\bwhile\s+let\s+Some\(\((\w+),\s*(\w+)\)\)\s*=\s*([^{]+?)\s*\{", r"loop { let Some((\1, \2)) = \3 else { break; };", "while let is desugared to loop with let-else"),
]
DROPPED = ["comments, attributes and derives, visibility", "fields of NodeExecutor and NodeProg that the functions do not use"]


def run(repo, builddir, tier):
    return [run_template(repo, builddir, "P06_params", RULES, DROPPED)]
