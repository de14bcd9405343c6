"""P11: unbounded proof of the signal monitor (src/monitor.rs)."""
import re
from extract import run_template, Source

RULES = [
    (r"\bwhile\s+let\s+Some\((mut\s+)?(\w+)\)\s*=\s*([^{]+?)\s*\{", r"loop { let Some(\1\2) = \3 else { break; };", "while let is desugared to loop with let-else"),
    (r"\bfor\s+(\w+)\s+in\s+([\w.]+)\.iter_mut\(\)\s*\{", r"for \1_i in 0 .. \2.len() { let \1 = &mut \2[\1_i];", "for x in v.iter_mut() is desugared to a loop over the indices with let x = &mut v[i]"),
    (r"\bstd::f32::INFINITY\b", "f32_inf()", "infinity is a constant"),
    (r"\bstd::f32::NEG_INFINITY\b", "f32_neg_inf()", "infinity is a constant"),
    (r"\b(\w+(?:\.\w+)*)\.copy_from_slice\(&\s*([\w.]+)\[\.\.\]\)", r"copy_points(&mut \1, points_of(&\2))", "copy_from_slice has an assumed contract (copies all elements, lengths agree)"),
    (r"\b(\w+(?:\.\w+)*)\.copy_from_slice\((min_max_slice\.1)\)", r"copy_points(&mut \1, \2)", "copy_from_slice has an assumed contract (copies all elements, lengths agree)"),
    (r"&\s*(self\.procs\[\w+\]\.buf)\[\.\.\]", r"points_of(&\1)", "&a[..] of an array is the slice of all its elements"),
    (r"<T>(?=\()", "", "the source of samples is an opaque object"),
    (r"\bdata\s*:\s*T\b", "data: MonSource", "the source of samples is an opaque object"),
    (r"\bwhere\s+T\s*:\s*MonitorSource\s*,", "", "the source of samples is an opaque object"),
    (r"data\.copy_to\(len,\s*&mut\s+self\.sig_blocks\[(\w+)\s*\.\.\s*\(?\s*(\w+\s*\+\s*\w+)\s*\)?\s*\]\)", r"data.copy_to(len, &mut self.sig_blocks, \1, \2)", "&mut a[x..y] is handed over as array and range"),
]
DROPPED = ["comments, attributes and derives, visibility", "the thread around MonitorProcessor (Monitor::new) and the mutex",
           "ringbuf's Producer and Consumer are queues with ghost histories (assumed contract)"]


def const(s, name):
    m = re.search(r"\bconst\s+%s\s*:\s*usize\s*=([^;]*);" % name, s)
    return "pub const %s: usize = %s;" % (name, " ".join(m.group(1).split()))


def run(repo, builddir, tier):
    s = Source(repo, "src/monitor.rs").s
    c = "\n".join(const(s, n) for n in ("MON_SIG_CNT", "IMAGINARY_MAX_SAMPLE_RATE", "MONITOR_MINMAX_SAMPLES", "MONITOR_MINMAX_LEN_S", "MONITOR_INPUT_LEN_PER_SAMPLE"))
    b = re.search(r"\bMAX_BLOCK_SIZE\s*:\s*usize\s*=\s*(\d+)\s*;", Source(repo, "src/dsp/mod.rs").s).group(1)
    return [run_template(repo, builddir, "P11_monitor", RULES, DROPPED, extra={"CONSTS": c + "\npub const MAX_BLOCK_SIZE: usize = %s;" % b})]
