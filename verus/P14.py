"""P14: unbounded proof of the scope display (scope_handle.rs) and of the Scope node (dsp/node_scope.rs)."""
import importlib.util, os, re
from extract import run_template, Source, ENUMERATE, AS_F32

_p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "P15.py")
_s = importlib.util.spec_from_file_location("verus_P15_lib", _p)
P15 = importlib.util.module_from_spec(_s)
_s.loader.exec_module(P15)

CELL = "AtomicFloatPair, AtomicFloat and AtomicBool are shared memory cells; the memory is a tracked ghost argument (assumed contracts of get, set, load, store)"
RULES = [
    (r"\bArc<(ScopeHandle|Self)>", r"\1", "Arc<ScopeHandle> is the handle"),
    (r"\bArc::new\(", "arc_new(", "Arc<ScopeHandle> is the handle"),
    (r"(\w+)\.resize_with\(\s*SCOPE_SAMPLES,\s*\|\|\s*AtomicFloatPair::default\(\)\s*\)", r"\1.resize_pairs(SCOPE_SAMPLES)", CELL),
    (r"\bvec!\[\]", "Vec::<AtomicFloatPair>::new()", "vec![] is Vec::new()"),
    (r",\s*Ordering::Relaxed\s*\)", ")", "memory orderings (one thread at a time, see the assumptions)"),
    (r"\(\s*Ordering::Relaxed\s*\)", "()", "memory orderings"),
    (r"Box<\[\(f32, f32\); 3\]>", "[(f32, f32); 3]", "Box<T> is T"),
    (r"self\.cur_mm\.as_mut\(\)", "&mut self.cur_mm", "Box<T> is T"),
    (r"self\.frame_time\s*([-+])=\s*([^;]+);", r"self.frame_time = self.frame_time \1 (\2);", "x += e and x -= e on f32 are written x = x + (e), x = x - (e)"),
    (r"-99999\.0", "NEG99999", "a negative literal is a constant"),
    (r"-1\.0\b", "NEG1", "a negative literal is a constant"),
    (r"\(([^;(){}]*/[^;(){}]*)\)\s+as\s+usize", r"(\1).to_usize()", "casts from f32 to usize are an uninterpreted function"),
    (r"\bSCOPE_SAMPLES\s+as\s+f32", "SCOPE_SAMPLES.to_f32()", "casts to f32 are uninterpreted functions"),
] 
DROPPED = ["comments, attributes and derives, visibility", "the accessor modules that node_list! generates are written from its current table"]


def run(repo, builddir, tier):
    n = re.search(r"#\[cfg\(not\(kani\)\)\]\s*pub\s+const\s+SCOPE_SAMPLES\s*:\s*usize\s*=\s*(\d+)\s*;|\bSCOPE_SAMPLES\s*:\s*usize\s*=\s*(\d\d+)\s*;", Source(repo, "src/nodes/mod.rs").s)
    n = n.group(1) or n.group(2)
    pre = P15.prelude(repo, ["Scope"])
    return [run_template(repo, builddir, "P14_scope", RULES + P15.RULES + [ENUMERATE], DROPPED, extra={"PRELUDE": pre, "SAMPLES": n})]
