"""P15: unbounded proof of the per frame laws of the mixing and mapping nodes (src/dsp/node_*.rs)."""
import os, re
from extract import run_template, Lost, blank

NODES = ["Amp", "Mix3", "Mux9", "SMap", "Map", "Out", "Inp", "Comb", "AllP", "Delay", "FbWr", "FbRd", "Ad", "TsLFO"]


def accessors(repo, nodes):
    """The accessor modules that node_list! generates, from the current table in src/dsp/mod.rs.
    `d_id` is the identity, every other denormalization an uninterpreted function."""
    s = blank(open(os.path.join(repo, "src/dsp/mod.rs")).read())
    m = re.search(r"macro_rules!\s*node_list", s)
    if not m:
        raise Lost("no node_list!")
    s = s[m.start():]
    mods = {k: "" for k in ("inp", "denorm", "denorm_v", "inp_dir", "at", "out", "out_idx")}
    ident = re.search(r"macro_rules!\s*d_id\s*\{\s*\(\s*\$x\s*:\s*expr\s*\)\s*=>\s*\{\s*\$x\s*\}\s*;?\s*\}",
                      blank(open(os.path.join(repo, "src/dsp/mod.rs")).read()))
    for n in nodes:
        m = re.search(r"\b\w+\s*=>\s*%s\b([^=]*?)(?=,\s*\w+\s*=>|;)" % n, s)
        if not m:
            raise Lost("no node %s in node_list!" % n)
        t = m.group(1)
        ins = re.findall(r"\(\s*(\d+)\s+(\w+)\s+(\w+)\s+(\w+)\b", t)
        ats = re.findall(r"\{\s*(\d+)\s+(\d+)\s+(\w+)\b", t)
        outs = re.findall(r"\[\s*(\d+)\s+(\w+)\s*\]", t)
        if not ins:
            raise Lost("node %s has no inputs" % n)
        b = {k: "use super::super::*;\n" for k in mods}
        for i, p, nf, df in ins:
            b["inp"] += "#[verifier::external_body] pub fn %s(inputs: &[ProcBuf]) -> (r: &ProcBuf) requires inputs@.len() > %s ensures *r == inputs@[%s] { unimplemented!() }\n" % (p, i, i)
            if df == "d_id" and ident:
                b["denorm_v"] += "pub open spec fn %s_s(x: f32) -> f32 { x }\n" % p
            else:
                b["denorm_v"] += "pub uninterp spec fn %s_s(x: f32) -> f32;\n" % p
            b["denorm_v"] += "#[verifier::external_body] pub fn %s(x: f32) -> (r: f32) ensures r == %s_s(x) { unimplemented!() }\n" % (p, p)
            b["denorm"] += "#[verifier::external_body] pub fn %s(buf: &ProcBuf, frame: usize) -> (r: f32) requires frame < 128 ensures r == super::super::denorm_v::%s::%s_s(buf@[frame as int]) { unimplemented!() }\n" % (p, n, p)
            b["inp_dir"] += "#[verifier::external_body] pub fn %s(buf: &ProcBuf, frame: usize) -> (r: f32) requires frame < 128 ensures r == buf@[frame as int] { unimplemented!() }\n" % p
        for _, i, p in ats:
            b["at"] += "#[verifier::external_body] pub fn %s(atoms: &[SAtom]) -> (r: &SAtom) requires atoms@.len() > %s ensures *r == atoms@[%s] { unimplemented!() }\n" % (p, i, i)
        for i, p in outs:
            b["out"] += ("#[verifier::external_body] pub fn %s(outputs: &mut [ProcBuf]) -> (r: &mut ProcBuf) requires old(outputs)@.len() > %s\n"
                         "  ensures *r == old(outputs)@[%s], final(outputs)@ == old(outputs)@.update(%s, *final(r)) { unimplemented!() }\n") % (p, i, i, i)
            b["out_idx"] += "#[verifier::external_body] pub fn %s() -> (r: usize) ensures r == %s { unimplemented!() }\n" % (p, i)
        for k in mods:
            mods[k] += "#[allow(non_snake_case)] pub mod %s { %s }\n" % (n, b[k])
    return "\n".join("pub mod %s { %s }" % (k, v) for k, v in mods.items())


def prelude(repo, nodes=NODES):
    t = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "nodes_prelude.vrs")).read()
    return t.replace("⟦ACCESSORS⟧", accessors(repo, nodes))


RULES = [
    (r"\b(\w+)\s*\*=\s*([^;]+);", r"\1 = \1 * (\2);", "x *= e is written x = x * (e)"),
    (r"use\s+crate::dsp::\{[^}]*\}\s*;", "", "`use` inside of a function"),
    (r"&mut\s+dyn\s+NodeAudioContext", "&mut NodeCtx", "the audio driver (a trait object) is an opaque type"),
    (r"ctx_vals\[(\d+)\]\s*\.set\(", r"ctx_vals.led(\1, ", "LED values (atomics) go to an opaque function"),
    (r"std::f32::EPSILON", "F32_EPSILON", "std::f32::EPSILON is a constant"),
    (r"\bfor\s+(\w+)\s+in\s+(\w+)\.\.ctx\.nframes\(\)\s*\{", r"let frames_end = ctx.nframes(); for \1 in \2..frames_end {", "the end of the frame loop is evaluated in a let in front of the loop"),
    (r"use\s+crate::dsp::\w+\s*;", "", "`use` inside of a function"),
    (r"&mut\s+\*self\.(\w+)\s*;", r"&mut self.\1;", "Box<T> is T"),
    (r"(?<=[\w)])\s+as\s+f64\b", ".to_f64()", "casts from f32 to f64 are an uninterpreted function"),
    (r"\)\s+as\s+f32\b", ").to_f32()", "casts from f64 to f32 are an uninterpreted function"),
    (r"\.floor\(\)\s+as\s+u8\b", ".floor().to_u8()", "casts from f32 to u8 are an uninterpreted function"),
    (r"\bmax\s+as\s+f32\b", "max.to_f32()", "casts from u8 to f32 are an uninterpreted function"),
    (r"\boutputs\s*\.\s*split_at_mut\s*\(", "split_bufs(outputs, ", "slice::split_at_mut has an assumed contract"),
]
DROPPED = ["comments, attributes and derives, visibility", "the accessor modules that node_list! generates are written from its current table"]


def run(repo, builddir, tier):
    pre = prelude(repo)
    return [run_template(repo, builddir, n, RULES, DROPPED, extra={"PRELUDE": pre}) for n in ("P15_nodes", "P15_state")]
