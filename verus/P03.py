"""P03: unbounded proof of the program of a graph (src/nodes/node_prog.rs)."""
from extract import run_template

MEMO = "ProcBuf is a pointer; the memory is a tracked ghost argument (assumed contracts of ProcBuf::read, write, fill)"
RULES = [
    (r"\bfor\s*\(\s*(\w+)\s*,\s*(\w+)\s*\)\s*in\s+([\w.]+)\.iter_mut\(\)\s*\.\s*zip\(\s*([\w.]+)\.iter_mut\(\)\s*\)\s*\{",
     r"let \1_n = umin(\3.len(), \4.len()); for \1_i in 0 .. \1_n { let \1 = &mut \3[\1_i]; let \2 = &mut \4[\1_i];", "for (x, y) in a.iter_mut().zip(b.iter_mut()) is desugared to a loop over the indices both have"),
    (r"\bfor\s+(\w+)\s+in\s+([\w.]+)\.iter_mut\(\)\s*\{", r"let \1_n = \2.len(); for \1_i in 0 .. \1_n { let \1 = &mut \2[\1_i];", "for x in v.iter_mut() is desugared to a loop over the indices with let x = &mut v[i]"),
    (r"\bfor\s+(\w+)\s+in\s+([\w.]+)\.iter\(\)\s*\{", r"let \1_n = \2.len(); for \1_i in 0 .. \1_n { let \1 = &\2[\1_i];", "for x in v.iter() is desugared to a loop over the indices with let x = &v[i]"),
    (r"\b(\w+)\[([^\]]+?)\.\.([^\]]+?)\]\s*\.copy_from_slice\(\s*&([\w.]+)\[([^\]]+?)\.\.([^\]]+?)\]\s*\)", r"copy_range(\1, \2, \3, &\4, \5, \6)", "copy_from_slice of a part of a slice has an assumed contract"),
    (r"std::mem::swap\(", "swap_bufs(", "std::mem::swap exchanges the values (assumed contract)"),
]
DROPPED = ["comments, attributes and derives, visibility", "the values of nodes, atoms and the triple buffer are opaque", "the contents of buffers outside of ModOp::process and initialize_input_buffers"]


def run(repo, builddir, tier):
    return [run_template(repo, builddir, "P03_prog", RULES, DROPPED)]
