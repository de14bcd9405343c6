"""P05: unbounded proof of the cells and connections of the matrix (src/matrix.rs, src/cell_dir.rs)."""
from extract import run_template

RULES = [
    (r"\bNodeId::Nop\b", "NOP", "NodeId::Nop becomes a constant"),
    (r"\bNodeConfigurator\b", "Conf", "the node configurator is an opaque field"),
    (r"\bHashMap<String,\s*SAtom>", "Props", "the properties are an opaque field"),
    (r"\bOption<Arc<dyn MatrixObserver>>", "Obs", "the observer is an opaque field"),
    (r"\bHashSet<ParamId>", "ParamSet", "HashSet<ParamId> is a set with assumed contracts of insert, contains and clear"),
    (r"\bstd::collections::HashMap::new\(\)", "EdgeMap::new()", "the HashMap of check() has assumed contracts of new, get and insert"),
    (r"\bas_edge\(\) as u8", "as_edge()", ""),
    (r"\bi32::from\((!?\w+)\)", r"(if \1 { 1i32 } else { 0i32 })", "i32::from(bool) is 1 or 0"),
    (r"\*self as u8\b", "edge_of(*self)", "the discriminant of CellDir is its position in the declaration (Kani: as_edge)"),
    (r"([\w.]+\.get\([^()]*\))\.map\(\|(\w+)\|\s*\2\.is_empty\(\)\)\.unwrap_or\(false\)", r"(match \1 { Some(\2) => \2.is_empty(), None => false })", "x.map(f).unwrap_or(false) is a match"),
    (r"(let (\w+): &\[CellDir\] = [^;]*;)", lambda m: m.group(1).replace("&[CellDir::", "vstd::array::array_as_slice(&[CellDir::").replace("]\n", "])\n").replace("] }", "]) }"), "arrays are turned into slices by a function"),
    (r"\bfor\s+(\w+)\s+in\s+(options|cells|&free_ports|self\.edges\.iter\(\))\s*\{", lambda m: "let %s_n = %s.len(); for %s_i in 0..%s_n { let %s = &%s[%s_i];" % (m.group(1), m.group(2).replace("&", "").replace(".iter()", ""), m.group(1), m.group(1), m.group(1), m.group(2).replace("&", "").replace(".iter()", ""), m.group(1)), "for x in slice is a loop over its indices"),
    (r"\bfor\s+(\w+)\s+in\s+0\.\.6\s*\{(\s*let dir = CellDir::from)", r"let mut \1_i: u8 = 0; while \1_i < 6 { let \1 = \1_i; \1_i = \1_i + 1;\2", "for e in 0..6 is desugared to a while loop"),
    (r"\b((?:\w+\.)*\w+)\.param_by_idx\(", r"param_by_idx(\1, ", "NodeId::param_by_idx is a function of the node and the index"),
    (r"\bfor\s+(\w+)\s+in\s+0\.\.self\.(w|h)\s*\{", r"let mut \1_i: usize = 0; while \1_i < self.\2 { let \1 = \1_i; \1_i = \1_i + 1;", "for x in 0..n is desugared to a while loop (continue)"),
    (r"\bself\.matrix\.clone\(\)", "clone_cells(&self.matrix)", "Vec::clone of cells has an assumed contract"),
    (r"\bfn (change_matrix(?:_err)?)<F>\(&mut self, mut f: F\) -> Result<\(\), MatrixError>\s*where\s*F: FnMut\(&mut Self\)(?: -> Result<\(\), MatrixError>)?,?", r"fn \1(&mut self) -> Result<(), MatrixError>", "the change is a callback with an assumed contract: it keeps the size and the saved matrix"),
    (r"if let Err\((\w+)\) = f\(self\)", r"if let Err(\1) = change_err(self)", "see above"),
    (r"\bf\(self\);", "change(self);", "see above"),
]
RULES = [r for r in RULES if r[2]] + [
    (r"\bHashMap::new\(\)", "NameMap::new()", "the HashMap of node names has assumed contracts of new, get and insert"),
    (r"\b(\w+)\.get\((\w+)\)\.cloned\(\)", r"\1.get_cloned(\2)", "get(k).cloned() is one function"),
    (r"\b(\w+)\.to_string\(\)", r"\1", "node names are opaque values"),
    (r"\b(node_id|pid)\.name\(\)", r"\1_name(&\1)", "NodeId::name, ParamId::name are functions of the id"),
    (r"\bnode_id\.(to_instance|inp_param|instance)\(", lambda m: "%s(node_id%s" % (m.group(1), "" if m.group(1) == "instance" else ", "), "methods of NodeId are functions of the id"),
    (r"\bat\.clone\(\)", "clone_atom(at)", "SAtom::clone has an assumed contract"),
    (r"\bmatrix\.(set_param|get_unused_instance_node_id)\(", r"\1(matrix, ", "Matrix::set_param and get_unused_instance_node_id have assumed contracts (bounded: chains; set_param: P06)"),
    (r"\(pos\.(\d) as i32 \+ offs\.\1\) as usize", r"step(pos.\1, offs.\1)", "(x as i32 + o) as usize is an addition of small signed numbers"),
    (r"\bfor\s+link\s+in\s+self\.chain\.iter\(\)\s*\{", "let link_n = self.chain.len(); for link_i in 0..link_n { let link = &self.chain[link_i];", "for x in slice is a loop over its indices"),
    (r"\bfor\s*\((\w+),\s*(\w+)\)\s*in\s+link\.params\.iter\(\)\s*\{", r"let par_n = link.params.len(); for par_i in 0..par_n { let \1 = &link.params[par_i].0; let \2 = &link.params[par_i].1;", "for (a, b) in slice is a loop over its indices"),
    (r"\bfor\s*\((\w+),\s*(\w+)\)\s*in\s+params\s*\{", r"let set_n = params.len(); for set_i in 0..set_n { let (\1, \2) = nth(&params, set_i);", "for (a, b) in vec is a loop over its indices that moves the element out"),
]
DROPPED = ["comments, attributes and derives, visibility", "NodeId is abstracted to u64",
           "NodeGraphOrdering is a set of nodes and edges with the contracts that the check of P01 proves"]


def run(repo, builddir, tier):
    r = run_template(repo, builddir, "P05_matrix", RULES, DROPPED)
    if r["status"] != "undecided":
        return [r]
    # the matrix without the chain builder
    r["unit"] = "P05_chain"
    return [r, run_template(repo, builddir, "P05_matrix", RULES, DROPPED, cut=r"//\[chain\].*?//\[end\]")]
