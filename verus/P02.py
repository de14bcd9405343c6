"""P02: unbounded proof of the port layout (src/nodes/node_conf.rs)."""
from extract import run_template

RULES = [
    (r"\bfor\s*\(\s*(\w+)\s*,\s*\(\s*(\w+)\s*,\s*(\w+)\s*,\s*(\w+)\s*\)\s*\)\s*in\s+self\.nodes\.iter_mut\(\)\.enumerate\(\)\s*\{",
     r"let nodes_n = self.nodes.len(); for \1 in 0 .. nodes_n { let node_e = &mut self.nodes[\1]; let \2 = &node_e.0; let \3 = &mut node_e.1; let \4 = &node_e.2;",
     "for (i, (a, b, c)) in v.iter_mut().enumerate() is desugared to a loop over the indices with references to the parts"),
    (r"\bid\s*==\s*NodeId::Nop\b", "id.is_nop()", "the test for NodeId::Nop is opaque"),
    (r"(self\.param_modamt\.get\([^)]*\))\.copied\(\)\.flatten\(\)", r"opt_flat(\1)", "Option::copied().flatten() has an assumed contract"),
    (r"self\.node2idx\.get\(&ni\)\.copied\(\)", "opt_copy(self.node2idx.get(ni))", "Option::copied() has an assumed contract"),
    (r"self\.nodes\.get_mut\((\w+)\)", r"vec_get_mut(&mut self.nodes, \1)", "Vec::get_mut has an assumed contract"),
    (r"self\.nodes\.get\((\w+)\)", r"vec_get(&self.nodes, \1)", "Vec::get has an assumed contract"),
    (r"\bnode_instance\.as_mut\(\)\.unwrap\(\)", "opt_mut(node_instance)", "Option::as_mut().unwrap() has an assumed contract"),
    (r"self\.prog_idx as u8", "(self.prog_idx as u8)", "none"),
]
DROPPED = ["comments, attributes and derives, visibility", "fields of NodeConfigurator that the functions do not use", "NodeInfo, NodeId, ParamId, Node, SAtom and NodeProg are opaque"]


def run(repo, builddir, tier):
    return [run_template(repo, builddir, "P02_ports", RULES[:-1], DROPPED)]
