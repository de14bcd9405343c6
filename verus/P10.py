"""P10: unbounded proof of the block areas (src/wblockdsp/language.rs)."""
from extract import run_template

RULES = [
    (r"for\s+a_id\s+in\s+&\s*areas\s*\{\s*if\s+area_id\s*==\s*\*a_id\b", "for a_id2 in areas.iter() { if area_id == *a_id2", "a loop variable that shadows a parameter is renamed"),
    (r"\bin\s+&\s*(areas|cur_sub)\b", r"in \1.iter()", "`in &v` is written `in v.iter()`"),
    (r"Rc<RefCell<BlockLanguage>>", "BlockLanguage", "the block language is an opaque type"),
    (r"\bin\s+&\s*self\.blocks\b", "in self.blocks.iter()", "`in &self.blocks` is written `in self.blocks.iter()`"),
    (r"\b(\w+)\.as_ref\(\)", r"&**\1", "Box::as_ref() is written &**"),
    (r"\b(\w+)\.as_mut\(\)", r"&mut **\1", "Box::as_mut() is written &mut **"),
    (r"\bblock\.contains\.clone\(\)", "block.contains", "clone of a pair of Option<usize> is a copy"),
    (r"\bblock\.clone\(\)", "clone_block(block)", "the derived Clone of Block is a function with an assumed contract (equal result)"),
]
DROPPED = ["comments, attributes and derives, visibility"]


def run(repo, builddir, tier):
    return [run_template(repo, builddir, "P10_blocks", RULES, DROPPED)]
