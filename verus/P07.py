"""P07: unbounded proof of the way of MIDI events (src/nodes/midi.rs, NodeExecutor::feed_midi_events_from,
MidiP and MidiCC)."""
import os, re
import P15
from extract import run_template, blank, Lost

RULES = [
    (r"<\s*F\s*:\s*FnMut\s*\(\s*\)\s*->\s*Option<HxTimedEvent>\s*>", "", "the closure that delivers events is an opaque source"),
    (r"\bmut\s+f\s*:\s*F\b", "mut f: EvSource", "the closure that delivers events is an opaque source"),
    (r"(?<![\w.:])f\(\)", "f.next_ev()", "the closure that delivers events is an opaque source"),
    (r"\bwhile\s+let\s+(Some\(\w+\))\s*=\s*([^{]+?)\s*\{", r"loop { let \1 = \2 else { break; };", "while let is desugared to loop with let-else"),
    (r"&\s*(ectx\.\w+)\[\.\.\]", r"\1.as_slice()", "&v[..] is written v.as_slice()"),
    (r"\b(outputs|r)\s*\.\s*split_at_mut\s*\(", r"split_bufs(\1, ", "slice::split_at_mut has an assumed contract"),
    (r"\.ceil\(\)\s+as\s+u8\b", ".ceil().to_u8()", "casts from f32 to u8 are an uninterpreted function"),
    (r"(?<=[\w)])\s+as\s+f32\b", ".to_f32()", "casts to f32 are a function (the identity on f32)"),
] + P15.RULES
DROPPED = P15.DROPPED + ["fields of NodeExecutor and NodeExecContext that are not used here"]


def const(repo, name):
    m = re.search(r"\bconst\s+%s\s*:\s*usize\s*=\s*(\d+)\s*;" % name, blank(open(os.path.join(repo, "src/nodes/node_exec.rs")).read()))
    if not m:
        raise Lost("no constant " + name)
    return m.group(1)


def run(repo, builddir, tier):
    pre = P15.prelude(repo, ["MidiCC", "MidiP"])
    pre = re.sub(r"#\[verifier::external_body\]\s*pub struct NodeExecContext\s*\{[^}]*\}", "pub struct NodeExecContext { pub midi_notes: Vec<HxTimedEvent>, pub midi_ccs: Vec<HxTimedEvent> }", pre)
    return [run_template(repo, builddir, "P07_midi", RULES, DROPPED, extra={
        "PRELUDE": pre, "NOTES": const(repo, "MAX_MIDI_NOTES_PER_BLOCK"), "CCS": const(repo, "MAX_MIDI_CC_PER_BLOCK")})]
