"""P08: unbounded proof of the pattern model, the transfer to the audio thread and the sequencer (src/dsp/tracker)."""
import os
from extract import run_template, ENUMERATE, AS_F32

RULES = [ENUMERATE] + AS_F32
PLAY = [
    (r"\b(Consumer|Producer)<PatternUpdateMsg>", r"\1", "the ring buffer is a queue of messages (assumed contracts)"),
    (r"\bself\.data\.lock\(\)\.unwrap\(\)", "lock_pd(pd)", "the pattern in the mutex is a parameter (nobody else holds it during the call)"),
    (r"\bfor\s*\(\s*\(\s*(\w+)\s*,\s*(\w+)\s*\)\s*,\s*(\w+)\s*\)\s*in\s+(\w+)\.iter\(\)\s*\.zip\(\s*(\w+)\.iter_mut\(\)\s*\)\s*\.zip\(\s*(\w+)\.iter_mut\(\)\s*\)\s*\{",
     r"let fr_p = \4; let fr_o = &mut *\5; let fr_g = &mut *\6; let fr_n = umin(umin(fr_p.len(), fr_o.len()), fr_g.len()); let mut fr_i: usize = 0; while fr_i < fr_n { let fr_c = fr_i; fr_i = fr_i + 1; let \1 = fr_p[fr_c]; let \2 = &mut fr_o[fr_c]; let \3 = &mut fr_g[fr_c];",
     "for ((x, y), z) in a.iter().zip(b.iter_mut()).zip(c.iter_mut()) is desugared to a while loop over the indices all have (x is the value: f32 is Copy)"),
    (r"\bfor\s*\(\s*(\w+)\s*,\s*(\w+)\s*\)\s*in\s+(self\.data\[col\])\.iter_mut\(\)\s*\.zip\(\s*(\w+)\.iter\(\)\s*\)\s*\{",
     r"let zip_n = umin(\3.len(), \4.len()); for zip_i in 0 .. zip_n { let \1 = &mut \3[zip_i]; let \2 = &\4[zip_i];", "for (x, y) in a.iter_mut().zip(b.iter()) is desugared to a loop over the indices both have"),
    (r"\b(\w+)\.floor\(\) as usize", r"floor_us(\1)", "x.floor() as usize is a function of x"),
    (r"\bFRACT_16THS\[\s*(\(?[\w &]+?\)?) as usize\s*\] as f64", r"fract64(\1)", "the table of sixteenths is a function of the index (Kani: as compiled)"),
    (r"\(\s*FRACT_16THS\[\s*(\(?[\w &]+?\)?) as usize\s*\] as f64\s*\)", r"fract64(\1)", "the same"),
    (r"\bFRACT_16THS\[\s*(\(?[\w &]+?\)?) as usize\s*\]", r"fract16(\1)", "the same"),
    (r"\brand_val\s*>\s*\(?(fract64\(\w+\))\)?", r"over(rand_val, \1)", "f64 > f64 is a function of the values"),
    (r"\bsub_frac\s*<=\s*(\w+)", r"fle(sub_frac, \1)", "f32 <= f32 is a function of the values"),
    (r"&self\.data\[(\w+)\]\[\.\.\]", r"&self.data[\1]", "&v[..] of a Vec is &v"),
    (r"self\.seq\.set_col\((\w+), &data\)", r"self.seq.set_col(\1, vstd::array::array_as_slice(&data))", "an array reference becomes a slice"),
    (r"(?s)^(.*fn get_out_data\b.*?)&self\.out_data\b(?!\[)", r"\1self.out_data.as_slice()", "a Vec reference becomes a slice"),
]
DROPPED = ["comments, attributes and derives, visibility",
           "methods of the UIPatternModel trait are verified as methods of PatternData",
           "floating point operations are uninterpreted functions (total, deterministic)",
           "get_cell (display string) and the field it caches in"]


def run(repo, builddir, tier):
    play = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "P08_play.vrs")).read()
    r = run_template(repo, builddir, "P08_pattern", PLAY + RULES, DROPPED, extra={"PLAY": play})
    if r["status"] != "undecided":
        return [r]
    # the pattern model by itself
    r["unit"] = "P08_play"
    return [r, run_template(repo, builddir, "P08_pattern", RULES, DROPPED, extra={"PLAY": ""})]
