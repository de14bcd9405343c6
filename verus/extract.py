"""Mechanical extraction of functions from /repo's current source for Verus.

A template (*.vrs) holds the functions as they were when they were annotated, with ghost
text (contracts, invariants, proof blocks) between « and ».  On every run the executable
text is cut out of /repo; the template only says where the ghost text goes, by aligning
its tokens with the current ones.  What the extraction drops or changes is recorded per unit
('dropped'): comments, attributes, visibility (everything becomes pub), and the
substitutions listed by the unit (type abstractions).  If the source no longer has the
expected shape (item missing, no place for the ghost text, text Verus does not accept) the unit is undecided, never failed.
"""
import difflib, os, re, subprocess, time


class Lost(Exception):
    pass


def blank(src):
    """Comments become spaces, string contents stay."""
    out, i, n = [], 0, len(src)
    while i < n:
        c = src[i]
        if src.startswith("//", i):
            j = src.find("\n", i)
            j = n if j < 0 else j
            out.append(" " * (j - i))
            i = j
        elif src.startswith("/*", i):
            d, j = 1, i + 2
            while j < n and d:
                if src.startswith("/*", j):
                    d += 1; j += 2
                elif src.startswith("*/", j):
                    d -= 1; j += 2
                else:
                    j += 1
            out.append("".join(ch if ch == "\n" else " " for ch in src[i:j]))
            i = j
        elif c == '"':
            j = i + 1
            while j < n and src[j] != '"':
                j += 2 if src[j] == "\\" else 1
            out.append(src[i:j + 1])
            i = j + 1
        elif c == "'" and i + 2 < n and (src[i + 2] == "'" or src[i + 1] == "\\"):
            j = src.find("'", i + 2)
            out.append(src[i:j + 1])
            i = j + 1
        else:
            out.append(c)
            i += 1
    return "".join(out)


def skip_str(s, i):
    if s[i] == '"':
        j = i + 1
        while s[j] != '"':
            j += 2 if s[j] == "\\" else 1
        return j
    if s[i] == "'" and i + 2 < len(s) and (s[i + 2] == "'" or s[i + 1] == "\\"):
        return s.find("'", i + 2)
    return i


def close(s, i):
    """Index of the bracket that closes the one at i."""
    pair, st = {"{": "}", "(": ")", "[": "]"}, []
    while i < len(s):
        i = skip_str(s, i)
        c = s[i]
        if c in pair:
            st.append(pair[c])
        elif st and c == st[-1]:
            st.pop()
            if not st:
                return i
        i += 1
    raise Lost("unbalanced brackets")


def open_brace(s, i):
    """Next { at bracket depth 0 from i (None if a ; comes first)."""
    while i < len(s):
        i = skip_str(s, i)
        if s[i] in "([":
            i = close(s, i)
        elif s[i] == "{":
            return i
        elif s[i] == ";":
            return None
        i += 1
    return None


def blocks(s, pat):
    for m in re.finditer(pat, s):
        b = open_brace(s, m.end())
        if b is not None:
            yield m.start(), b, close(s, b)


class Source:
    def __init__(self, repo, path):
        self.path = path
        src = open(os.path.join(repo, path)).read()
        s = blank(src)
        # tests are not part of the extracted text
        m = re.search(r"#\[cfg\(test\)\]\s*mod\s+\w+\s*\{", s)
        if m:
            s = s[:m.start()]
        self.s = s

    def struct(self, name):
        for a, b, e in blocks(self.s, r"\b(?:pub(?:\([a-z]+\))?\s+)?(?:struct|enum)\s+%s\b" % name):
            head, body = self.s[a:b], self.s[b + 1:e]
            body = re.sub(r"#\[[^\]]*\]", "", body)
            if "struct" in head:
                fields, depth, cur = [], 0, ""
                for c in body:
                    if c in "<([":
                        depth += 1
                    elif c in ">)]":
                        depth -= 1
                    if c == "," and depth == 0:
                        fields.append(cur)
                        cur = ""
                    else:
                        cur += c
                fields.append(cur)
                fields = [re.sub(r"^\s*(pub(\([a-z]+\))?\s+)?", "pub ", f.strip()) for f in fields if f.strip()]
                return "pub struct %s {\n    %s,\n}\n" % (name, ",\n    ".join(fields))
            return "pub enum %s {%s}\n" % (name, body)
        raise Lost("%s: no struct or enum %s" % (self.path, name))

    def fn(self, ty, name, trait=None):
        """Text of fn `name` of impl `ty` (or a free function): (signature, body)."""
        zones = []
        if ty is None:
            zones = [(0, len(self.s))]
        else:
            pat = (r"\bimpl\b[^{;]*\b%s\b[^{;]*\bfor\s+%s\b" % (trait, ty)) if trait else \
                  r"\bimpl\s*(?:<[^{]*?>)?\s+%s\b(?![^{]*\bfor\b)" % ty
            zones = [(b, e) for _, b, e in blocks(self.s, pat)]
        hits = []
        for zb, ze in zones:
            for m in re.finditer(r"\b(?:pub(?:\([a-z]+\))?\s+)?fn\s+%s\b" % name, self.s[zb:ze]):
                a = zb + m.start()
                b = open_brace(self.s, zb + m.end())
                if b is None:
                    continue
                hits.append((a, b, close(self.s, b)))
        if len(hits) != 1:
            raise Lost("%s: %d functions %s::%s" % (self.path, len(hits), ty, name))
        a, b, e = hits[0]
        return self.s[a:b].strip(), self.s[b + 1:e]


TOK = re.compile(r"""\s+|"(?:\\.|[^"\\])*"|'(?:\\.|[^'\\])'|'[a-z_]\w*|[A-Za-z_]\w*|\d[\w]*(?:\.\d[\w]*)?|::|->|=>|==|!=|<=|>=|&&|\|\||\+=|-=|\*=|/=|%=|&=|\|=|\^=|\.\.=|\.\.|.""", re.S)


def tokens(s):
    return [t for t in TOK.findall(s) if not t.isspace()]


def split_ghost(t):
    """Template text of one function -> (exec tokens, {gap: ghost text})."""
    exe, gh = [], {}
    for k, part in enumerate(re.split(r"«(.*?)»", t, flags=re.S)):
        if k % 2:
            gh[len(exe)] = gh.get(len(exe), "") + " " + part.strip("\n") + "\n"
        else:
            exe += tokens(blank(part))
    return exe, gh


def weave(exe, gh, new):
    """Carry the ghost text over to the current tokens of the function."""
    after, before, ren = {}, {}, {}
    for tag, a1, a2, b1, b2 in difflib.SequenceMatcher(None, exe, new, autojunk=False).get_opcodes():
        if tag == "equal":
            for k in range(a2 - a1):
                before[a1 + k] = b1 + k      # gap in front of exe[a1+k]
                after[a1 + k + 1] = b1 + k + 1   # gap behind exe[a1+k]
        elif tag == "replace" and a2 - a1 == b2 - b1:
            for x, y in zip(exe[a1:a2], new[b1:b2]):
                if re.match(r"[a-z_]\w*$", x) and re.match(r"[a-z_]\w*$", y):
                    ren.setdefault(x, set()).add(y)
    # consistently renamed locals are renamed in the ghost text as well
    ren = {x: min(y) for x, y in ren.items() if len(y) == 1 and x not in new and min(y) not in exe}
    ins = {}
    for g, t in sorted(gh.items()):
        for x, y in ren.items():
            t = re.sub(r"\b%s\b" % x, y, t)
        # behind the previous token if that is still there, else in front of the next one;
        # clauses belong to the brace that follows them
        first, second = (before, after) if re.match(r"\s*(invariant|requires|ensures|decreases|\))", t) else (after, before)
        p = first.get(g, second.get(g))
        if p is None:
            raise Lost("no place for ghost text %r" % t.strip()[:60])
        ins[p] = ins.get(p, "") + t
    out, line = [], ""
    for k in range(len(new) + 1):
        if k in ins:
            out.append(line)
            out += ins[k].rstrip("\n").split("\n")
            line = ""
        if k < len(new):
            # << and >> are read as two tokens (generics)
            line += new[k] + ("" if new[k] in "<>" and k + 1 < len(new) and new[k + 1] == new[k] else " ")
            if new[k] in ("{", "}", ";"):
                out.append(line)
                line = ""
    out.append(line)
    return "\n".join(l for l in out if l.strip())


def expand(repo, template, rules):
    """Template -> (Verus text, functions under contract, changed functions)."""
    srcs, fns, changed = {}, [], []
    default = re.search(r"⟦file (\S+)⟧", template).group(1)

    def source(f):
        f = f or default
        if f not in srcs:
            srcs[f] = Source(repo, f)
        return srcs[f]

    def struct(m):
        return subst(source(m.group(2)).struct(m.group(1)), rules)

    def fn(m):
        path, f, text = m.group(1), m.group(2), m.group(3)
        ty, name = path.rsplit("::", 1) if "::" in path else (None, path)
        trait = None
        if ty and "@" in ty:
            trait, ty = ty.split("@")
        sig, body = source(f).fn(ty, name, trait)
        sig = re.sub(r"^pub(\([a-z]+\))?\s+", "", sig)
        new = tokens(subst("%s {%s}" % (sig, body), rules))
        exe, gh = split_ghost(text)
        if exe and exe[0] == "pub":
            raise Lost("template of %s starts with pub" % path)
        fns.append(path)
        if exe != new:
            changed.append(path)
        return "pub " + weave(exe, gh, new)

    t = re.sub(r"⟦file \S+⟧", "", template)
    t = re.sub(r"⟦struct (\w+)(?: of (\S+))?⟧", struct, t)
    t = re.sub(r"⟦fn ([\w:@]+)(?: of (\S+))?⟧(.*?)⟦end⟧", fn, t, flags=re.S)
    return t, fns, changed


def run_template(repo, builddir, unit, rules, dropped, rlimit=60, extra=None, cut=None):
    """Verify /verif/verus/<unit>.vrs woven with the current source."""
    here = os.path.dirname(os.path.abspath(__file__))
    t = open(os.path.join(here, unit + ".vrs")).read()
    if cut:
        t = re.sub(cut, "", t, flags=re.S)
    for k, v in (extra or {}).items():
        t = t.replace("⟦%s⟧" % k, v)
    try:
        text, fns, changed = expand(repo, t, rules)
    except Lost as ex:
        return {"unit": unit, "status": "undecided", "obligations": 0, "discharged": 0, "reason": "lost: %s" % ex, "out": "",
                "time_s": 0.0, "functions": [], "dropped": dropped, "changed_since_annotated": []}
    r = verify(unit, text, builddir, fns, dropped + [x[2] for x in rules], rlimit)
    r["changed_since_annotated"] = changed
    return r


def subst(text, rules):
    for rx, to, _ in rules:
        text = rx(text) if callable(rx) else re.sub(rx, to, text)
    return text


def balanced_args(s, i):
    """s[i] is '(': (text inside, index behind the closing bracket)."""
    e = close(s, i)
    return s[i + 1:e].strip(), e + 1


def enumerate_loops(text):
    """`for (i, x) in E.iter().enumerate().take(N).skip(M) {` becomes
    `for i in M..min(N, E.len()) { let x = &E[i];` (iter_mut: `&mut E[i]`).
    Take and skip count from 0 only if at most one of each follows enumerate()."""
    out, pos = [], 0
    for m in re.finditer(r"\bfor\s*\(\s*(\w+)\s*,\s*(\w+)\s*\)\s*in\s", text):
        if m.start() < pos:
            continue
        b = open_brace(text, m.end())
        if b is None:
            continue
        expr = text[m.end():b].strip()
        k = re.search(r"\.\s*(iter|iter_mut)\s*\(\s*\)\s*\.\s*enumerate\s*\(\s*\)", expr)
        if not k:
            continue
        base, rest = expr[:k.start()].strip(), expr[k.end():].strip()
        lo, hi, ok = "0", base + ".len()", True
        while rest:
            c = re.match(r"\.\s*(take|skip)\s*(?=\()", rest)
            if not c:
                ok = False
                break
            arg, e = balanced_args(rest, c.end())
            if c.group(1) == "take" and lo == "0":
                hi = "umin(%s, %s)" % (arg, hi)
            elif c.group(1) == "skip" and lo == "0":
                lo = arg
            else:
                ok = False
                break
            rest = rest[e:].strip()
        if not ok:
            continue
        out.append(text[pos:m.start()])
        out.append("for %s in %s .. %s { let %s = &%s%s[%s];" % (
            m.group(1), lo, hi, m.group(2), "mut " if k.group(1) == "iter_mut" else "", base, m.group(1)))
        pos = b + 1
    out.append(text[pos:])
    return "".join(out)


ENUMERATE = (enumerate_loops, None, "for (i, x) in E.iter().enumerate().take(N).skip(M) is desugared to a loop over "
             "the index range M..min(N, E.len()) with let x = &E[i] (iter_mut: &mut E[i])")
AS_F32 = [(r"\b(0x\w+|\d+)\s+as\s+f32\b", r"\1i32.to_f32()", "casts to f32 become calls of to_f32(), an uninterpreted function per integer type"),
          (r"\s+as\s+f32\b", ".to_f32()", "casts to f32 become calls of to_f32(), an uninterpreted function per integer type")]


def verify(name, text, builddir, functions, dropped, rlimit=60, timeout=400):
    os.makedirs(builddir, exist_ok=True)
    f = os.path.join(builddir, name + ".rs")
    open(f, "w").write(text)
    t0 = time.time()
    try:
        p = subprocess.run(["verus", f, "--triggers-mode", "silent", "--multiple-errors", "5", "--rlimit", str(rlimit)],
                           capture_output=True, text=True, timeout=timeout, cwd=builddir)
        out = p.stdout + p.stderr
    except subprocess.TimeoutExpired as ex:
        return {"unit": name, "status": "undecided", "obligations": 0, "discharged": 0, "reason": "time limit",
                "out": str(ex.stdout)[-2000:], "time_s": time.time() - t0, "functions": functions, "dropped": dropped}
    m = re.search(r"verification results:: (\d+) verified, (\d+) errors", out)
    r = {"unit": name, "out": out, "time_s": round(time.time() - t0, 2), "functions": functions, "dropped": dropped,
         "obligations": 0, "discharged": 0, "reason": ""}
    errs = re.findall(r"^error: (.*)\n\s+--> ([^\n]*)", out, re.M)
    if not m:
        r.update(status="undecided", reason="Verus does not accept the extracted text: " +
                 "; ".join(e[0] for e in errs[:3]) + (re.findall(r"^error.*", out, re.M) or [""])[0])
        return r
    ok, bad = int(m.group(1)), int(m.group(2))
    r.update(obligations=ok + bad, discharged=ok)
    if bad == 0 and p.returncode == 0:
        r["status"] = "proved"
    elif re.search(r"[Rr]esource limit|timed out", out):
        r.update(status="undecided", reason="resource limit")
    elif bad == 0:
        r.update(status="undecided", reason="; ".join(e[0] for e in errs[:3]))
    else:
        lines = text.splitlines()
        named = []
        for what, loc in errs[:5]:
            ln = int(loc.split(":")[1])
            fn = next((re.search(r"\bfn\s+(\w+)", l).group(1) for l in reversed(lines[:ln])
                       if re.search(r"\bfn\s+(\w+)", l)), "?")
            named.append("%s in %s (extracted line %d: %s)" % (what, fn, ln, lines[ln - 1].strip()[:120]))
        r.update(status="failed", reason="; ".join(named))
    return r
