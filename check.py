#!/usr/bin/env python3
"""Decide one property: check.py <ID> [quick|thorough]

1. Kani discharges every contract / contract harness of the property's module in
   /verif/proofs against /repo's current source.
2. Verus (if /verif/verus/<ID>.py exists) discharges the unbounded obligations on
   functions mechanically extracted from /repo's current source.
3. The same contract harnesses run natively: replay of counterexamples, failing input
   search, and the bounded stand-ins for what the verifiers do not reach.
Exit 0: held.  Exit 1 + VIOLATION line: broken.  Exit 2: no answer (nothing builds).
"""
import glob, importlib.util, json, os, re, resource, signal, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
PROOFS = os.path.join(VERIF, "proofs")
RUSTFLAGS = "-A dangerous_implicit_autorefs -A unexpected_cfgs --cfg hexo_verif"

NOT_A_VIOLATION = ("unwind", "unsupported_construct", "reachability_check", "sanity_check",
                   "missing_definition", "no-body", "recursion")


NATIVE_ENV = {"MALLOC_TRIM_THRESHOLD_": "0"}


def sh(cmd, timeout, env=None, cwd=None, mem=None):
    """Run in its own process group, kill the group at the time limit."""
    e = dict(os.environ)
    e["CARGO_NET_OFFLINE"] = "true"
    e.update(env or {})
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, cwd=cwd,
                         start_new_session=True, text=True, errors="replace",
                         preexec_fn=(lambda: resource.setrlimit(resource.RLIMIT_AS, (mem, mem))) if mem else None)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out, False
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, _ = p.communicate()
        return -9, out, True


class Check:
    def __init__(self, pid, tier):
        self.id, self.tier = pid, tier
        self.feat = pid.lower()
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.notes, self.violations, self.known = [], [], []
        self.cfg = json.load(open(os.path.join(VERIF, "props.json"))).get(pid, {})
        self.kani, self.native, self.verus = None, None, None
        self.native_bin = None

    def note(self, m):
        self.notes.append(m)
        print("note: " + m, flush=True)

    # ---------------------------------------------------------------- native
    def native_build(self):
        env = {"RUSTFLAGS": RUSTFLAGS, "CARGO_TARGET_DIR": os.path.join(BUILD, "native"),
               "RUSTUP_TOOLCHAIN": "nightly-x86_64-unknown-linux-gnu"}
        rc, out, to = sh(["cargo", "build", "--offline", "--features", self.feat, "--bin", "native"],
                         400, env, PROOFS)
        self.native_out = out
        if rc == 0:
            self.native_bin = os.path.join(BUILD, "native", "debug", "native")

    def native_run(self):
        mult = self.cfg.get("native_mult", 10) * (1 if self.tier == "quick" else 12)
        ms = 300 if self.tier == "quick" else 5000
        lim = self.cfg.get("native_timeout", 200) * (1 if self.tier == "quick" else 3)
        rc, out, to = sh([self.native_bin, "run", str(self.seed), str(ms), "all", str(mult)], lim, NATIVE_ENV)
        res = [json.loads(l) for l in out.splitlines() if l.startswith('{"property"')]
        self.native_log = out
        if rc != 0 or to:
            # a crash or a hang: attribute it to one case of a harness, or to nothing
            rc2, lst, _ = sh([self.native_bin, "list"], 30)
            names = [json.loads(l) for l in lst.splitlines() if l.startswith("{")]
            done = {r["harness"] for r in res}
            end = time.time() + lim * 1.5
            for n in names:
                if n["harness"] in done:
                    continue
                left = max(20, min(lim / 2, end - time.time()))
                tr = os.path.join(BUILD, "trace-%s-%d" % (n["harness"], os.getpid()))
                rc3, o3, to3 = sh([self.native_bin, "run", str(self.seed), str(ms), n["harness"], "1"],
                                  left, dict(NATIVE_ENV, NATIVE_TRACE=tr, NATIVE_THREADS="16"))
                seeds = []
                for f in glob.glob(tr + ".*"):
                    try:
                        seeds.append(open(f).read().strip())
                        os.remove(f)
                    except OSError:
                        pass
                r = [json.loads(l) for l in o3.splitlines() if l.startswith('{"property"')]
                if r and rc3 == 0:
                    res += r
                    continue
                # the cases that were running: one of them dies or does not end by itself as well
                def one(sd):
                    if not sd:
                        return None
                    rc4, o4, to4 = sh([self.native_bin, "replay", n["harness"], "seed:" + sd], 40, NATIVE_ENV, mem=4 << 30)
                    if to4:
                        return sd, "does not terminate within 40 s", o4
                    if rc4 not in (0, 1):
                        return sd, "process died (exit status %s)" % rc4, o4
                    if rc4 == 1:
                        m = [json.loads(l) for l in o4.splitlines() if l.startswith('{"harness"')]
                        return sd, m[0]["message"] if m else "failed", o4
                    return None
                with ThreadPoolExecutor(8) as ex:
                    bad = [b for b in ex.map(one, sorted(seeds)[:40]) if b]
                if bad:
                    res.append({"property": self.id, "harness": n["harness"], "kind": n["kind"],
                                "status": "FAIL", "ran": 1, "rejected": 0, "message": bad[0][1],
                                "input": "seed:" + bad[0][0], "log": bad[0][2][-4000:]})
                else:
                    self.note("%s undecided: the run %s, and none of its cases does so by itself" % (
                        n["harness"], "reached its time limit" if to3 else "died (exit status %s)" % rc3))
        self.native = res

    # ------------------------------------------------------------------ kani
    def kani_cmd(self, extra):
        return ["cargo", "kani", "--lib", "--features", self.feat,
                "--target-dir", os.path.join(BUILD, "kani"),
                "-Z", "function-contracts", "-Z", "stubbing", "-Z", "unstable-options",
                "-Z", "concrete-playback"] + extra

    def kani_run(self):
        if not self.cfg.get("kani", True):
            return
        js = os.path.join(BUILD, "kani-%s.json" % self.id)
        if os.path.exists(js):
            os.remove(js)
        ht = self.cfg.get("harness_timeout", 200) if self.tier == "quick" else 1500
        lim = 640 if self.tier == "quick" else 6000
        rc, out, to = sh(self.kani_cmd(["-j", str(self.cfg.get("jobs", 8)), "--output-format=terse",
                                        "--harness-timeout", "%ds" % ht, "--export-json", js]),
                         lim, {"RUSTFLAGS": RUSTFLAGS}, PROOFS)
        self.kani_out = out
        if not os.path.exists(js):
            self.kani = {"error": "kani produced no result (rc=%s, timeout=%s)" % (rc, to),
                         "out": out[-3000:]}
            return
        d = json.load(open(js))
        self.kani = {"results": [], "tools": d.get("tools", {})}
        meta = {h["pretty_name"]: h for h in d["harness_metadata"]}
        stats = {c["harness_id"]: (c.get("cbmc_stats") or {}) for c in d.get("cbmc", [])}
        errs = {e["harness_id"]: e for e in d.get("error_details", [])}
        seen = set()
        for r in d["verification_results"]["results"]:
            h = r["harness_id"]
            seen.add(h)
            checks = r.get("checks") or []
            # IEEE NaN/inf results are values in Rust, not errors
            failed = [c for c in checks if c["status"] in ("Failure", "SolverError") and
                      c.get("category") != "NaN" and not c["description"].startswith("NaN on ")]
            hard = [c for c in failed if c.get("category") not in NOT_A_VIOLATION and
                    "unwinding assertion" not in c["description"] and
                    "is not currently supported by Kani" not in c["description"]]
            covers = [c for c in checks if c.get("category") == "cover"]
            obl = [c for c in checks if c.get("category") != "cover" and not c["description"].startswith("NaN on ")]
            st = "proved"
            if r["status"] != "Success" and (failed or not checks):
                st = "failed" if (hard and len(hard) == len(failed)) else "undecided"
            elif not obl:
                st = "undecided"
            else:
                # one cover statement may be instantiated several times
                sat = {}
                for c in covers:
                    k = (c["location"].get("file"), c["location"].get("line"), c["description"])
                    sat[k] = sat.get(k, False) or c["status"] == "Satisfied"
                if not all(sat.values()):
                    st = "vacuous"
            kind = (meta.get(h, {}).get("attributes") or {}).get("kind", "")
            m = re.search(r'target_fn: "([^"]+)"', str(kind))
            self.kani["results"].append({
                "harness": h, "status": st, "obligations": len(obl),
                "discharged": sum(1 for c in obl if c["status"] in ("Success", "Unreachable")),
                "covers": len(covers), "contract_of": m.group(1) if m else None,
                "failed": hard or failed, "time_s": r.get("duration_ms", 0) / 1000.0,
                "solver_s": stats.get(h, {}).get("runtime_solver_s") or 0.0,
                "err": errs.get(h, {}).get("exit_status"),
                "functions": sorted({c["function"] for c in obl
                                     if c.get("function", "").find("hexodsp::") >= 0 and
                                     "kani" not in c["function"] and "{closure" not in c["function"] and "hexodsp::verif" not in c["function"]}),
            })
        for h in meta:
            if h not in seen:
                self.kani["results"].append({"harness": h, "status": "undecided", "obligations": 0,
                                             "discharged": 0, "covers": 0, "contract_of": None,
                                             "failed": [], "time_s": 0, "solver_s": 0,
                                             "err": "no result", "functions": []})

    def playback(self, harness):
        """Kani's counterexample as the byte strings of the any() calls."""
        left = (850 if self.tier == "quick" else 8000) - (time.time() - self.t0)
        if left < 30:
            return None, "no time left for the counterexample"
        rc, out, to = sh(self.kani_cmd(["--exact", "--harness", harness, "--concrete-playback=print",
                                        "--harness-timeout", "300s"]),
                         min(400, left), {"RUSTFLAGS": RUSTFLAGS}, PROOFS)
        vecs, m = [], re.search(r"let concrete_vals.*?= vec!\[(.*?)\n\s*\];", out, re.S)
        if not m:
            return None, out
        for v in re.findall(r"^\s*vec!\[([^\]]*)\]", m.group(1), re.M):
            vecs.append("".join("%02x" % int(x) for x in v.split(",") if x.strip()))
        return ",".join(vecs), out

    # ----------------------------------------------------------------- verus
    def verus_run(self):
        p = os.path.join(VERIF, "verus", self.id + ".py")
        if not os.path.exists(p):
            return
        sys.path.insert(0, os.path.join(VERIF, "verus"))
        spec = importlib.util.spec_from_file_location("verus_" + self.id, p)
        mod = importlib.util.module_from_spec(spec)
        try:
            spec.loader.exec_module(mod)
            self.verus = mod.run(REPO, os.path.join(BUILD, "verus"), self.tier)
        except Exception as ex:  # lost anchor, unsupported construct: undecided
            self.verus = [{"unit": self.id, "status": "undecided", "obligations": 0, "discharged": 0,
                           "reason": "%s: %s" % (type(ex).__name__, ex), "out": "", "time_s": 0}]

    # --------------------------------------------------------------- verdict
    def violation(self, name, what, data, with_input):
        d = os.path.join(VERIF, "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%s.json" % (self.id, re.sub(r"\W+", "_", name)))
        data = dict(data, property=self.id, obligation=name, what=what)
        json.dump(data, open(path, "w"), indent=1)
        self.violations.append((path, with_input, what))

    def decide(self):
        findings = {}
        kf = os.path.join(VERIF, "known_findings.json")
        if os.path.exists(kf):
            for f in json.load(open(kf)).get("findings", []):
                if f["property"] == self.id:
                    findings[f["harness"]] = f
        self.findings = findings
        bad_native = set()
        for r in self.native or []:
            if r["status"] != "FAIL":
                continue
            f = findings.get(r["harness"])
            if f and re.search(f["match"], r["message"]):
                self.known.append(f["what"])
                continue
            bad_native.add(r["harness"])
            self.native_violation(r)
        if self.kani and "results" in self.kani:
            for r in self.kani["results"]:
                short = r["harness"].split("::")[-1]
                if r["status"] == "failed" and short not in bad_native:
                    self.kani_failed(r, short, not any(v[1] for v in self.violations))
                elif r["status"] in ("undecided", "vacuous"):
                    self.note("kani obligation set %s is %s (%s)" % (
                        r["harness"], r["status"],
                        r["err"] or "; ".join(c["description"] for c in r["failed"][:3]) or "cover unsatisfiable"))
        elif self.kani:
            self.note("kani undecided: " + self.kani["error"])
        for u in self.verus or []:
            if u["status"] == "failed":
                hit = [v for v in self.violations]
                self.violation("verus-" + u["unit"], "Verus does not discharge: " + u["reason"],
                               {"verifier_output": u["out"][-8000:],
                                "failing_input": hit[0][0] if hit else None}, False)
            elif u["status"] == "undecided":
                self.note("verus obligation set %s undecided: %s" % (u["unit"], u["reason"]))
        if self.violations and not any(v[1] for v in self.violations):
            self.search()

    def search(self):
        """A proof obligation failed and no input is known yet: look for one with other seeds."""
        s = self.seed
        if not (self.native_bin and self.native is not None):
            return
        while time.time() - self.t0 < (430 if self.tier == "quick" else 4000) and not any(v[1] for v in self.violations):
            s += 1000003
            rc, out, to = sh([self.native_bin, "run", str(s), "300", "all", str(self.cfg.get("native_mult", 10))], 200, NATIVE_ENV)
            if rc != 0 or to:
                return
            res = [json.loads(l) for l in out.splitlines() if l.startswith('{"property"')]
            for r in res:
                f = self.findings.get(r["harness"])
                if r["status"] == "FAIL" and not (f and re.search(f["match"], r["message"])):
                    self.native_violation(r)

    def native_violation(self, r):
        self.violation(r["harness"], r["message"], {
            "input": r["input"], "native_result": r,
            "replay_cmd": "cd /verif/proofs && RUSTFLAGS='%s' CARGO_TARGET_DIR=/verif/.build/native "
                          "RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu cargo run --offline --features %s "
                          "--bin native -- replay %s %s" % (RUSTFLAGS, self.feat, r["harness"], r["input"]),
        }, True)

    def kani_failed(self, r, short, want_input):
        inp, out = self.playback(r["harness"]) if want_input else (None, "")
        conf = None
        if inp is not None and self.native_bin and r["contract_of"] is None:
            rc, o, to = sh([self.native_bin, "replay", short, inp], 60)
            conf = o.strip().splitlines()[-1] if o.strip() else "rc=%s" % rc
            ok = (rc == 1 and '"FAIL"' in o) or rc < 0 or to
        else:
            ok = False
        what = "; ".join("%s (%s:%s)" % (c["description"], c["location"]["file"], c["location"]["line"])
                         for c in r["failed"][:5])
        self.violation(r["harness"], what, {
            "input": inp, "native_replay": conf, "failed_checks": r["failed"][:20],
            "contract_of": r["contract_of"], "verifier_output": out[-6000:],
        }, ok)

    def evidence(self):
        k = (self.kani or {}).get("results", [])
        v = self.verus or []
        nat = self.native or []
        obl = sum(r["obligations"] for r in k) + sum(u["obligations"] for u in v)
        dis = sum(r["discharged"] for r in k if r["status"] == "proved") + \
            sum(u["discharged"] for u in v if u["status"] == "proved")
        cov = {
            "obligations": obl, "discharged": dis,
            "checker_cmd": "cargo kani --lib --features %s (Kani 0.68 / CBMC 6.11 / CaDiCaL)%s" %
                           (self.feat, "; verus on extracted functions (Z3)" if v else ""),
            "trusted_base": self.cfg.get("trusted", []) + [
                "Kani's MIR to GOTO translation, CBMC and the SAT back end",
            ] + (["Verus, vstd and Z3", "the extractor /verif/verus/extract.py"] if v else []),
            "functions_under_contract": sorted({r["contract_of"] for r in k if r["contract_of"]} |
                                               {f for u in v for f in u.get("functions", [])}),
            "functions_with_obligations": sorted({f for r in k for f in r["functions"]}),
            "kani_harnesses": [{x: r[x] for x in ("harness", "status", "obligations", "discharged",
                                                  "covers", "contract_of", "time_s", "solver_s")} for r in k],
            "verus_units": [{x: u.get(x) for x in ("unit", "status", "obligations", "discharged",
                                                   "functions", "dropped", "time_s", "reason")} for u in v],
            "solver_s": round(sum(r["solver_s"] for r in k) + sum(u["time_s"] for u in v), 3),
            "bounded_stand_ins": [
                {"harness": r["harness"], "cases": r["ran"], "rejected": r["rejected"], "status": r["status"],
                 "bound": self.cfg.get("bounds", {}).get(r["harness"], "pseudo random inputs, count = cases")}
                for r in nat if r["kind"] == "bounded"],
            "native_contract_runs": {r["harness"]: r["ran"] for r in nat if r["kind"] == "kani"},
            "notes": self.notes,
        }
        level = self.cfg.get("level", "proof")
        if level != "proof":
            cov["explanation"] = self.cfg.get("explanation", "")
        ev = {"property": self.id, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
              "assumptions": self.cfg.get("assumptions", []),
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", self.id + ".json"), "w"), indent=1)

    def main(self):
        os.makedirs(BUILD, exist_ok=True)
        lock = os.path.join(PROOFS, "Cargo.lock")

        def nat():
            self.native_build()
            if self.native_bin:
                self.native_run()

        ts = [threading.Thread(target=f) for f in (nat, self.kani_run, self.verus_run)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        if self.native_bin is None:
            print(self.native_out[-6000:])
            print("the contract harnesses do not build against /repo")
            self.note("native harness build failed")
        self.decide()
        self.evidence()
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.id, k))
        nofi = []
        for path, with_input, what in self.violations:
            print("broken: %s" % what[:600])
        if self.violations:
            # the most concrete one decides the line
            best = sorted(self.violations, key=lambda x: not x[1])[0]
            print("VIOLATION property=%s replay=%s%s" % (
                self.id, best[0], "" if best[1] else " no-failing-input-found"), flush=True)
            return 1
        if self.native_bin is None and (self.kani is None or "results" not in self.kani):
            return 2
        k = (self.kani or {}).get("results", [])
        print("OK property=%s kani=%d/%d harnesses proved, verus=%d/%d units, bounded=%d, %.0f s" % (
            self.id, sum(r["status"] == "proved" for r in k), len(k),
            sum(u["status"] == "proved" for u in self.verus or []), len(self.verus or []),
            sum(r["kind"] == "bounded" for r in self.native or []), time.time() - self.t0))
        return 0


if __name__ == "__main__":
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    sys.exit(Check(sys.argv[1], tier if tier in ("quick", "thorough") else "quick").main())
