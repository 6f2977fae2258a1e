"""Verus units: the functions listed in specs/<unit>.spec are extracted from the current source by xtract,
their contracts are spliced in, and Verus discharges them one by one against each other's contracts.

check(prop, repo, build, timeout) -> [{unit, obligations, discharged, functions, lemmas, solver_s, limits, failed, assumed, ...}]
"""
import glob, hashlib, json, os, re, shutil, subprocess, time

HERE = os.path.dirname(os.path.abspath(__file__))
XT = os.path.join(HERE, "xtract")
HEAD = """#![feature(allocator_api)]
#![allow(unused_imports, dead_code, unused_variables, unused_mut, unused_parens, unused_braces, non_snake_case)]
use vstd::prelude::*;
use vstd::pervasive::cloned;
use std::sync::Arc;
verus! {
pub mod prelude { use super::*;
"""
MID = "} pub mod body { use super::*; use super::prelude::*; //==BODY==\n"
TAIL = "} } fn main() {}\n"


def skeletons():
    """the control structures the proofs were written for (skeletons.json, rewritten by units.py --skeletons)"""
    p = os.path.join(HERE, "skeletons.json")
    return json.load(open(p)) if os.path.exists(p) else {}


class UnitError(Exception):
    pass


def sh(cmd, cwd, timeout):
    p = subprocess.Popen(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL,
                         text=True, errors="replace", start_new_session=True, env=dict(os.environ, CARGO_NET_OFFLINE="true"))
    try:
        o, e = p.communicate(timeout=max(5, timeout))
        return p.returncode, o, e
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return None, "", ""


def extractor():
    rc, o, e = sh(["cargo", "build", "--offline"], XT, 300)
    if rc != 0:
        raise UnitError("the extractor does not build:\n" + e[-3000:])
    return os.path.join(XT, "target", "debug", "xtract")


def units():
    return sorted(os.path.basename(p)[:-5] for p in glob.glob(os.path.join(HERE, "specs", "*.spec")))


def props_of(unit):
    r = set()
    for l in open(os.path.join(HERE, "specs", unit + ".spec")):
        if l.startswith("//@ fn"):
            m = re.search(r"\bprops (\S+)", l)
            if m:
                r |= set(m.group(1).split(","))
    return r


class Unit:
    def __init__(self, name, repo, build, deadline):
        self.name, self.repo, self.deadline = name, repo, deadline
        self.spec = os.path.join(HERE, "specs", name + ".spec")
        self.dir = os.path.join(build, "verus-" + name)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.solver = 0.0

    def extract(self, assume, smoke=False):
        """-> assembled file; self.fns [{label, start, end, props, file, index}], self.lost {index: [what]}"""
        body = os.path.join(self.dir, "body.rs")
        cmd = [self.xt, os.path.join(self.repo, "src"), self.spec, body]
        if assume:
            cmd += ["--assume", ",".join(map(str, sorted(assume)))]
        if smoke:
            cmd += ["--smoke"]
        rc, o, e = sh(cmd, self.dir, 60)
        if rc != 0:
            raise UnitError("the extractor failed: " + e[-1500:])
        prelude = open(os.path.join(HERE, "specs", "prelude.rs")).read()
        text = HEAD + prelude + MID
        off = text.count("\n")
        path = os.path.join(self.dir, self.name + ".rs")
        open(path, "w").write(text + open(body).read() + TAIL)
        self.fns, self.lost, self.gone = [], {}, []
        for l in o.splitlines():
            f = l.split("\t")
            if f[0] == "FN":
                self.fns.append({"label": f[1], "start": int(f[2]) + off, "end": int(f[3]) + off,
                                 "props": set(x for x in f[4].split(",") if x), "file": f[5], "index": int(f[7]),
                                 "skeleton": f[8] if len(f) > 8 else ""})
            elif f[0] == "LOST":
                if len(f) > 3:
                    self.lost.setdefault(int(f[3]), []).append(f[2])
                else:
                    self.gone.append((f[1], f[2]))
        self.text = open(path).read()
        return path

    def at(self, line):
        for f in self.fns:
            if f["start"] <= line <= f["end"]:
                return f
        return None

    def verus(self, path, extra=()):
        """-> (stage, verified, errors [(fn or None, message, rendered)])  stage: ok | compile | timeout"""
        cmd = ["verus", os.path.basename(path), "--crate-type=lib", "--triggers-mode", "silent", "--output-json",
               "--time-expanded", "--error-format=json", "--num-threads", "4"] + list(extra)
        rc, o, e = sh(cmd, self.dir, self.deadline - time.time())
        if rc is None:
            return "timeout", 0, []
        verified = nerr = 0
        vir = True
        i = o.find("{")
        if i >= 0:
            try:
                d = json.loads(o[i:])
                v = d.get("verification-results", {})
                verified, nerr = v.get("verified", 0), v.get("errors", 0)
                vir = v.get("encountered-vir-error", False)
                self.solver += d.get("times-ms", {}).get("smt", {}).get("smt-run", 0) / 1000.0
            except ValueError:
                pass
        errs = []
        for l in e.splitlines():
            if not l.startswith("{"):
                continue
            try:
                d = json.loads(l)
            except ValueError:
                continue
            if d.get("level") != "error" or "aborting due to" in d.get("message", ""):
                continue
            spans = sorted(d.get("spans", []), key=lambda s: not s.get("is_primary"))
            where = [self.at(s["line_start"]) for s in spans if s.get("file_name", "").endswith(self.name + ".rs")]
            # the failing function is the one that holds the point of the error, not the contract it points at
            prim = [self.at(s["line_start"]) for s in spans if s.get("is_primary") and s.get("file_name", "").endswith(self.name + ".rs")]
            fn = next((x for x in prim if x), None) or next((x for x in where if x), None)
            errs.append((fn, d.get("message", ""), d.get("rendered", "")))
        if vir or (rc != 0 and not nerr):
            return "compile", verified, errs
        return "ok", verified, errs

    def run(self, smoke):
        self.xt = extractor()
        limits, assumed_fns = [], {}
        path = self.extract([])
        for label, what in self.gone:
            limits.append("%s: %s" % (label, what))
        stage, verified, errs = "compile", 0, []
        for _ in range(8):
            stage, verified, errs = self.verus(path)
            if stage != "compile":
                break
            bad = {f["index"]: m for f, m, r in errs if f}
            bad = {k: v for k, v in bad.items() if k not in assumed_fns}
            if not bad:
                break
            assumed_fns.update(bad)
            path = self.extract(assumed_fns)
        if stage != "ok":
            m = "; ".join(m for _, m, _ in errs)[:300] or stage
            return {"status": "limit", "limits": limits + ["the unit is outside the verifier's reach: " + m], "failed": [], "bad": {f["index"] for f in self.fns}, "verified": 0}
        by = {f["index"]: f for f in self.fns}
        for k, m in assumed_fns.items():
            limits.append("%s: outside the verifier's reach (%s)" % (by[k]["label"], m[:160]))

        def fold(errs):
            d, raw = {}, []
            for f, m, r in errs:
                if f:
                    d.setdefault(f["index"], []).append((m, r))
                else:
                    raw.append((m, r))
            return d, raw
        d, raw = fold(errs)
        if d or raw:
            # once more with more resources and another seed: what is proved in either run is proved
            stage2, v2, errs2 = self.verus(path, ["--rlimit", "60", "--smt-option", "smt.random_seed=7"])
            if stage2 == "ok":
                d2, raw2 = fold(errs2)
                d = {k: v for k, v in d2.items() if k in d}
                raw = [x for x in raw2 if raw]
        failed, bad = [], set(assumed_fns)
        for k, ms in d.items():
            bad.add(k)
            f = by[k]
            if k in self.lost:
                limits.append("%s: the proof does not fit the changed code (%s)" % (f["label"], "; ".join(self.lost[k])[:160]))
            elif self.misfit(f, ms):
                limits.append("%s: the proof was written for another control structure of the function" % f["label"])
            elif any("rlimit" in m or "timed out" in m for m, _ in ms):
                limits.append("%s: resource limit of the solver" % f["label"])
            else:
                failed.append({"function": f["label"], "file": f["file"], "props": f["props"], "messages": [m for m, _ in ms],
                               "output": "\n".join(r for _, r in ms)})
        for m, r in raw:
            limits.append("a lemma is not accepted: %s" % (m[:160]))
        res = {"status": "ok", "limits": limits, "failed": failed, "bad": bad, "verified": verified}
        if smoke and not failed and not limits:
            # vacuity: with assert(false) in front, every function under contract has to fail
            p = self.extract(assumed_fns, smoke=True)
            st, _, errs = self.verus(p, ["--multiple-errors", "1"])
            if st == "ok":
                hit = {f["index"] for f, _, _ in errs if f}
                vac = [f["label"] for f in self.fns if f["index"] not in hit and f["index"] not in assumed_fns]
                if vac:
                    raise UnitError("vacuous contracts in %s: %s" % (self.name, ", ".join(vac)))
                res["vacuity"] = "assert(false) at the start of each of %d functions is refuted" % len(hit)
            self.extract(assumed_fns)
        return res

    def misfit(self, f, errs):
        """The function's control structure is not the one its proof was written for, and what fails is a step of that
        proof (an invariant, an assertion, a lemma), or there are loops or closures that have no contract."""
        base = skeletons().get(self.name, {}).get("%s@%s" % (f["label"], f["file"]))
        if base is None or f["skeleton"] in base:
            return False
        n = lambda s: sum(s.count(w + "{") for w in ("for", "while", "loop", "fn"))
        if all(n(f["skeleton"]) > n(b) for b in base):
            return True
        steps = ("invariant", "assertion failed", "decreases")
        return all(any(w in m for w in steps) or ("precondition" in m and "lemma_" in r) for m, r in errs)

    def assumptions(self):
        """names of what the unit takes on trust, read off the assembled text"""
        r = []
        ls = self.text.splitlines()
        ty = ""
        for i, l in enumerate(ls):
            m = re.match(r"\s*impl\b.*?(\w+)(?:<[^{]*>)?\s*\{?\s*$", l)
            if m:
                ty = m.group(1)
            m = re.search(r"axiom fn (\w+)", l) or re.search(r"assume_specification\s*(?:<[^\[]*>)?\s*\[\s*([^\]]+)\]", l) or re.search(r"uninterp spec fn (\w+)", l)
            if m:
                r.append(m.group(1).strip())
            if "verifier::external_body" in l or "verifier(external_body)" in l:
                for k in range(i + 1, min(i + 6, len(ls))):
                    m = re.search(r"\b(?:fn|struct|type) (\w+)", ls[k])
                    if m:
                        ind = len(ls[k]) - len(ls[k].lstrip())
                        r.append((ty + "::" if ind and ty else "") + m.group(1))
                        break
            if re.search(r"\badmit\(\)|\bassume\(", l):
                r.append("assume at line %d" % (i + 1))
        seen = []
        for x in r:
            if x not in seen:
                seen.append(x)
        return seen


def check(prop, repo, build, timeout, smoke=False, only=None):
    out = []
    deadline = time.time() + timeout
    for name in units():
        if only and name != only:
            continue
        if prop not in props_of(name):
            continue
        t = time.time()
        u = Unit(name, repo, build, deadline)
        r = u.run(smoke)
        mine = [f for f in u.fns if prop in f["props"]]
        ok = [f for f in mine if f["index"] not in r["bad"]]
        gone = [g for g in u.gone]
        out.append({
            "unit": name, "obligations": len(mine) + len(gone), "discharged": len(ok),
            "functions": ["%s (%s)" % (f["label"], f["file"]) for f in mine],
            "functions_in_unit": len(u.fns), "verified_items": r["verified"], "solver_s": round(u.solver, 2),
            "wall_s": round(time.time() - t, 1), "vacuity": r.get("vacuity", "not run in this tier"),
            "limits": r["limits"],
            # a failure of any function of the unit is a failure of the properties that function carries
            "failed": [f for f in r["failed"] if prop in f["props"]],
            "failed_elsewhere": [f["function"] for f in r["failed"] if prop not in f["props"]],
            "assumed": u.assumptions(),
        })
        for f in out[-1]["failed"]:
            f["props"] = sorted(f["props"])
    return out


if __name__ == "__main__":
    import sys
    if sys.argv[1] == "--skeletons":
        d = {}
        for n in units():
            u = Unit(n, "/repo", "/verif/build", 0)
            u.xt = extractor()
            u.extract([])
            for f in u.fns:
                d.setdefault(n, {}).setdefault("%s@%s" % (f["label"], f["file"]), []).append(f["skeleton"])
        json.dump(d, open(os.path.join(HERE, "skeletons.json"), "w"), indent=0, sort_keys=True)
        sys.exit(0)
    for x in check(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else "/repo", "/verif/build", 400, smoke="--smoke" in sys.argv):
        print(json.dumps(x, indent=1))
