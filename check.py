#!/usr/bin/env python3
"""check.py ID : decides property ID on /repo's current working tree.

 1. builds the contract crate vh/ against /repo's source;
 2. Kani discharges every contract harness of the property (symbolic, complete per instance);
 3. Verus discharges the contracts spliced onto the functions extracted from /repo's source (units);
 4. the same contracts run concretely on the real code: bounded stand-in for what is not proved,
    and the search for a failing input when an obligation fails.

exit 0: held; exit 1 + "VIOLATION property=ID replay=PATH": broken; anything else: error of the check.
"""
import json, os, re, subprocess, sys, time, resource, threading

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
VH = os.path.join(ROOT, "vh")
BUILD = os.path.join(ROOT, "build")
BIN = os.path.join(VH, "target", "debug", "vh")
sys.path.insert(0, os.path.join(ROOT, "verus"))
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", RUST_BACKTRACE="0")
T0 = time.time()


def say(*a):
    print(*a, flush=True)


def limit_mem(gb):
    def f():
        resource.setrlimit(resource.RLIMIT_AS, (gb << 30, gb << 30))
    return f


def run(cmd, timeout, cwd=VH, gb=None, env=ENV):
    """-> (rc or None on timeout, output)"""
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         stdin=subprocess.DEVNULL, text=True, errors="replace", start_new_session=True,
                         preexec_fn=limit_mem(gb) if gb else None)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        out, _ = p.communicate()
        return None, out


class CheckError(Exception):
    pass


# ------------------------------------------------------------------------------------------ build

def build():
    rc, out = run(["cargo", "build", "--offline", "--features", "async"], 600)
    if rc != 0:
        raise CheckError("the contract crate does not build against /repo:\n" + out[-4000:])


def sections(prop):
    rc, out = run([BIN, "list"], 60)
    r = []
    for l in out.splitlines():
        f = l.split()
        if len(f) == 3 and f[0] == prop:
            r.append((f[1], f[2] == "kani"))
    return r


# ------------------------------------------------------------------------------------------- Kani

LIMIT_PAT = re.compile(r"unwinding assertion|is not currently supported by Kani|unsupported|recursion unwinding", re.I)


def kani_run(prop, names, timeout, jobs=8):
    """-> {harness: {status: ok|failed|limit, failed:[..], checks:int, secs:float}}, tail of the log"""
    mod = prop.lower()
    res = {n: {"status": "limit", "failed": ["no result"], "checks": 0, "secs": 0.0} for n in names}
    if not names:
        return res, ""
    cmd = ["cargo", "kani", "--output-format", "terse", "-j", str(jobs), "-Z", "restrict-vtable",
           "-Z", "unstable-options", "--harness-timeout", "%ds" % max(60, timeout // 2), "--exact"]
    for n in names:
        cmd += ["--harness", "%s::proofs::%s" % (mod, n)]
    rc, out = run(cmd, timeout, gb=28)
    cur, on = {}, None
    for l in out.splitlines():
        m = re.match(r"Thread (\d+): (.*)", l) or re.match(r"Thread (\d+):()\s*$", l)
        t = "0"
        if m:
            t, l = m.group(1), m.group(2)
            on = t
        m = re.match(r"Checking harness (\S+?)\.\.\.", l)
        if m:
            cur[on] = m.group(1).split("::")[-1]
            continue
        h = cur.get(on)
        if h not in res:
            continue
        d = res[h]
        m = re.match(r"\s*\*\* (\d+) of (\d+) failed", l)
        if m:
            d["checks"] = int(m.group(2))
            d["failed"] = []
        m = re.match(r"\s*\*\* (\d+) of (\d+) cover properties satisfied", l)
        if m:
            d["covered"] = m.group(1) == m.group(2)
        m = re.match(r"Failed Checks: (.*)", l)
        if m:
            d["failed"].append(m.group(1))
        m = re.match(r"Verification Time: ([\d.]+)s", l)
        if m:
            d["secs"] = float(m.group(1))
        if l.startswith("VERIFICATION:- SUCCESSFUL"):
            d["status"] = "ok" if d.get("covered") else "vacuous"
        elif l.startswith("VERIFICATION:- FAILED"):
            bad = [f for f in d["failed"] if not LIMIT_PAT.search(f)]
            d["status"] = "failed" if bad and len(bad) == len(d["failed"]) else "limit"
    return res, out


def kani_counterexamples(prop, name, timeout):
    cmd = ["cargo", "kani", "--output-format", "terse", "-Z", "restrict-vtable", "-Z", "concrete-playback",
           "--concrete-playback=print", "--exact", "--harness", "%s::proofs::%s" % (prop.lower(), name)]
    rc, out = run(cmd, timeout, gb=28)
    r = []
    for blk in re.findall(r"let concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\n    \];", out, re.S):
        vals = []
        for v in re.findall(r"vec!\[([\d, ]*)\]", blk):
            bs = [int(x) for x in v.split(",") if x.strip()]
            vals.append(int.from_bytes(bytes(bs), "little"))
        r.append(vals)
    return r, out


# --------------------------------------------------------------------------------------- concrete

def concrete(prop, seed, secs, exh, only=None, tag="run", workers=4):
    """-> (list of section reports, failures); one worker enumerates first, the others draw at random only"""
    if prop in ("C23", "C24"):  # these start threads themselves
        workers = min(workers, 2)
    res = [None] * workers

    def job(k):
        try:
            res[k] = concrete_one(prop, seed + 1000 * k, secs, exh if k == 0 else 0, only, "%s%d" % (tag, k))
        except Exception as e:
            res[k] = e
    ts = [threading.Thread(target=job, args=(k,)) for k in range(workers)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    for r in res:
        if isinstance(r, Exception):
            raise r
    total = res[0][0]
    by = {s["name"]: s for s in total}
    seen = {f.get("section") for f in res[0][1]}
    fails = list(res[0][1])
    for ss, ff in res[1:]:
        for s in ss:
            t = by.get(s["name"])
            if t is None:
                total.append(s)
                continue
            t["cases"] += s["cases"]
            t["distinct"] = t["distinct"] if t["exhausted"] else t["distinct"] + s["distinct"]
            t["failure"] = t.get("failure") or s.get("failure")
        for f in ff:
            if f.get("section") not in seen:
                seen.add(f.get("section"))
                fails.append(f)
    return total, fails


# Contracts of other properties that a property's statement covers as well; run concretely.
ALSO = {
    "C05": "C16.monoid C07.combine C08.combine",
    "C07": "C22.choice",
    "C08": "C21.traverse C21.with_error_validated C21.result_ext_validated C15.validated_conv C15.validated_many "
           "C15.result_validated_iso C20.bifunctor_validated C22.validated C18.accumulate C23.validated",
    "C13": "C19.io C23.io_new_async C23.io_run_async",
    "C14": "C15.lawful",
    "C15": "C21.result_ext C21.result_ext_validated C08.from_parts C08.from_many C14.iso_compose",
    "C17": "C03.folds",
    "C18": "C10.tries C10.t_tries C11.tries C22.recover C22.error_mapper C21.with_error",
    "C19": "C24.shared C24.same_key",
    "C21": "C08.bulk C05.lists C18.accumulate",
    "C22": "C08.recover C13.recovering",
    "C24": "C19.memo C19.memo_clash C19.memo_many",
}


def concrete_one(prop, seed, secs, exh, only, tag):
    os.makedirs(BUILD, exist_ok=True)
    out = os.path.join(BUILD, "%s.%s.json" % (prop, tag))
    trace = os.path.join(BUILD, "%s.%s.trace" % (prop, tag))
    for f in (out, trace):
        if os.path.exists(f):
            os.remove(f)
    cmd = [BIN, "run", prop, str(seed), str(secs), str(exh), out]
    if only:
        cmd += ["--only", ",".join(only)]
    elif prop in ALSO:
        cmd += ["--also", ALSO[prop].replace(" ", ",")]
    rc, log = run(cmd, secs * 3 + 120, gb=24)
    if rc in (0, 1) and os.path.exists(out):
        secs_ = json.load(open(out))["sections"]
        return secs_, [s["failure"] for s in secs_ if s.get("failure")]
    # abnormal end (abort, memory corruption, ...): once more with a trace of the case
    rc2, log2 = run(cmd + ["--trace", trace], secs * 3 + 120, gb=24)
    if rc2 in (0, 1) and os.path.exists(out):
        secs_ = json.load(open(out))["sections"]
        return secs_, [s["failure"] for s in secs_ if s.get("failure")]
    if rc2 is not None and os.path.exists(trace):
        try:
            t = json.load(open(trace))
        except ValueError:
            t = {}
        if t:
            t["kind"] = "random" if t.get("random", "0") != "0" else "concrete"
            t["choices"] = t.get("follow", [])
            t["message"] = "the process ended abnormally (status %s): %s" % (rc2, log2[-600:])
            return [{"name": t["section"], "cases": 0, "distinct": 0, "exhausted": False, "failure": t}], [t]
    raise CheckError("the concrete run gave no result (status %s)\n%s" % (rc2, log2[-2000:]))


def still_fails(path):
    rc, out = run([BIN, "replay", path], 90, gb=24)
    return rc != 0, out


# ------------------------------------------------------------------------------------------- main

def known():
    r = []
    p = os.path.join(ROOT, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) section=(\S+) message=(.*)", l.strip())
            if m:
                r.append(m.groups())
    return r


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    thorough = tier == "thorough"
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
    for f in os.listdir(os.path.join(ROOT, "replays")):
        if f.startswith(prop + "-"):
            os.remove(os.path.join(ROOT, "replays", f))
    nrep = [0]

    def replay_file(d):
        nrep[0] += 1
        p = os.path.join(ROOT, "replays", "%s-%d.json" % (prop, nrep[0]))
        json.dump(d, open(p, "w"), indent=1)
        return p

    build()
    secs = sections(prop)
    if not secs:
        raise CheckError("no contract for " + prop)
    proofs = [n for n, k in secs if k]
    violations, findings, notes = [], [], []

    def concrete_failure(f):
        for (p, s, m) in known():
            if p == prop and f.get("section") == s and m in f.get("message", ""):
                findings.append("%s: %s" % (s, m))
                return
        violations.append((replay_file(f), "", "%s: %s" % (f.get("section"), f.get("message"))))

    # Verus runs beside Kani and the concrete search
    vres = {}

    def verus_job():
        try:
            import units
            vres["r"] = units.check(prop, REPO, BUILD, 400, smoke=thorough)
        except Exception as e:  # a defect of the machinery, reported below
            import traceback
            vres["err"] = traceback.format_exc()

    have_verus = os.path.exists(os.path.join(ROOT, "verus", "units.py"))
    vt = threading.Thread(target=verus_job)
    if have_verus:
        vt.start()

    t = time.time()
    csecs, fails = concrete(prop, seed, (240 if thorough else 25) + len(ALSO.get(prop, "").split()), (400000 if thorough else 20000))
    conc_s = time.time() - t
    for f in fails:
        concrete_failure(f)

    t = time.time()
    kres, klog = kani_run(prop, proofs, 300)
    kani_s = time.time() - t
    if have_verus:
        vt.join()
    units_r = vres.get("r", [])
    if "err" in vres:
        raise CheckError(vres["err"])

    undischarged = []
    if not violations:
        for n, d in kres.items():
            if d["status"] == "ok":
                continue
            if d["status"] == "vacuous":
                raise CheckError("the end of contract %s is unreachable: vacuous" % n)
            if d["status"] == "limit":
                undischarged.append("kani %s: tool limit (%s)" % (n, "; ".join(d["failed"])[:200]))
                continue
            # the verifier's counterexample, replayed on the real code
            done = False
            cexs, clog = kani_counterexamples(prop, n, 200)
            for vals in cexs:
                p = replay_file({"kind": "kani", "property": prop, "section": n, "choices": vals,
                                 "message": "; ".join(d["failed"])})
                bad, out = still_fails(p)
                if bad:
                    violations.append((p, "", "%s: %s (counterexample of the verifier replayed: %s)"
                                       % (n, "; ".join(d["failed"]), out.strip()[-300:])))
                    done = True
                    break
                os.remove(p)
            if not done:
                _, fl = concrete(prop, seed + 1, 30, 200000, only=[n], tag="search")
                for f in fl:
                    concrete_failure(f)
                    done = True
            if not done:
                p = replay_file({"kind": "obligation", "property": prop, "section": n, "obligation": d["failed"],
                                 "back_end": "kani", "output": clog[-6000:]})
                violations.append((p, " no-failing-input-found", "%s: %s" % (n, "; ".join(d["failed"]))))
            break
    searched = False
    if not violations and (undischarged or any(u["limits"] for u in units_r)):
        # something of the changed code is out of the verifiers' reach: search longer
        searched = True
        _, fl = concrete(prop, seed + 2, 60, 50000, tag="search", workers=6)
        for f in fl:
            concrete_failure(f)
    if not violations:
        for u in units_r:
            for o in u["failed"]:
                if not searched:
                    searched = True
                    _, fl = concrete(prop, seed + 2, 90, 400000, tag="search")
                    for f in fl:
                        concrete_failure(f)
                if violations:
                    break
                p = replay_file({"kind": "obligation", "property": prop, "section": u["unit"],
                                 "obligation": o["function"], "back_end": "verus", "output": o["output"][-6000:]})
                violations.append((p, " no-failing-input-found", "%s: %s" % (u["unit"], o["function"])))
            for f in u["failed_elsewhere"]:
                undischarged.append("verus %s: %s fails its contract (reported by the properties it carries)" % (u["unit"], f))
            for l in u["limits"]:
                undischarged.append("verus %s: %s" % (u["unit"], l))

    # ------------------------------------------------------------------------------- evidence
    kok = [n for n, d in kres.items() if d["status"] == "ok"]
    v_total = sum(u["obligations"] for u in units_r)
    v_ok = sum(u["discharged"] for u in units_r)
    bounded = [s for s in csecs if not s.get("kani")]
    obligations, discharged = len(kres) + v_total, len(kok) + v_ok
    docs = harness_docs(prop)
    assumptions = ["harness instances: element types are u8 (or small structs over it); the verified functions are generic "
                   "and parametric in them, so other element types are covered by parametricity, which is not itself proved",
                   "Kani/CBMC: rustc MIR semantics as modelled by Kani 0.68, termination not proved, unwinding assertions on"]
    trusted = ["Kani 0.68 / CBMC / CaDiCaL", "rustc and the standard library as compiled by Kani"]
    if units_r:
        trusted += ["Verus 0.2026.09.13 and its z3", "the extractor verus/xtract (what it rewrites and drops is listed in DESIGN.md)"]
        for u in units_r:
            trusted.append("assumed contracts in %s: %s" % (u["unit"], ", ".join(u["assumed"])))
    cov = {
        "obligations": obligations, "discharged": discharged,
        "checker_cmd": "python3 /verif/verus/units.py %s; cd /verif/vh && cargo kani -Z restrict-vtable --harness %s::proofs" % (prop, prop.lower()),
        "trusted_base": trusted,
        "kani": {"harnesses": len(kres), "discharged": len(kok), "checks": sum(d["checks"] for d in kres.values()),
                 "solver_s": round(sum(d["secs"] for d in kres.values()), 2), "wall_s": round(kani_s, 1),
                 "contracts": {n: {"checks": d["checks"], "status": d["status"], "secs": d["secs"],
                                   "contract": docs.get(n, "")} for n, d in kres.items()}},
        "verus": [{k: u[k] for k in ("unit", "obligations", "discharged", "functions", "functions_in_unit", "verified_items", "solver_s",
                                     "wall_s", "vacuity", "limits")} for u in units_r],
        "undischarged": undischarged,
        "bounded": {"note": "the same contracts run on concrete inputs; never counted as proved",
                    "only_bounded": {s["name"]: docs.get(s["name"], "") for s in bounded}, "wall_s": round(conc_s, 1)},
        "evaluations": sum(s["cases"] for s in csecs),
        "distinct_nontrivial": sum(s["distinct"] for s in csecs),
        "rule": "each case is one run of a contract on inputs drawn by depth-first enumeration of the choice tree and then at random; "
                "distinct counts different recorded choice sequences (summed over four workers with different seeds)",
        "samples": [{"section": s["name"], "cases": s["cases"], "exhausted": s["exhausted"], "choices": (s.get("samples") or [[]])[-1][:40]}
                    for s in csecs][:12],
    }
    level = "proof" if obligations else "exploration"
    if not obligations:
        for k in ("obligations", "discharged", "checker_cmd", "trusted_base"):
            cov.pop(k)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": assumptions,
          "wall_s": round(time.time() - T0, 1), "violations": len(violations)}
    json.dump(ev, open(os.path.join(ROOT, "evidence", prop + ".json"), "w"), indent=1)

    for f in sorted(set(findings)):
        say("KNOWN-FINDING: property=%s %s" % (prop, f))
    for u in undischarged:
        say("undischarged (bounded stand-in passed): " + u)
    for p, suffix, why in violations:
        say("reason: " + why.replace("\n", " ")[:600])
        say("VIOLATION property=%s replay=%s%s" % (prop, p, suffix))
    if violations:
        return 1
    say("%s holds: %d of %d obligations discharged (%d kani harnesses with %d checks, %d verus), %d concrete cases, %.0f s"
        % (prop, discharged, obligations, len(kok), sum(d["checks"] for d in kres.values()), v_ok,
           cov["evaluations"], time.time() - T0))
    return 0


def harness_docs(prop):
    """the contract text (doc comment) of each harness"""
    p = os.path.join(VH, "src", prop.lower() + ".rs")
    d = {}
    if os.path.exists(p):
        for m in re.finditer(r"((?:^\s*///.*\n)+)\s*(?:#\[.*\]\s*\n\s*)*(?:pub )?fn (\w+)", open(p).read(), re.M):
            d[m.group(2)] = " ".join(l.strip().lstrip("/").strip() for l in m.group(1).strip().splitlines())
    return d


if __name__ == "__main__":
    try:
        sys.exit(main())
    except CheckError as e:
        say("ERROR: " + str(e))
        sys.exit(2)
