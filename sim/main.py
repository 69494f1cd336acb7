"""Entry point:  python -m sim.main C01 [quick|thorough]   |   --replay FILE   |   C01 --one INDEX"""
import argparse
import importlib
import json
import os
import shutil
import sys
import tempfile
import time
import warnings

warnings.simplefilter("ignore")
sys.dont_write_bytecode = False
sys.setrecursionlimit(5000)

from . import core, world
from .core import VERIF, dumps


def load_check(cid):
    mod = importlib.import_module("sim.checks." + cid.lower())
    return mod.CHECK


def scratch_base():
    base = tempfile.mkdtemp(prefix="verif-sim-")
    # the library's own temporary files live and die with the run
    tempfile.tempdir = os.environ["TMPDIR"] = os.path.join(base, "tmp")
    os.mkdir(tempfile.tempdir)
    return base


def do_replay(path, machine):
    with open(path) as f:
        doc = json.load(f)
    check = load_check(doc["property"])
    base = scratch_base()
    try:
        world.install()
        check.setup()
        r, log = core.replay_doc(doc, check, base)
    finally:
        shutil.rmtree(base, ignore_errors=True)
    out = {"status": r["status"], "kind": r["kind"], "msg": r["msg"], "digest": r["digest"]}
    if machine:
        print("REPLAY " + json.dumps(out))
        return 0
    for line in log:
        print(line)
    print(json.dumps(out, indent=1))
    if r["status"] == "violation":
        print("VIOLATION property=%s replay=%s" % (doc["property"], path))
        return 1
    return 0


def known_findings(cid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [e for e in json.load(f)["findings"] if e["property"] == cid and e["status"] == "open"]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("check", nargs="?")
    ap.add_argument("tier", nargs="?", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--replay")
    ap.add_argument("--machine", action="store_true")
    ap.add_argument("--one", type=int)
    ap.add_argument("--runs", type=int)
    ap.add_argument("--workers", type=int, default=0)
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--digests", help="comma separated indices: print their log digests (determinism check)")
    ap.add_argument("--no-evidence", action="store_true")
    a = ap.parse_args()
    if a.replay:
        return do_replay(a.replay, a.machine)
    t0 = time.time()
    check = load_check(a.check.upper())
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    base = scratch_base()
    try:
        world.install()
        check.setup()
        if a.digests:
            out = {}
            sd = os.path.join(base, "d")
            os.mkdir(sd)
            for i in [int(x) for x in a.digests.split(",")]:
                sc = check.generate(core.rng_for(a.seed, check.id, i), tier, i)
                out[i] = core.run_one(check, sc, sd)["digest"]
            print("DIGESTS " + json.dumps(out))
            return 0
        if a.one is not None:
            sd = os.path.join(base, "d")
            os.mkdir(sd)
            sc = check.generate(core.rng_for(a.seed, check.id, a.one), tier, a.one)
            log = []
            r = core.run_one(check, sc, sd, keep_log=log)
            print(json.dumps(sc, indent=1))
            for line in log:
                print(line[:4000])
            print(r["status"], r["kind"], r["msg"])
            return 0
        return run_check(check, tier, a, base, t0)
    finally:
        shutil.rmtree(base, ignore_errors=True)


def run_check(check, tier, a, base, t0):
    import subprocess
    cid = check.id
    runs = a.runs or check.runs[tier]
    limit = check.limit[tier] if hasattr(check, "limit") else {"quick": 300, "thorough": 3000}[tier]
    nwork = a.workers or min(8, os.cpu_count() or 1)
    rdir = os.path.join(VERIF, "replays")
    os.makedirs(rdir, exist_ok=True)
    rc = 0
    known_report = []

    # known findings first
    scratch = os.path.join(base, "k")
    os.mkdir(scratch)
    violations = []
    known = known_findings(cid)
    for e in known:
        r = core.forked(lambda: {k: v for k, v in core.run_one(check, dict(e["scenario"], finding=1), scratch).items() if k != "ctx"}, 120)
        if isinstance(r, dict) and r["status"] == "violation":
            if r["kind"] == e["kind"] and e.get("match", "") in (r["msg"] or ""):
                print("KNOWN-FINDING: property=%s %s" % (cid, e["what"]))
                known_report.append(e["id"])
            else:
                violations.append((-1, dict(e["scenario"], finding=1), r["kind"], r["msg"], []))

    total, viol, crashes = core.search(check, a.seed, tier, runs, limit, nwork, base)
    violations += viol
    for c in crashes:
        sys.stderr.write(c + "\n")

    # determinism self-check: the same seeds in a fresh interpreter with another hash seed and one worker
    redo = sorted(total["digests"])
    same = diff = 0
    if redo and not violations:
        env = dict(os.environ, PYTHONHASHSEED="4242")
        try:
            p = subprocess.run([sys.executable, "-m", "sim.main", cid, tier, "--seed", str(a.seed), "--digests",
                                ",".join(map(str, redo))], cwd=VERIF, env=env, stdout=subprocess.PIPE,
                               stderr=subprocess.PIPE, timeout=200)
            for line in p.stdout.decode().splitlines():
                if line.startswith("DIGESTS "):
                    got = json.loads(line[8:])
                    for i in redo:
                        if got.get(str(i)) == total["digests"][i]:
                            same += 1
                        else:
                            diff += 1
        except subprocess.TimeoutExpired:
            pass

    replay_info = None
    if violations:
        rc = 1
        idx, sc, kind, msg, prev = violations[0]
        sys.stderr.write("violation in run %s: %s: %s\n" % (idx, kind, msg))
        path = os.path.join(rdir, "%s-seed%d-run%s.json" % (cid, a.seed, idx))
        shr = os.path.join(base, "shrink")
        os.mkdir(shr)

        def write(doc):
            with open(path, "w") as f:
                json.dump(doc, f, indent=1, sort_keys=True)
        doc = {"property": cid, "seed": a.seed, "run": idx, "kind": kind, "message": msg, "scenario": sc, "prelude": [],
               "original": sc}
        write(doc)
        r = core.fresh_replay(path)
        repro = bool(r) and r["status"] == "violation"
        if repro:
            kind = r["kind"]
            doc["kind"] = kind
            res = core.forked(lambda: core.shrink(check, sc, kind, shr, check.shrink_limit if hasattr(check, "shrink_limit") else 60), 240)
            if res and res[0] != "__crash__":
                doc["scenario"] = res[0]
                doc["shrink_tries"] = res[1]
                write(doc)
                r2 = core.fresh_replay(path)
                if r2 and r2["status"] == "violation" and r2["kind"] == kind:
                    r = r2
                else:
                    doc["scenario"] = sc
                    write(doc)
                    r = core.fresh_replay(path)
        else:
            # depends on what the process did before: keep the shortest prelude of earlier runs that reproduces it
            t_end = time.time() + 120
            for k in (1, 4, 16, 64, 256, len(prev)):
                if k > len(prev) and k != len(prev) or time.time() > t_end:
                    continue
                pre = [check.generate(core.rng_for(a.seed, cid, i), tier, i) for i in prev[-k:]]
                doc["prelude"] = pre
                write(doc)
                r = core.fresh_replay(path)
                if r and r["status"] == "violation":
                    repro = True
                    break
            if repro:
                while len(doc["prelude"]) > 1 and time.time() < t_end:
                    for cut in range(len(doc["prelude"])):
                        cand = dict(doc, prelude=doc["prelude"][:cut] + doc["prelude"][cut + 1:])
                        write(cand)
                        r2 = core.fresh_replay(path)
                        if r2 and r2["status"] == "violation":
                            doc, r = cand, r2
                            break
                        if time.time() > t_end:
                            break
                    else:
                        break
                write(doc)
        if repro and r:
            doc["message"] = r["msg"]
            doc["digest"] = r["digest"]
            r3 = core.fresh_replay(path, hashseed="77")
            doc["replay_exact"] = bool(r3) and r3["digest"] == r["digest"]
        else:
            doc["message"] = msg
            doc["note"] = "did not recur when replayed alone in a fresh process; depends on process history"
        write(doc)
        replay_info = {"file": path, "reproduced": repro, "exact": doc.get("replay_exact")}
        print("violation of %s (%s): %s" % (cid, doc["kind"], doc["message"]))
        print("VIOLATION property=%s replay=%s" % (cid, path))
    elif crashes and total["runs"] < runs // 2:
        sys.stderr.write("harness failure\n")
        rc = 2

    wall = time.time() - t0
    cov = {
        "evaluations": total["runs"],
        "distinct_nontrivial": len(total["sigs"]),
        "rule": check.rule,
        "samples": total["sample"][:2],
        "seeds": "VERIF_SEED=%d, run indices 0..%d" % (a.seed, runs - 1),
        "runs_per_hour": int(total["runs"] / max(total["wall"], 1e-3) * 3600),
        "simulated_time": "the library has no clock or timer; progress is counted in storage operations and scheduler steps (see counters)",
        "counters": total["stats"],
        "faults_injected": total["faults"],
        "invalid_scenarios": total["invalid"],
        "nontrivial_runs": total["nontrivial"],
        "state_measure": check.measure,
        "real_components": check.real,
        "stubbed_components": check.stub,
        "determinism_recheck": {"runs": same + diff, "identical": same, "different": diff,
                                "how": "same seeds, fresh interpreter, other PYTHONHASHSEED, one worker; full event log digest"},
        "known_findings_confirmed": known_report,
        "workers": nwork,
    }
    if total.get("timed_out"):
        cov["stopped_early"] = "time limit reached before all run indices were executed"
    if replay_info:
        cov["replay"] = replay_info
    ev = {"property": cid, "tier": tier, "seed": a.seed, "level": check.level, "coverage": cov,
          "assumptions": check.assumptions, "wall_s": round(wall, 2), "violations": len(violations)}
    if not a.no_evidence:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", cid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, sort_keys=True)
    print("%s %s: %d runs (%d non-trivial, %d distinct, %d invalid) in %.1fs, faults %s, determinism %d/%d, rc=%d" % (
        cid, tier, total["runs"], total["nontrivial"], len(total["sigs"]), total["invalid"], wall,
        dumps(total["faults"]), same, same + diff, rc))
    if total.get("invalid_msg"):
        print("  (an invalid scenario: %s)" % total["invalid_msg"])
    return rc


if __name__ == "__main__":
    sys.exit(main())
