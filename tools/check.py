#!/usr/bin/env python3
"""Decides one property: generates behaviours of its Quint specifications, checks the specification's own invariants on
them, replays them into the real contracts (built from /repo's working tree) and compares after every step.

  tools/check.py C01                 quick or thorough by VERIF_TIER, seeded by VERIF_SEED
  tools/check.py --replay FILE       runs a saved counterexample again

Exit 0: held on everything explored. 1: VIOLATION line printed. 2: the check itself could not run.
"""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from plan import PLAN

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPLAY = os.path.join(VERIF, "target", "debug", "replay")
CPUS = min(8, os.cpu_count() or 4)


def die(why):
    print("ERROR:", why)
    sys.exit(2)


def env():
    e = dict(os.environ)
    out = subprocess.run(["bash", "-c", "source /opt/vp/env.sh >/dev/null 2>&1; env -0"], capture_output=True).stdout
    for kv in out.decode(errors="replace").split("\0"):
        if "=" in kv:
            k, v = kv.split("=", 1)
            e[k] = v
    e["CARGO_TARGET_DIR"] = os.path.join(VERIF, "target")
    for k in ("CARGO_INCREMENTAL", "CARGO_PROFILE_DEV_DEBUG", "RUSTFLAGS"):
        e.pop(k, None)
    return e


def build():
    t = time.time()
    p = subprocess.run(["cargo", "build", "--offline", "--locked", "-q"], cwd=os.path.join(VERIF, "harness"), env=env(),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        print(p.stdout[-4000:])
        die("the conformance harness does not build against /repo")
    return time.time() - t


def seed_of(*parts):
    return int(hashlib.sha256("/".join(map(str, parts)).encode()).hexdigest()[:8], 16)


def simulate(run, n, steps, seed, where, tag):
    """n behaviours of a specification as ITF traces, its invariant checked in every state."""
    cmd = ["quint", "run", "--backend=typescript", "--main", run["main"], "--step", run.get("go", "go"),
           "--max-samples", str(n), "--n-traces", str(n), "--max-steps", str(steps), "--seed", str(seed),
           "--out-itf", os.path.join(where, tag + "_{seq}.itf.json"), "--verbosity", "1"]
    if run.get("init"):
        cmd += ["--init", run["init"]]
    if run.get("invariant", "Safe"):
        cmd += ["--invariant", run.get("invariant", "Safe")]
    cmd.append(run["spec"] + ".qnt")
    p = subprocess.run(cmd, cwd=os.path.join(VERIF, "spec"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout


def explore(pid, runs, tier, seed, scratch):
    """Generates the behaviours of all runs, CPUS quint processes at a time."""
    jobs = []
    for ri, run in enumerate(runs):
        where = os.path.join(scratch, f"r{ri}")
        os.makedirs(where)
        run["dir"] = where
        n, steps = run["quick"] if tier == "quick" else run["thorough"]
        chunk = run.get("chunk", max(10, -(-n // CPUS) if tier == "quick" else 150))
        k = 0
        while n > 0:
            jobs.append((run, min(n, chunk), steps, seed_of(pid, ri, k, seed), where, f"t{k}"))
            n -= chunk
            k += 1
    with ThreadPoolExecutor(CPUS) as ex:
        results = list(ex.map(lambda j: simulate(*j), jobs))
    for j, (rc, out) in zip(jobs, results):
        if rc:
            print(out[-3000:])
            die(f"the specification {j[0]['main']} breaks its own invariant, or quint failed")


def model_check(mc):
    """Exhaustive check of a small instance; returns (states, transitions, text)."""
    d = tempfile.mkdtemp(prefix="mc_")
    try:
        cmd = ["quint", "verify", "--backend", mc.get("backend", "tlc"), "--main", mc["main"], "--invariant", mc["invariant"]]
        if mc.get("step"):
            cmd += ["--step", mc["step"]]
        if mc.get("init"):
            cmd += ["--init", mc["init"]]
        if mc.get("max_steps"):
            cmd += ["--max-steps", str(mc["max_steps"])]
        cmd.append(os.path.join(VERIF, "spec", mc["spec"] + ".qnt"))
        p = subprocess.run(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=mc.get("timeout", 600))
        m = re.search(r"([\d,]+) states generated.*?([\d,]+) distinct states found", p.stdout)
        n = [int(x.replace(",", "")) for x in m.groups()] if m else [0, 0]
        return p.returncode, n[1], n[0], p.stdout
    finally:
        shutil.rmtree(d, ignore_errors=True)


def replay(run, scratch, i):
    report = os.path.join(scratch, f"report{i}.json")
    cmd = [REPLAY, "--driver", run["driver"], "--traces", run["dir"], "--report", report, "--out", scratch, "--jobs", str(CPUS)]
    for k in ("ignore", "watch", "ops"):
        if run.get(k):
            cmd += ["--" + k, ",".join(run[k])]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        print(p.stdout[-3000:])
        die("replay failed")
    return json.load(open(report))


def known_findings():
    path = os.path.join(VERIF, "known_findings.json")
    return json.load(open(path)) if os.path.exists(path) else []


def matches(finding, pid, run, m):
    """A listed finding is one scripted behaviour: the run, the step's message, and exactly what the contracts show there."""
    if finding.get("kind") != "known" or finding["property"] != pid or finding["run"] != run.get("name"):
        return False
    got = {d["at"]: "refused" if d["at"].startswith("res.") and d["implementation"] != "ok" else d["implementation"] for d in m["differences"]}
    return finding["message"] == m["msg"] and finding["step"] == m["step"] and finding["shows"] == got


def save(pid, run, m, n):
    d = os.path.join(VERIF, "build", "replays", pid)
    os.makedirs(d, exist_ok=True)
    trace = os.path.join(d, f"{n}.itf.json")
    if os.path.exists(m["trace"]):
        shutil.copy(m["trace"], trace)
    path = os.path.join(d, f"{n}.json")
    json.dump({"property": pid, "specification": run["main"], "driver": run["driver"], "trace": trace,
               "filter": {k: run[k] for k in ("ignore", "watch", "ops") if run.get(k)},
               "step": m.get("step"), "message": m.get("msg"), "differences": m.get("differences"), "error": m.get("error"),
               "run_again": f"python3 {VERIF}/tools/check.py --replay {path}"}, open(path, "w"), indent=1)
    return path


def main():
    if sys.argv[1] == "--replay":
        r = json.load(open(sys.argv[2]))
        build()
        with tempfile.TemporaryDirectory(prefix="replay_") as d:
            shutil.copy(r["trace"], d)
            rep = replay({"driver": r["driver"], "dir": d, **r["filter"]}, d, 0)
        bad = rep["mismatches"] + rep["errors"]
        print(json.dumps(bad, indent=1)[:4000] if bad else "the behaviour is followed now")
        sys.exit(1 if bad else 0)

    pid = sys.argv[1]
    plan = PLAN[pid]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    runs = [dict(r) for r in plan["runs"]]
    scratch = tempfile.mkdtemp(prefix=f"check_{pid}_")
    violations, known, samples, reports = [], [], [], []
    states = transitions = 0
    exhaustive = []
    try:
        with ThreadPoolExecutor(2) as ex:
            b = ex.submit(build)
            explore(pid, runs, tier, seed, scratch)
            built = b.result()
        for i, run in enumerate(runs):
            rep = replay(run, scratch, i)
            reports.append((run, rep))
            for e in rep["errors"]:
                violations.append((run, {"trace": e["trace"], "msg": None, "step": None, "error": e["error"],
                                         "differences": [{"at": "error", "implementation": e["error"], "specification": "the contracts can be set up and driven"}]}))
            for m in rep["mismatches"]:
                f = next((f for f in known_findings() if matches(f, pid, run, m)), None)
                if f:
                    known.append(f)
                else:
                    violations.append((run, m))
        for mc in plan.get("model_check", []) if tier == "thorough" else [m for m in plan.get("model_check", []) if m.get("quick", True)]:
            rc, distinct, generated, text = model_check(mc)
            if rc:
                print(text[-3000:])
                die(f"model checking of {mc['main']} failed")
            states += distinct
            transitions += generated
            exhaustive.append({"instance": mc["main"], "invariant": mc["invariant"], "distinct_states": distinct, "states_generated": generated})

        paths = []
        for n, (run, m) in enumerate(violations[:5]):
            paths.append(save(pid, run, m, n))
        wall = time.time() - t0
        traces = sum(r["traces"] for _, r in reports)
        validated = sum(r["validated"] for _, r in reports)
        steps = sum(r["steps"] for _, r in reports)
        ops, rej = {}, {}
        for run, r in reports:
            for k, v in r["ops"].items():
                e = ops.setdefault(k, {"accepted": 0, "rejected": 0})
                e["accepted"] += v["accepted"]
                e["rejected"] += v["rejected"]
            for k, v in r["rejections"].items():
                rej[k] = rej.get(k, 0) + v
            samples += [{"specification": run["main"], **s} for s in r["samples"][:1]]
        level = plan.get("level", "exploration")
        cov = {
            "samples": samples,
            "traces": traces, "traces_validated_against_impl": validated,
            "traces_cut_short_outside_the_property": sum(r["out_of_scope"] for _, r in reports),
            "messages_by_kind": ops, "refusals_by_reason": rej, "build_s": round(built, 1),
        }
        if level == "model_checking":
            cov.update(states=states, transitions=transitions, exhaustive_instances=exhaustive, messages_replayed=steps)
        else:
            cov.update(
                evaluations=steps,
                distinct_nontrivial=sum(r["distinct_accepted"] for _, r in reports),
                rule="a case is one message executed on the real contracts in the state the behaviour led to, with every observed "
                     "quantity compared; it counts as distinct and non-trivial when the specification accepts it and no other case of "
                     "the run has the same message and the same resulting specification state (waiting excluded)")
            if exhaustive:
                cov.update(exhaustive_instances=exhaustive)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump({"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov,
                   "assumptions": plan.get("assumptions", []) + [
                       "cw-multi-test 1.2 stands in for the chain (bank, wasm), with a tokenfactory and before-send-hook model",
                       "contracts run natively, not as wasm; gas is not modelled"],
                   "wall_s": round(wall, 1), "violations": len(violations)},
                  open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
        for f in {json.dumps(f, sort_keys=True): f for f in known}.values():
            print(f"KNOWN-FINDING: property={pid} {f['what']}")
        print(f"{pid} {tier}: {traces} behaviours, {validated} followed to the end, {steps} messages, {len(violations)} violations, "
              f"{wall:.0f}s (build {built:.0f}s)")
        if violations:
            for run, m in violations[:3]:
                print("  ", run["main"], json.dumps(m.get("msg"))[:300], json.dumps(m["differences"][:3])[:600])
            print(f"VIOLATION property={pid} replay={paths[0]}")
            sys.exit(1)
        sys.exit(0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    try:
        main()
    except SystemExit:
        raise
    except BaseException as e:  # a tool failure is never a verdict
        import traceback
        traceback.print_exc()
        die(repr(e))
