#!/usr/bin/env python3
"""check.py <ID> [--tier quick|thorough] [--seed N]   run one check
check.py --replay <file>                             run a replay file again

exit 0  the property held on everything explored
exit 1  a line  VIOLATION property=<ID> replay=<path>
else    the check itself failed
"""
import concurrent.futures
import json
import os
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
WORKER = os.path.join(VERIF, "sim", "worker.py")
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True
LANES = 8


def env_for(hashseed):
    env = {k: v for k, v in os.environ.items() if not k.startswith("PYTHON")}
    env.update(PYTHONHASHSEED=str(hashseed), PYTHONDONTWRITEBYTECODE="1", PYTHONPYCACHEPREFIX="/nonexistent",
               PYTHONWARNINGS="ignore", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1",
               PYTHONUNBUFFERED="1")
    return env


def known_findings():
    out = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("KNOWN-FINDING "):
                # KNOWN-FINDING property=C01 sig=<signature> :: text
                head, _, text = line[len("KNOWN-FINDING "):].partition(" :: ")
                f = dict(p.split("=", 1) for p in head.split(" ", 1))
                out[(f["property"], f["sig"])] = text
    return out


def run_lane(pid, tier, seed, lane, total, scratch, wall, hs):
    out = os.path.join(scratch, f"lane{lane}.jsonl")
    err = os.path.join(scratch, f"lane{lane}.err")
    with open(err, "w") as e:
        try:
            p = subprocess.run([PY, WORKER, "lane", pid, tier, str(seed), str(lane), str(total), out, str(wall)],
                               cwd=scratch, env=env_for(hs), stdin=subprocess.DEVNULL, stdout=e, stderr=e,
                               timeout=wall + 330)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            rc = "timeout"
    lines = []
    if os.path.exists(out):
        for line in open(out):
            try:
                lines.append(json.loads(line))
            except ValueError:
                pass
    return lane, rc, lines, open(err, errors="replace").read()[-3000:]


def run_check(pid, tier, seed):
    import importlib
    import tempfile
    import shutil
    from sim.hashseed import hashseed as hs_of
    prop = importlib.import_module("props." + pid.lower()).PROP
    t0 = time.time()
    total = prop.runs[tier]
    par = min(LANES, os.cpu_count() or 1)
    wall = (480.0 if tier == "quick" else 3000.0) / -(-LANES // par)
    scratch = tempfile.mkdtemp(prefix="verif-sim-")
    try:
        with concurrent.futures.ThreadPoolExecutor(par) as ex:
            futs = [ex.submit(run_lane, pid, tier, seed, lane, total, scratch, wall, hs_of(seed, lane)) for lane in range(LANES)]
            results = [f.result() for f in futs]
        return report(prop, pid, tier, seed, total, results, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def report(prop, pid, tier, seed, total, results, scratch, t0):
    errors, violations, summaries = [], [], []
    for lane, rc, lines, err in results:
        for ln in lines:
            if ln["kind"] == "violation":
                violations.append(dict(ln, seed=seed, tier=tier))
            elif ln["kind"] == "error":
                errors.append(f"lane {lane} run {ln['index']}: {ln['error']}")
            elif ln["kind"] == "summary":
                summaries.append(ln)
        if rc != 0 and not any(ln["kind"] == "error" for ln in lines):
            errors.append(f"lane {lane} ended with {rc}: {err}")
    known = known_findings()
    fresh, seen_known = [], {}
    for v in violations:
        text = known.get((pid, v["sig"]))
        if text is not None:
            seen_known[v["sig"]] = text
        else:
            fresh.append(v)
    for (p, sig), text in known.items():
        if p == pid:
            print(f"KNOWN-FINDING: property={pid} {text}")
    extra = {}
    if hasattr(prop, "cross"):
        # comparisons between processes, made here from what the lanes reported
        more, extra = prop.cross(summaries, results)
        fresh += [dict(v, seed=seed, tier=tier) for v in more]
    code = 0
    if fresh:
        fresh.sort(key=lambda v: (len(json.dumps(v["plan"])), v["index"]))
        code = 1
        path, rec = finish_violation(pid, fresh[0], scratch)
        print(f"VIOLATION property={pid} replay={path}")
        print(f"  {rec['what']}: {rec['detail']}")
        print(f"  reproduced from the replay file: {rec.get('reproduced')}; {len(fresh)} distinct signature(s) in this run")
    elif errors:
        code = 2
        print("CHECK ERROR")
        for e in errors[:3]:
            print(e)
    runs = sum(s["agg"]["runs"] for s in summaries)
    if code == 0 and runs < total * 0.2:
        print(f"CHECK ERROR: only {runs} of {total} planned runs finished")
        code = 2
    write_evidence(prop, pid, tier, seed, summaries, len(fresh), total, t0, extra)
    if code == 0:
        print(f"{pid} held: {runs} simulated runs, {time.time() - t0:.1f} s")
    return code


def finish_violation(pid, rec, scratch):
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    path = os.path.join(VERIF, "replays", f"{pid}-s{rec['seed']}-i{rec['index']}.json")
    src = os.path.join(scratch, "v.json")
    dst = os.path.join(scratch, "m.json")
    json.dump(rec, open(src, "w"))
    out = dict(rec, reproduced=False)
    if rec.get("process_pair"):
        out["reproduced"] = True
    else:
        try:
            subprocess.run([PY, WORKER, "minimise", src, dst], cwd=scratch, env=env_for(rec["hashseed"]), timeout=240,
                           stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            if os.path.exists(dst):
                out = json.load(open(dst))
        except subprocess.TimeoutExpired:
            pass
        if out.get("reproduced"):
            json.dump(out, open(src, "w"))
            rc = subprocess.run([PY, WORKER, "replay", src], cwd=scratch, env=env_for(rec["hashseed"]), timeout=240,
                                stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode
            out["reproduced"] = rc == 1
        if not out.get("reproduced"):
            # state may have leaked between runs of the lane: replay the lane itself
            out = dict(rec, batch=True)
            json.dump(out, open(src, "w"))
            try:
                rc = subprocess.run([PY, WORKER, "batch", src], cwd=scratch, env=env_for(rec["hashseed"]), timeout=240,
                                    stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode
                out["reproduced"] = rc == 1
            except subprocess.TimeoutExpired:
                out["reproduced"] = False
    json.dump(out, open(path, "w"), indent=1)
    return path, out


def write_evidence(prop, pid, tier, seed, summaries, nviol, total, t0, extra):
    wall = time.time() - t0
    agg = dict(runs=0, ops=0, steps=0, switches=0, nontrivial=0, sim_time=0.0)
    stats, faults, labels, sigs, samples = {}, {}, {}, set(), []
    for s in summaries:
        a = s["agg"]
        for k in agg:
            agg[k] += a[k]
        for d, e in ((stats, a["stats"]), (faults, a["faults"]), (labels, a["labels"])):
            for k, n in e.items():
                d[k] = d.get(k, 0) + n
        sigs.update(s["sigs"])
        samples += s["samples"]
    cov = dict(
        evaluations=agg["runs"], distinct_nontrivial=len(sigs), rule=prop.rule,
        samples=samples[:4] or [{"note": "no non-trivial run finished"}],
        planned_runs=total, nontrivial_runs=agg["nontrivial"],
        runs_per_hour=round(agg["runs"] * 3600 / wall) if wall else 0,
        simulated_steps=agg["steps"], simulated_time_s=round(agg["sim_time"], 3),
        library_calls=agg["ops"], context_switches=agg["switches"],
        faults_injected=dict(sorted(faults.items())), counters=dict(sorted(stats.items())),
        catalogue_entries_exercised=len(labels), per_entry_runs_min=min(labels.values()) if labels else 0,
        lanes_truncated=sum(1 for s in summaries if s["truncated"]),
        distinct_measure=prop.measure,
        real_components=list(prop.real), simulated_components=list(prop.simulated))
    cov.update(extra)
    ev = dict(property=pid, tier=tier, seed=seed, level=prop.level, coverage=cov, wall_s=round(wall, 2),
              assumptions=list(prop.assumptions), violations=nviol)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", f".{pid}.tmp")
    json.dump(ev, open(tmp, "w"), indent=1)
    os.replace(tmp, os.path.join(VERIF, "evidence", f"{pid}.json"))


def main(argv):
    if argv and argv[0] == "--replay":
        rec = json.load(open(argv[1]))
        mode = "batch" if rec.get("batch") else "replay"
        p = subprocess.run([PY, WORKER, mode, os.path.abspath(argv[1])], env=env_for(rec["hashseed"]))
        if p.returncode == 1:
            print(f"VIOLATION property={rec['property']} replay={argv[1]}")
        return p.returncode
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    if "--seed" in argv:
        seed = int(argv[argv.index("--seed") + 1])
    return run_check(pid, tier, seed)


if __name__ == "__main__":
    try:
        sys.exit(main(sys.argv[1:]))
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        sys.exit(3)
