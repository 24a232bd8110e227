"""Driver: python -m vsim.check <property id> [--runs N] [--shards K] ..."""
import argparse
import importlib
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile

from . import seams

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(ROOT, "evidence")
KNOWN = os.path.join(ROOT, "known_findings.json")


def load(pid):
    seams.install()
    return importlib.import_module("vsim.props." + pid.lower())


def run_seed(base, i):
    return base * 1_000_003 + i


def shard(pid, base, idxs, deadline_s):
    """Run the given indices; JSON lines on stdout."""
    from . import core
    prop = load(pid)
    tier = os.environ.get("VERIF_TIER", "quick")
    t0 = seams.real_perf()
    agg = {"runs": 0, "ops": 0, "raised": 0, "samples": 0, "fired": {}, "sim_s": 0.0,
           "pools": 0, "procs": 0, "switches": 0, "probes": {}, "kinds": {},
           "max_log_e": 0.0, "scheds": [], "nontrivial": 0, "stopped": False,
           "hashes": [], "samples_spec": []}
    viol = None
    best = os.environ.get("VSIM_BEST")

    def beaten(i):
        """Has another shard found a violation in an earlier run?"""
        if not best:
            return False
        try:
            return any(int(x) < i for x in os.listdir(best))
        except OSError:
            return False
    for i in idxs:
        if beaten(i):
            break
        if seams.real_perf() - t0 > deadline_s:
            agg["stopped"] = True
            break
        spec = prop.gen(random.Random(f"{pid}/{run_seed(base, i)}"), tier, i)
        spec.update(prop=pid, seed=run_seed(base, i))
        t1 = seams.real_perf()
        r = core.execute(prop, spec)
        secs = seams.real_perf() - t1
        agg["runs"] += 1
        st = r["stats"]
        for k in ("ops", "raised", "samples"):
            agg[k] += st[k]
        for src, dst in ((r["fired"], "fired"), (r["probes"], "probes"),
                         (st["kinds"], "kinds")):
            for k, v in src.items():
                agg[dst][k] = agg[dst].get(k, 0) + v
        for k in ("sim_s", "pools", "procs", "switches"):
            agg[k] += r[k]
        agg["max_log_e"] = max(agg["max_log_e"], st["max_log_e"])
        agg["hashes"].append((i, r["hash"]))
        if st["nontrivial"]:
            agg["scheds"].append(r["hash"][:16])
        if len(agg["samples_spec"]) < 2:
            agg["samples_spec"].append({"spec": spec, "events": r["events"][:12]})
        if r["violation"]:
            if r["probes"].get("hang_suspect"):
                spec["careful"] = True
            viol = {"spec": spec, "violation": r["violation"], "index": i,
                    "hash": r["hash"], "secs": secs}
            if best:
                open(os.path.join(best, str(i)), "w").close()
            break
    agg["wall"] = seams.real_perf() - t0
    print("RESULT " + json.dumps({"agg": agg, "viol": viol}, default=str))


def replay(path, quiet=False):
    from . import core
    with open(path) as f:
        d = json.load(f)
    prop = load(d["property"])
    r = core.execute(prop, d["spec"])
    if not quiet:
        for e in r["events"]:
            print("  ", e)
        print("expected:", d["violation"])
        print("got     :", r["violation"])
        print("hash    :", d["hash"], r["hash"], d["hash"] == r["hash"])
    print("REPLAY " + json.dumps({"violation": r["violation"], "hash": r["hash"]}))
    return 1 if r["violation"] else 0


def shrink_cmd(path):
    """Minimise the spec in `path` (written by the parent), in place."""
    from . import core
    with open(path) as f:
        d = json.load(f)
    prop = load(d["property"])
    spec, tries = core.minimise(prop, d["spec"], d["violation"]["cls"],
                                seams.real_perf() + d.get("seconds", 60))
    r = core.execute(prop, spec)
    if not r["violation"]:
        spec = d["original"]
        r = core.execute(prop, spec)
    d.update(spec=spec, violation=r["violation"] or d["violation"], hash=r["hash"],
             events=r["events"], shrink_tries=tries, fired=r["fired"])
    with open(path, "w") as f:
        json.dump(d, f, indent=1, default=str)
    return 0


def known_match(pid, v):
    try:
        with open(KNOWN) as f:
            kf = json.load(f)
    except FileNotFoundError:
        return None
    for e in kf.get("findings", []):
        if e["property"] == pid and e["match"] in v["msg"]:
            return e
    return None


def wait_for(procs, best, grace=30.0):
    """Wait for the shards; once one found a violation, give the others a while."""
    first = None
    while any(p.poll() is None for p in procs):
        if first is None and os.listdir(best):
            first = seams.real_perf()
        if first is not None and seams.real_perf() - first > grace and any(
                p.poll() == 0 for p in procs):
            break
        seams.real_sleep_fn(0.05)
    killed = set()
    for j, p in enumerate(procs):
        if p.poll() is None:
            p.kill()
            p.wait()
            killed.add(j)
    return killed


def env():
    e = dict(os.environ)
    e.update(PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED=e.get("VSIM_HASHSEED", "0"),
             OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", MKL_NUM_THREADS="1",
             PYTHONPATH=ROOT)
    return e


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid", nargs="?")
    ap.add_argument("--runs", type=int)
    ap.add_argument("--shards", type=int, default=8)
    ap.add_argument("--shard")
    ap.add_argument("--replay")
    ap.add_argument("--shrink")
    ap.add_argument("--hashes", action="store_true", help="print the log hash of every run")
    ap.add_argument("--no-evidence", action="store_true")
    ap.add_argument("--deadline", type=float)
    a = ap.parse_args()
    if a.replay:
        return replay(a.replay)
    if a.shrink:
        return shrink_cmd(a.shrink)
    pid = a.pid
    tier = os.environ.get("VERIF_TIER", "quick")
    base = int(os.environ.get("VERIF_SEED", "1"))
    if a.shard:
        d = json.loads(a.shard)
        shard(pid, base, range(d["start"], d["stop"], d["step"]), d["deadline"])
        return 0

    t0 = seams.real_perf()
    sys.path.insert(0, ROOT)
    prop = load(pid)
    runs = a.runs or prop.RUNS[tier]
    deadline = a.deadline or (420 if tier == "quick" else 3 * 3600)
    k = min(a.shards, runs)
    procs = []
    best, outs = tempfile.mkdtemp(prefix="vsim"), tempfile.mkdtemp(prefix="vsim")
    for j in range(k):
        d = {"start": j, "stop": runs, "step": k, "deadline": deadline}
        procs.append(subprocess.Popen(
            [sys.executable, "-m", "vsim.check", pid, "--shard", json.dumps(d)],
            cwd=ROOT, env=dict(env(), VSIM_BEST=best),
            stdout=open(os.path.join(outs, f"{j}.out"), "w"),
            stderr=open(os.path.join(outs, f"{j}.err"), "w")))
    res = []
    harness_error = False
    killed = wait_for(procs, best)
    for j, p in enumerate(procs):
        if j in killed:
            continue
        with open(os.path.join(outs, f"{j}.out")) as f:
            out = f.read()
        with open(os.path.join(outs, f"{j}.err")) as f:
            err = f.read()
        line = [l for l in out.splitlines() if l.startswith("RESULT ")]
        if p.returncode != 0 or not line:
            sys.stderr.write(f"HARNESS ERROR in a shard (rc {p.returncode}):\n{err[-4000:]}\n")
            harness_error = True
            continue
        res.append(json.loads(line[-1][7:]))
    shutil.rmtree(best, ignore_errors=True)
    shutil.rmtree(outs, ignore_errors=True)
    if harness_error and not any(r["viol"] for r in res):
        return 2
    viols = sorted((r["viol"] for r in res if r["viol"]), key=lambda v: v["index"])
    known = []
    new = []
    for v in viols:
        e = known_match(pid, v["violation"])
        (known if e else new).append((v, e))
    status, replay_path, vmsg = 0, None, None
    if new:
        v = new[0][0]
        os.makedirs(EVID, exist_ok=True)
        replay_path = os.path.join(EVID, f"replay-{pid}.json")
        with open(replay_path, "w") as f:
            json.dump({"property": pid, "spec": v["spec"], "original": v["spec"],
                       "violation": v["violation"], "hash": v["hash"],
                       "seed": v["spec"]["seed"],
                       "seconds": 0 if v["secs"] > 15 else 60 if tier == "quick" else 300}, f)
        p = subprocess.run([sys.executable, "-m", "vsim.check", "--shrink", replay_path],
                           cwd=ROOT, env=env(), capture_output=True, text=True)
        if p.returncode != 0:
            sys.stderr.write("minimisation failed:\n" + p.stderr[-2000:] + "\n")
        p = subprocess.run([sys.executable, "-m", "vsim.check", "--replay", replay_path],
                           cwd=ROOT, env=env(), capture_output=True, text=True)
        line = [l for l in p.stdout.splitlines() if l.startswith("REPLAY ")]
        with open(replay_path) as f:
            d = json.load(f)
        vmsg = d["violation"]
        got = json.loads(line[-1][7:]) if line else None
        reproduced = bool(got and got["hash"] == d["hash"] and got["violation"])
        print(f"seed {v['spec']['seed']}: {v['violation']['cls']}: {v['violation']['msg']}")
        print(f"minimised: {d['violation']['cls']}: {d['violation']['msg']}")
        print(f"replayed in a fresh process: {'identical' if reproduced else 'NOT REPRODUCED'}")
        print(f"VIOLATION property={pid} replay={replay_path}")
        status = 1
    try:
        with open(KNOWN) as f:
            kf = json.load(f).get("findings", [])
    except FileNotFoundError:
        kf = []
    for e in kf:
        if e["property"] == pid:
            msg = prop.known(e) if hasattr(prop, "known") else e["what"]
            if msg:
                print(f"KNOWN-FINDING: property={pid} {msg}")

    # ---- evidence ---------------------------------------------------------
    agg = {}
    for r in res:
        for key, val in r["agg"].items():
            if isinstance(val, bool):
                agg[key] = agg.get(key, False) or val
            elif isinstance(val, (int, float)):
                if key in ("max_log_e", "wall"):
                    agg[key] = max(agg.get(key, 0), val)
                else:
                    agg[key] = agg.get(key, 0) + val
            elif isinstance(val, list):
                agg.setdefault(key, []).extend(val)
            elif isinstance(val, dict):
                dst = agg.setdefault(key, {})
                for kk, vv in val.items():
                    dst[kk] = dst.get(kk, 0) + vv
    if a.hashes:
        for i, h in sorted(agg["hashes"]):
            print("HASH", i, h)
    wall = seams.real_perf() - t0
    ev = {"property": pid, "tier": tier if tier in ("quick", "thorough") else "quick",
          "seed": base, "level": "exploration",
          "coverage": {
              "evaluations": agg["runs"],
              "distinct_nontrivial": len(set(agg["scheds"])),
              "rule": prop.RULE + " Distinct: different hash of the full event log "
                      "(operations, results, scheduling decisions, faults).",
              "samples": agg["samples_spec"][:3],
              "operations": agg["ops"],
              "operations_that_raised": agg["raised"],
              "samples_judged": agg["samples"],
              "runs_per_hour": round(agg["runs"] / max(wall, 1e-9) * 3600),
              "simulated_seconds": round(agg["sim_s"], 3),
              "simulated_pools": agg["pools"],
              "simulated_processes": agg["procs"],
              "thread_switches": agg["switches"],
              "faults_fired": agg["fired"],
              "probes": agg["probes"],
              "cases_by_kind": agg["kinds"],
              "max_log_e_value": round(agg["max_log_e"], 3),
              "stopped_early_by_wall_clock": agg["stopped"],
              "real_components": prop.REAL,
              "stub_components": prop.STUB,
          },
          "assumptions": prop.ASSUME, "wall_s": round(wall, 2),
          "violations": len(new)}
    os.makedirs(EVID, exist_ok=True)
    if not a.no_evidence:
        with open(os.path.join(EVID, f"{pid}.json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
    print(f"{pid}: {agg['runs']} runs, {agg['ops']} operations, "
          f"{len(set(agg['scheds']))} distinct non-trivial, faults {agg['fired']}, "
          f"{wall:.1f} s -> {'violation' if status else 'held'}")
    return status


if __name__ == "__main__":
    sys.exit(main())
