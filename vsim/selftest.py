"""One seed is one execution: the event logs of the same runs must be identical
in different processes, shard numbers and hash seeds."""
import os
import subprocess
import sys

from .check import ROOT, env

N = {"C02": 24, "C06": 24, "C07": 60, "C08": 60, "C09": 40, "C11": 40, "C18": 40,
     "C19": 40}


def hashes(pid, n, shards, hashseed):
    e = env()
    e.update(VSIM_HASHSEED=hashseed)
    p = subprocess.run([sys.executable, "-m", "vsim.check", pid, "--runs", str(n), "--shards",
                        str(shards), "--hashes", "--no-evidence"], cwd=ROOT, env=e,
                       capture_output=True, text=True)
    return [l for l in p.stdout.splitlines() if l.startswith("HASH ")], p


def main(scale=1):
    bad = 0
    for pid, n in N.items():
        a, pa = hashes(pid, n * scale, 8, "0")
        b, pb = hashes(pid, n * scale, 3, "7")
        ok = len(a) == n * scale and a == b
        print(f"{pid}: {len(a)} runs, {'identical' if ok else 'DIFFERENT'} logs")
        if not ok:
            bad += 1
            print(pa.stdout[-500:], pa.stderr[-500:], pb.stdout[-500:], pb.stderr[-500:])
            print([x for x, y in zip(a, b) if x != y][:5])
    return bad


if __name__ == "__main__":
    # Reports only: on a changed tree the checks decide, not the set-up.
    bad = main(int(sys.argv[1]) if len(sys.argv) > 1 else 1)
    sys.exit(1 if bad and os.environ.get("STRICT") else 0)
