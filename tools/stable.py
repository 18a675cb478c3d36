"""Runs the repository's tests on a scratch tree (argv[1]); prints which stable tests fail there."""
import json, os, subprocess, sys, tempfile

wt = os.path.realpath(sys.argv[1])
with tempfile.TemporaryDirectory() as tmp:
    s = open("/opt/vp/test.sh").read().replace("/opt/vp/reports", tmp + "/xml").replace("/repo", wt)
    s = s.replace("/opt/vp/mpl", tmp + "/mpl")
    open(tmp + "/t.sh", "w").write(s)
    subprocess.run(["bash", tmp + "/t.sh", tmp + "/out.json"], stdout=subprocess.DEVNULL,
                   stderr=subprocess.DEVNULL)
    out = json.load(open(tmp + "/out.json"))
stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
passed = set(out["passed"])
bad = [t for t in stable if t not in passed]
print(f"{len(stable) - len(bad)} of {len(stable)} stable tests pass; failing: {bad[:5]}")
sys.exit(bool(bad))
