"""Runs the check of the property each planted bug breaks, on /repo with the bug applied and undone again.
usage: runbugs.py [-a] [ids...]   (-a: run every check against each bug)"""
import json, os, re, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = [a for a in sys.argv[1:] if a != "-a"]
for b in args or sorted(os.listdir(os.path.join(V, "seeded"))):
    d = os.path.join(V, "seeded", b)
    meta = json.load(open(os.path.join(d, "meta.json")))
    pids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))] if "-a" in sys.argv else [meta["property"]]
    subprocess.run(["git", "-C", "/repo", "apply", os.path.join(d, "patch.diff")], check=True)
    try:
        for p in pids:
            r = subprocess.run([sys.executable, os.path.join(V, "check.py"), p, "quick"], capture_output=True, text=True)
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            print(b, p, r.returncode, "caught" if r.returncode == 1 and v else "MISSED" if r.returncode == 0 else "ERROR " + (r.stdout + r.stderr)[-300:], v[0][-60:] if v else "", flush=True)
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."], check=True)
