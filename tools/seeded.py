"""Applies each planted change to /repo, runs the check of its property (or the given ones), undoes it."""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = [a for a in sys.argv[1:] if not a.startswith("-")]
checks = [a[2:].split(",") for a in sys.argv[1:] if a.startswith("--")]
for sid in args or sorted(os.listdir(V + "/seeded")):
    d = f"{V}/seeded/{sid}"
    prop = json.load(open(d + "/meta.json"))["property"]
    assert not subprocess.check_output(["git", "-C", "/repo", "status", "--porcelain"])
    subprocess.check_call(["git", "-C", "/repo", "apply", d + "/patch.diff"])
    try:
        for p in (checks[0] if checks else [prop]):
            t = time.time()
            r = subprocess.run([sys.executable, V + "/check.py", p], capture_output=True, text=True,
                               env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            print(f"{sid:22} {p} rc {r.returncode} {time.time()-t:5.0f}s {'CAUGHT' if r.returncode == 1 and any(f'property={p} ' in l for l in v) else 'missed ' + (r.stderr + r.stdout)[-300:]}", flush=True)
    finally:
        subprocess.check_call(["git", "-C", "/repo", "checkout", "-q", "--", "."])
