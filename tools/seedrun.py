#!/usr/bin/env python3
"""Development aid: runs the checks against scratch copies of /repo with a change of /verif/seeded applied.

  seedrun.py [--checks C01,C02 | --all] [ID...]      (default: the check of the property the change breaks)
"""
import argparse, json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ap = argparse.ArgumentParser()
ap.add_argument("ids", nargs="*"); ap.add_argument("--checks", default=""); ap.add_argument("--all", action="store_true")
ap.add_argument("--tier", default="quick")
a = ap.parse_args()
for i in a.ids or sorted(os.listdir(HERE + "/seeded")):
    d = HERE + "/seeded/" + i
    prop = json.load(open(d + "/meta.json"))["property"]
    checks = a.checks.split(",") if a.checks else ["C%02d" % k for k in range(1, 27)] if a.all else [prop]
    t = tempfile.mkdtemp(prefix="seedrun-")
    try:
        subprocess.run(["git", "clone", "-q", "/repo", t + "/repo"], check=True)
        subprocess.run(["git", "-C", t + "/repo", "apply", d + "/patch.diff"], check=True)
        env = dict(os.environ, VERIF_REPO=t + "/repo", VERIF_EVIDENCE=t + "/ev", VERIF_REPLAYS=t + "/rp", VERIF_SEED="1", VERIF_TIER=a.tier)
        res = []
        for c in checks:
            s = time.time()
            p = subprocess.run([sys.executable, HERE + "/check.py", c, a.tier], cwd=HERE, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            v = re.search(r"^VIOLATION property=(\S+)", p.stdout, re.M)
            ok = p.returncode == 1 and v and v.group(1) == c
            res.append("%s %s %.0fs" % (c, "CAUGHT" if ok else "quiet" if p.returncode == 0 else "rc=%d" % p.returncode, time.time() - s))
            if c == prop and not ok:
                print(p.stdout[-1500:])
        print(i, "|", "; ".join(r for r in res if not a.all or "quiet" not in r), flush=True)
    finally:
        shutil.rmtree(t, ignore_errors=True)
