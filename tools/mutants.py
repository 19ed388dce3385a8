#!/usr/bin/env python3
"""Development aid: runs the checks, sampled, against single-edit mutants of a copy of /repo.

  mutants.py LIST.jsonl OUT.jsonl [--shards S] [--frac F] [--seed N] [--workers W] [--file SUBSTR] [--checks C01,C02]

Not used by any check. Records for each mutant: builds, stable tests pass, first check that reports it.
"""
import argparse, json, os, queue, random, re, shutil, subprocess, sys, tempfile, threading

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CODEC = ["C05", "C24", "C25", "C01", "C03", "C04", "C02"]
CLIENT = ["C07", "C10", "C12", "C11", "C18", "C08", "C20", "C06", "C14", "C19", "C15", "C17", "C13", "C26", "C09", "C23", "C21", "C16", "C22"]
ap = argparse.ArgumentParser()
ap.add_argument("list"); ap.add_argument("out")
ap.add_argument("--shards", type=int, default=61)
ap.add_argument("--frac", type=float, default=1)
ap.add_argument("--seed", type=int, default=1)
ap.add_argument("--workers", type=int, default=8)
ap.add_argument("--file", default="")
ap.add_argument("--checks", default="")
ap.add_argument("--limit", type=int, default=90)
a = ap.parse_args()
ms = [json.loads(l) for l in open(a.list)]
ms = [m for m in ms if a.file in m["file"]]
rnd = random.Random(a.seed)
ms = [m for m in ms if rnd.random() < a.frac]
done = set()
if os.path.exists(a.out):
    for l in open(a.out):
        m = json.loads(l)
        done.add((m["file"], m["Start"], m["End"], m["new"]))
ms = [m for m in ms if (m["file"], m["Start"], m["End"], m["new"]) not in done]
rnd.shuffle(ms)
q = queue.Queue()
for m in ms:
    q.put(m)
lock = threading.Lock()
outf = open(a.out, "a")
tot = len(ms)
env = dict(os.environ, GOFLAGS="-mod=mod", GOWORK="off", GOPROXY="off", GOTOOLCHAIN="local", CGO_ENABLED="0", GOMAXPROCS="2")
kn = os.path.join(HERE, "known_findings.json")


def run(cmd, cwd, to, extra=None):
    p = subprocess.Popen(["prlimit", "--as=%d" % (12 << 30)] + cmd, cwd=cwd, env=dict(env, **(extra or {})), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         text=True, errors="replace", start_new_session=True)
    try:
        o, _ = p.communicate(timeout=to)
        return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        o, _ = p.communicate()
        return -1, o or ""


def judge(m, d, tree):
    f = os.path.join(tree, m["file"])
    src = open(os.path.join("/repo", m["file"]), "rb").read()
    try:
        open(f, "wb").write(src[:m["Start"]] + m["new"].encode() + src[m["End"]:])
        rc, o = run(["go", "build", "./mqtt/..."], tree, 120)
        if rc:
            return "nobuild", ""
        rc, o = run(["go", "test", "-vet=off", "-count=1", "-timeout", "60s", "./mqtt/..."], tree, 90)
        if rc:
            return "tests", ""
        exe = os.path.join(d, "x.test")
        rc, o = run(["go", "test", "-c", "-vet=off", "-o", exe, "-modfile", os.path.join(d, "go.mod"), "./checks"], os.path.join(HERE, "harness"), 200)
        if rc:
            return "harness build", o[-500:]
        order = CODEC + CLIENT if "packets" in m["file"] else CLIENT + CODEC
        if a.checks:
            order = a.checks.split(",")
        odd = ""
        for c in order:
            rc, o = run([exe, "-test.run", "^Test%s$" % c, "-test.count=1", "-test.timeout=0"], d, a.limit,
                        {"VERIF_SHARD": "0", "VERIF_SHARDS": str(a.shards), "VERIF_MAXVIOL": "1", "VERIF_KNOWN": kn, "GOMAXPROCS": "4", "VERIF_WORK": d})
            if "\nFAIL " + c in "\n" + o:
                return "caught " + c, re.search(r"^FAIL .*", o, re.M).group(0)[:200]
            if rc != 0 and not odd:
                odd = "%s rc=%d %s" % (c, rc, o[-300:])
        return ("odd" if odd else "survived"), odd
    finally:
        open(f, "wb").write(src)


n = 0


def worker(k):
    global n
    d = tempfile.mkdtemp(prefix="mut%d-" % k, dir="/tmp")
    tree = os.path.join(d, "repo")
    shutil.copytree("/repo", tree, ignore=shutil.ignore_patterns(".git"))
    mod = open(os.path.join(HERE, "harness", "go.mod")).read()
    open(os.path.join(d, "go.mod"), "w").write(re.sub(r"=> /repo\b", "=> " + tree, mod))
    shutil.copy(os.path.join(HERE, "harness", "go.sum"), os.path.join(d, "go.sum"))
    try:
        while True:
            try:
                m = q.get_nowait()
            except queue.Empty:
                return
            v, note = judge(m, d, tree)
            with lock:
                n += 1
                m["verdict"], m["note"] = v, note
                outf.write(json.dumps(m) + "\n")
                outf.flush()
                if n % 50 == 0:
                    print(n, "of", tot, flush=True)
    finally:
        shutil.rmtree(d, ignore_errors=True)


ts = [threading.Thread(target=worker, args=(k,)) for k in range(a.workers)]
[t.start() for t in ts]
[t.join() for t in ts]
