#!/usr/bin/env python3
"""Driver of the runtime-monitoring checks.

  check.py C07 [quick|thorough]    run one check against /repo's working tree
  check.py --replay FILE           run the single case a violation was recorded for
  check.py --build                 build the test binaries (setup)

Exit 0: held on everything explored; 1: VIOLATION line printed; 2: no verdict.
"""
import fcntl, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(HERE, "harness")
REPO = os.environ.get("VERIF_REPO", "/repo")
KNOWN = os.path.join(HERE, "known_findings.json")
EVID = os.environ.get("VERIF_EVIDENCE", os.path.join(HERE, "evidence"))
REPLAY = os.environ.get("VERIF_REPLAYS", os.path.join(HERE, ".replay"))
BUILD = os.path.join(HERE, ".build")
RACE = {"C16", "C22"}         # built with the race detector, whose reports count
ALSO_RACE = set()
LEVEL = {"C06": "fault_enumeration", "C10": "fault_enumeration", "C15": "fault_enumeration", "C19": "fault_enumeration",
         "C21": "fault_enumeration"}
ASSUME = {
    "*": ["the harness's own MQTT 5 codec and reference models (harness/wire, harness/checks) are right",
          "the simulated connection and storage behave as net.Conn and storage.Storage document"],
    "C22": ["the Go race detector reports only real races; it sees only the interleavings executed"],
}
SHARDS = int(os.environ.get("VERIF_NSHARDS", "8"))
LIMIT = int(os.environ.get("VERIF_LIMIT", "0"))


def goenv(race):
    e = dict(os.environ)
    e.setdefault("HOME", "/root")
    e["PATH"] = "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:" + e.get("PATH", "")
    e.update(GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local", GOWORK="off", GONOSUMDB="*", GOSUMDB="off",
             CGO_ENABLED="1" if race else "0")
    return e


def build(race, out):
    cmd = ["go", "test", "-c", "-vet=off", "-o", out]
    if race:
        cmd.append("-race")
    tmp = tempfile.mkdtemp(prefix="verif-mod-")
    try:
        mod = open(os.path.join(HARNESS, "go.mod")).read()
        mod = re.sub(r"=> /repo\b", "=> " + REPO, mod)
        open(os.path.join(tmp, "go.mod"), "w").write(mod)
        shutil.copy(os.path.join(HARNESS, "go.sum"), os.path.join(tmp, "go.sum"))
        cmd += ["-modfile", os.path.join(tmp, "go.mod"), "./checks"]
        p = subprocess.run(cmd, cwd=HARNESS, env=goenv(race), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            print(p.stdout[-6000:])
            print("BUILD FAILED")
            sys.exit(2)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


LIB = "waj334/tinygo-mqtt/mqtt"


def race_reports(text):
    out = []
    for blk in text.split("WARNING: DATA RACE")[1:]:
        blk = blk.split("==================")[0]
        # Identify the race by the two innermost library functions involved.
        parts = re.split(r"\n(?=\s*(?:Previous|Goroutine))", blk)
        # The innermost frame outside the Go runtime and libraries made the access. A race between two such frames of the
        # harness would be the harness's own.
        fn, lib = [], False
        for p in parts[:2]:
            m = re.search(r"^\s+(?:github\.com/waj334/tinygo-mqtt/mqtt|(verif/harness))([^\s(]*(?:\([^)]*\))?[^\s(]*)\(", p, re.M)
            # The connection's accesses to the buffers it was called with are those of the library function that passed them.
            if m and re.search(r"^/sim\.(into|from)Buffer", m.group(2)):
                m = re.search(r"^\s+github\.com/waj334/tinygo-mqtt/mqtt()([^\s(]*(?:\([^)]*\))?[^\s(]*)\(", p, re.M) or m
            if m and not m.group(1):
                lib = True
            fn.append("harness" if not m or m.group(1) else m.group(2))
        if not lib:
            continue
        out.append((" / ".join(sorted(fn)), blk.strip()))
    return out


def crash_sig(text):
    """A process that died: is the code under test to blame?"""
    m = re.search(r"^(fatal error: .*|panic: .*)$", text, re.M)
    if not m:
        return None
    tail = text[m.start():]
    if "out of memory" in m.group(1) or "cannot allocate" in m.group(1):
        return None
    g = tail.split("\n\n")
    blk = "\n\n".join(g[:2])
    if LIB in blk or ("all goroutines are asleep" in m.group(1) and LIB in tail):
        return m.group(1)[:160], tail[:6000]
    return None


def run_check(pid, tier, seed, replay=None):
    t0 = time.time()
    race = pid in RACE
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(EVID, exist_ok=True)
    work = tempfile.mkdtemp(prefix="run-%s-" % pid, dir=BUILD)
    try:
        return run_in(work, pid, tier, seed, replay, race, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def run_in(work, pid, tier, seed, replay, race, t0):
    exe = os.path.join(work, "checks.test")
    build(race, exe)
    shards = 1 if replay else SHARDS
    limit = LIMIT or (840 if tier == "quick" else 14400)
    procs = []
    for s in range(shards):
        e = goenv(race)
        e.update(VERIF_SEED=str(seed), VERIF_TIER=tier, VERIF_SHARD=str(s), VERIF_SHARDS=str(shards), VERIF_KNOWN=KNOWN,
                 VERIF_OUT=os.path.join(work, "out%d.json" % s), VERIF_REPLAY=replay or "", GOTRACEBACK="all", VERIF_WORK=work,
                 GORACE="halt_on_error=0 exitcode=0 history_size=4 log_path=" + os.path.join(work, "race%d" % s))
        if race and shards > 1:
            e["GOMAXPROCS"] = "4"
        f = open(os.path.join(work, "log%d" % s), "w")
        procs.append((subprocess.Popen([exe, "-test.run", "^Test%s$" % pid, "-test.count=1", "-test.timeout=0"],
                                       cwd=work, env=e, stdout=f, stderr=subprocess.STDOUT), f))
    left = limit - (time.time() - t0)
    timed_out = False
    for p, f in procs:
        try:
            p.wait(timeout=max(1, left))
        except subprocess.TimeoutExpired:
            timed_out = True
            p.kill()
            p.wait()
        left = limit - (time.time() - t0)
        f.close()

    viols, found, counts, hashes, samples, evals, rule, errors = [], {}, {}, set(), [], 0, "", []
    known = {}
    try:
        for k in json.load(open(KNOWN)).get("findings", []):
            if k["property"] == pid:
                known[k["sig"]] = k["what"]
    except FileNotFoundError:
        pass
    for s, (p, f) in enumerate(procs):
        text = open(os.path.join(work, "log%d" % s), errors="replace").read()
        try:
            r = json.load(open(os.path.join(work, "out%d.json" % s)))
        except Exception:
            r = None
        if r is None:
            c = crash_sig(text)
            try:
                part = json.load(open(os.path.join(work, "out%d.json.partial" % s)))
            except Exception:
                part = []
            viols += part
            if part:
                pass
            elif c and not timed_out:
                viols.append({"sig": c[0], "msg": c[1], "case": "shard %d of %d" % (s, shards)})
            else:
                errors.append("shard %d ended with %s and no result: %s" % (s, p.returncode, text[-3000:]))
            continue
        if r["status"] == "inconclusive":
            errors.append("shard %d inconclusive: %s" % (s, text[-3000:]))
        rule = r["rule"]
        evals += r["evals"]
        for k, v in (r["counts"] or {}).items():
            if k.startswith("max_"):
                counts[k] = max(counts.get(k, 0), v)
            else:
                counts[k] = counts.get(k, 0) + v
        hashes.update(r["hashes"] or [])
        samples += r["samples"] or []
        found.update(r["found"] or {})
        viols += r["viols"] or []
        if race:
            for name in sorted(os.listdir(work)):
                if name.startswith("race%d." % s):
                    for sig, blk in race_reports(open(os.path.join(work, name), errors="replace").read()):
                        sig = "race " + sig
                        if sig in known:
                            found[sig] = known[sig]
                        elif sig not in [v["sig"] for v in viols]:
                            viols.append({"sig": sig, "msg": "DATA RACE\n" + blk, "case": "shard %d of %d" % (s, shards)})
    uniq, seen = [], set()
    for v in viols:
        if v["sig"] not in seen:
            seen.add(v["sig"])
            uniq.append(v)
    viols = uniq

    if not replay:
        cov = {"evaluations": evals, "distinct_nontrivial": len(hashes), "rule": rule, "samples": samples[:6] or ["none"],
               "observed": dict(sorted(counts.items())), "shards": shards}
        ev = {"property": pid, "tier": tier, "seed": seed, "level": LEVEL.get(pid, "exploration"), "coverage": cov,
              "assumptions": ASSUME["*"] + ASSUME.get(pid, []), "wall_s": round(time.time() - t0, 2), "violations": len(viols)}
        path = os.path.join(EVID, pid + ".json")
        with open(path + ".tmp", "w") as fh:
            json.dump(ev, fh, indent=1, sort_keys=True)
        os.replace(path + ".tmp", path)
    for sig, what in sorted(found.items()):
        print("KNOWN-FINDING: property=%s %s" % (pid, what))
    if viols:
        os.makedirs(REPLAY, exist_ok=True)
        for v in viols:
            h = hashlib.sha1((pid + v["sig"]).encode()).hexdigest()[:8]
            path = os.path.join(REPLAY, "%s-%s.json" % (pid, h))
            with open(path, "w") as fh:
                json.dump(dict(property=pid, tier=tier, seed=seed, **v), fh, indent=1)
            print("--- %s [%s] case %s\n%s" % (pid, v["sig"], v["case"], v["msg"][:2500]))
            for l in (v.get("log") or [])[-25:]:
                print("   | " + l[:200])
            print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if errors:
        print("\n".join(errors))
        print("NO VERDICT for %s" % pid)
        return 2
    if evals == 0:
        print("NO VERDICT for %s: nothing was run" % pid)
        return 2
    print("%s held: %d cases, %d distinct, %.1fs" % (pid, evals, len(hashes), time.time() - t0))
    print("  observed: " + json.dumps(dict(sorted(counts.items()))))
    return 0


def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        return 2
    if a[0] == "--build":
        os.makedirs(BUILD, exist_ok=True)
        w = tempfile.mkdtemp(prefix="setup-", dir=BUILD)
        try:
            for race in (False, True):
                build(race, os.path.join(w, "x.test"))
        finally:
            shutil.rmtree(w, ignore_errors=True)
        print("built")
        return 0
    if a[0] == "--replay":
        v = json.load(open(a[1]))
        case = v["case"] if not v["case"].startswith("shard") else None
        return run_check(v["property"], v["tier"], v["seed"], case)
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    return run_check(a[0], tier, int(os.environ.get("VERIF_SEED", "1") or 1))


if __name__ == "__main__":
    sys.exit(main())
