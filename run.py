#!/usr/bin/env python3
"""Builds the checks against /repo's working tree and runs those of one property.

usage: run.py PROPERTY [quick|thorough]      run a check (exit 0, 1 or 2)
       run.py --replay PROPERTY FILE         run again one saved rapid fail file
       run.py --warm                         build only
"""
import glob, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(VERIF, "harness")
CONF = json.load(open(os.path.join(VERIF, "checks.json")))


def env_for_go():
    env = dict(os.environ)
    env.setdefault("HOME", "/root")
    env.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=readonly", GOWORK="off",
               GOSUMDB="off", GONOSUMDB="*", GONOSUMCHECK="1")
    for k in list(env):
        if k.startswith("RAPID_"):
            del env[k]
    return env


def build(out, race):
    cmd = ["go", "test", "-c", "-vet=off", "-buildvcs=false", "-o", out]
    if race:
        cmd.append("-race")
    p = subprocess.run(cmd + ["."], cwd=HARNESS, env=env_for_go(), stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, timeout=800)
    if p.returncode != 0:
        print(p.stdout[-6000:])
        print("ERROR: the checks do not build against /repo")
        sys.exit(2)


FRAME = "mmadfox/go-gpsgen"


def classify(rc, log):
    """What one process found: ok, violation or error."""
    if rc == 0:
        return "ok"
    if "WATCHDOG:" in log:
        return "violation" if "WATCHDOG-VERDICT" in log else "error"
    if "WARNING: DATA RACE" in log:
        return "violation" if FRAME in log else "error"
    if "panic: test timed out" in log:
        return "error"
    if re.search(r"^(panic:|fatal error:)", log, re.M):
        if "out of memory" in log or "cannot allocate" in log or "newosproc" in log:
            return "error"
        return "violation" if FRAME in log else "error"
    if rc == 1 and "--- FAIL" in log:
        if "[rapid] only generated" in log:
            return "error"
        return "violation"
    return "error"


def run(prop, tier, failfile=None):
    conf = CONF["checks"][prop]
    seed = int(os.environ.get("VERIF_SEED") or 1)
    race = conf.get("race", False)
    t = dict(CONF["tiers"][tier])
    t.update(conf.get(tier, {}))
    shards, scale, budget, timeout = t["shards"], t["scale"], t["budget"], t["timeout"]
    if failfile:
        shards = 1
    start = time.time()
    work = tempfile.mkdtemp(prefix="gpsgen-verif-")
    try:
        return run_in(work, prop, tier, conf, seed, race, shards, scale, budget, timeout, start, failfile)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def run_in(work, prop, tier, conf, seed, race, shards, scale, budget, timeout, start, failfile):
    binary = os.path.join(work, "checks.test")
    build(binary, race)
    tests = subprocess.run([binary, "-test.list", "^Test%s_" % prop], env=env_for_go(), stdout=subprocess.PIPE,
                           text=True, timeout=120, cwd=work).stdout.split()
    if not tests:
        print("ERROR: no test of %s" % prop)
        return 2
    procs = []
    for i in range(shards):
        d = os.path.join(work, "shard%d" % i)
        os.makedirs(d)
        env = env_for_go()
        env.update(VERIF_SCALE=str(scale), VERIF_BUDGET_S=str(budget / len(tests)), VERIF_HARNESS=HARNESS,
                   VERIF_KNOWN=os.path.join(VERIF, "known_findings.txt"),
                   VERIF_SHARD=str(i), VERIF_OUT=os.path.join(d, "out.json"),
                   GORACE="halt_on_error=1 exitcode=66", GOTRACEBACK="all")
        rseed = int.from_bytes(hashlib.sha256(("%d/%d/%s" % (seed, i, prop)).encode()).digest()[:8], "big") >> 1 or 1
        cmd = [binary, "-test.run", "^Test%s_" % prop, "-test.timeout", "%ds" % timeout, "-test.v",
               "-rapid.seed=%d" % rseed, "-rapid.shrinktime=15s"]
        if failfile:
            name = os.path.basename(failfile)
            m = re.match(r"(Test\w+?)-\d+", name)
            cmd[2] = "^%s$" % m.group(1) if m else "^Test%s_" % prop
            cmd += ["-rapid.failfile=" + os.path.abspath(failfile)]
        log = open(os.path.join(d, "log"), "w")
        procs.append((i, d, rseed, subprocess.Popen(cmd, cwd=d, env=env, stdout=log, stderr=subprocess.STDOUT,
                                                    start_new_session=True)))
    results = []
    deadline = time.time() + timeout + 30
    for i, d, rseed, p in procs:
        try:
            rc = p.wait(timeout=max(1, deadline - time.time()))
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            rc = -9
        log = open(os.path.join(d, "log"), errors="replace").read()
        results.append((i, d, rseed, rc, log, classify(rc, log)))

    violations = [r for r in results if r[5] == "violation"]
    errors = [r for r in results if r[5] == "error"]
    evidence(prop, tier, seed, results, start, len(violations), shards, scale, race)

    known = set()
    for r in results:
        known.update(re.findall(r"^KNOWN-FINDING: .*$", r[4], re.M))
    for line in sorted(known):
        print(line)

    if violations:
        i, d, rseed, rc, log, _ = violations[0]
        print(tail_of(log))
        path = save_replay(prop, d, rseed, log)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if errors:
        i, d, rseed, rc, log, _ = errors[0]
        print(tail_of(log))
        print("ERROR: shard %d of %s ended with %d and no verdict" % (i, prop, rc))
        return 2
    print("OK property=%s tier=%s seed=%d wall=%.1fs" % (prop, tier, seed, time.time() - start))
    return 0


def tail_of(log):
    lines = [l for l in log.splitlines() if "[rapid] draw" not in l]
    for k, l in enumerate(lines):
        if "--- FAIL" in l or l.startswith(("panic:", "fatal error:", "WATCHDOG:", "WARNING: DATA RACE")):
            lines = lines[k:]
            break
    else:
        lines = lines[-60:]
    return "\n".join(l[:600] for l in lines[:60])


def save_replay(prop, d, rseed, log):
    out = os.path.join(VERIF, "replays", prop)
    try:
        os.makedirs(out, exist_ok=True)
    except OSError:
        out = tempfile.mkdtemp(prefix="gpsgen-replay-")
    fails = sorted(glob.glob(os.path.join(d, "testdata", "rapid", "*", "*.fail")))
    logpath = os.path.join(out, "seed-%d.log" % rseed)
    with open(logpath, "w") as f:
        f.write("# rapid seed %d; property %s\n" % (rseed, prop))
        f.write(log[-2_000_000:])
    if fails:
        dst = os.path.join(out, os.path.basename(fails[0]))
        shutil.copy(fails[0], dst)
        return dst
    return logpath


def evidence(prop, tier, seed, results, start, nviol, shards, scale, race):
    evals, hashes, classes, samples, per, skipped = 0, set(), {}, [], {}, 0
    for r in results:
        try:
            o = json.load(open(os.path.join(r[1], "out.json")))
        except (OSError, ValueError):
            continue
        evals += o["evaluations"]
        hashes.update(o["hashes"])
        skipped += o["skipped"]
        for k, v in (o["classes"] or {}).items():
            classes[k] = classes.get(k, 0) + v
        for k, v in (o["per_test"] or {}).items():
            per[k] = per.get(k, 0) + v
        if r[0] == 0:
            samples += o["samples"] or []
    conf = CONF["checks"][prop]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": len(hashes),
            "rule": conf["rule"],
            "samples": samples[:12] or ["(none)"],
            "cases_per_test": dict(sorted(per.items())),
            "case_classes": dict(sorted(classes.items())),
            "cases_not_run_for_lack_of_time": skipped,
            "shards": shards, "scale": scale, "race_detector": race,
        },
        "assumptions": conf.get("assumptions", []),
        "violations": nviol,
        "wall_s": round(time.time() - start, 2),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    path = os.path.join(VERIF, "evidence", prop + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
    os.replace(path + ".tmp", path)


def main():
    args = sys.argv[1:]
    if args[:1] == ["--warm"]:
        d = tempfile.mkdtemp(prefix="gpsgen-verif-")
        try:
            build(os.path.join(d, "a"), False)
            build(os.path.join(d, "b"), True)
        finally:
            shutil.rmtree(d, ignore_errors=True)
        return 0
    if args[:1] == ["--replay"]:
        return run(args[1], "quick", args[2])
    tier = args[1] if len(args) > 1 else os.environ.get("VERIF_TIER", "quick")
    return run(args[0], tier)


if __name__ == "__main__":
    sys.exit(main())
