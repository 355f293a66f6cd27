#!/usr/bin/env python3
"""Runs checks against a changed copy of /repo, for experiments.

usage: against.py [--tests] (--patch FILE | --revert COMMIT | --tree DIR) PROPERTY...
"""
import os, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(*cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def main():
    args = sys.argv[1:]
    tests = "--tests" in args
    args = [a for a in args if a != "--tests"]
    how, what, props = args[0], args[1], args[2:]
    work = tempfile.mkdtemp(prefix="gpsgen-against-")
    try:
        repo = os.path.join(work, "repo")
        src = what if how == "--tree" else "/repo"
        sh("cp", "-a", src, repo)
        if how == "--patch":
            r = sh("git", "-C", repo, "apply", os.path.abspath(what))
        elif how == "--revert":
            r = sh("git", "-C", repo, "-c", "user.name=x", "-c", "user.email=x@x", "revert", "--no-edit", "-n", what)
        else:
            r = None
        if r is not None and r.returncode:
            print("CANNOT APPLY", what, r.stdout[-300:])
            return 3
        env = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", HOME="/root", GOFLAGS="-mod=mod")
        if tests:
            r = sh("go", "test", "./...", cwd=repo, env=env)
            print("existing tests:", "pass" if r.returncode == 0 else "FAIL\n" + r.stdout[-1500:])
        v = os.path.join(work, "verif")
        os.makedirs(v)
        for f in ("run.py", "checks.json", "known_findings.txt"):
            shutil.copy(os.path.join(VERIF, f), v)
        shutil.copytree(os.path.join(VERIF, "harness"), os.path.join(v, "harness"))
        mod = os.path.join(v, "harness", "go.mod")
        s = open(mod).read().replace("=> /repo", "=> " + repo)
        open(mod, "w").write(s)
        env = dict(os.environ, VERIF_REPO=repo)
        for p in props:
            r = sh("python3", os.path.join(v, "run.py"), p, "quick", env=env)
            lines = [l for l in r.stdout.splitlines() if l.strip()]
            print(p, "exit", r.returncode)
            for l in lines[:int(os.environ.get("LINES_SHOWN", "3"))]:
                print("    ", l[:400])
    finally:
        shutil.rmtree(work, ignore_errors=True)


sys.exit(main())
