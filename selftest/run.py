#!/usr/bin/env python3
"""Runs ckcheck against small edits of the repository: bugs (some rule of the
named property must fire) and behaviour-preserving edits (no rule may fire).
usage: run.py [-t] [name-substring ...]   (-t: also run the repository's tests on each edit)"""
import os, sys, subprocess, shutil, tempfile, glob, importlib.util, concurrent.futures as cf, threading

HERE = os.path.dirname(os.path.abspath(__file__))
CK = os.environ.get("CK", os.path.join(HERE, "..", "bin", "ckcheck"))
GO = "/opt/veriftools/go1.23.12/bin"
ENV = dict(os.environ, PATH=GO + ":" + os.environ["PATH"], GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local")
cases = []

def load():
    for f in sorted(glob.glob(os.path.join(HERE, "cases_*.py"))):
        ns = {"bug": lambda name, props, *edits: cases.append(("bug", name, props.split(), edits)),
              "same": lambda name, *edits: cases.append(("same", name, [], edits))}
        exec(compile(open(f).read(), f, "exec"), ns)

def run(case, tests):
    kind, name, props, edits = case
    d = tempfile.mkdtemp(prefix="ckself")
    try:
        repo = os.path.join(d, "r")
        subprocess.run(["git", "-C", "/repo", "worktree", "list"], capture_output=True)
        shutil.copytree("/repo", repo, ignore=shutil.ignore_patterns(".git", "node_modules"))
        for path, old, new in edits:
            p = os.path.join(repo, path)
            s = open(p).read()
            if s.count(old) < 1:
                return (case, "STALE", "edit does not apply: %s: %r" % (path, old[:60]))
            open(p, "w").write(s.replace(old, new, 1))
        b = subprocess.run(["go", "build", "./..."], cwd=repo, env=ENV, capture_output=True, text=True, errors="replace")
        if b.returncode:
            return (case, "NOBUILD", b.stderr[:600])
        if tests:
            t = subprocess.run(["go", "test", "-vet=off", "./api/", "./page/", "./store/...", "./utils/..."], cwd=repo, env=ENV, capture_output=True, text=True, errors="replace")
            if t.returncode:
                return (case, "TESTFAIL", (t.stdout + t.stderr)[-600:])
        v = os.path.join(d, "v")
        os.mkdir(v)
        if os.path.exists("/verif/known_findings.txt"):
            shutil.copy("/verif/known_findings.txt", v)
        e = dict(ENV, CK_REPO=repo, CK_VERIF=v)
        r = subprocess.run([CK] + (["all"] if kind == "same" else list(props)), env=e, capture_output=True, text=True, errors="replace")
        viol = [l.split("property=")[1].split()[0] for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
        if kind == "same":
            if viol or r.returncode:
                return (case, "ALARM", "\n".join(l for l in r.stdout.splitlines() if " ok: " not in l)[:2500] + r.stderr[:500])
            return (case, "ok", "")
        if set(props) & set(viol):
            return (case, "ok", " ".join(viol))
        return (case, "MISSED", "violations: " + " ".join(viol) + r.stderr[:500])
    finally:
        shutil.rmtree(d)

def main():
    args = sys.argv[1:]
    tests = "-t" in args
    args = [a for a in args if a != "-t"]
    load()
    cs = [c for c in cases if not args or any(a in c[1] or a in c[2] or a == c[0] for a in args)]
    bad = 0
    with cf.ThreadPoolExecutor(4) as ex:
        for case, st, msg in ex.map(lambda c: run(c, tests), cs):
            if st != "ok":
                bad += 1
                print("%-8s %s %s %s\n    %s" % (st, case[0], case[1], case[2], msg.replace("\n", "\n    ")))
    print("%d cases, %d bad" % (len(cs), bad))
    sys.exit(1 if bad else 0)

main()
