#!/usr/bin/env python3
"""Small wrong changes, to see what the checks miss: mutants.py [-p PROP] [REGEX...]
Each of mutants_list.py's entries is (property, name, [(file, old, new)...]);
it is applied to a copy of /repo, has to build and to pass the stable tests,
and the property's check has to report it."""
import json, os, re, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
M = []


def m(prop, name, *edits):
    M.append((prop, name, edits))


def sh(cmd, cwd=None, env=None, t=1500):
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=dict(os.environ, **(env or {})), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
    return p.returncode, p.stdout


def try_one(prop, name, edits):
    tmp = "/tmp/mutant-%d" % os.getpid()
    shutil.rmtree(tmp, ignore_errors=True)
    shutil.copytree("/repo", tmp, symlinks=True)
    try:
        for f, old, new in edits:
            p = os.path.join(tmp, f)
            t = open(p).read()
            if t.count(old) != 1:
                return "?? %s matches %d times" % (f, t.count(old))
            open(p, "w").write(t.replace(old, new))
        rc, out = sh("go build ./...", tmp)
        if rc:
            return "?? does not build: " + out[:500]
        _, out = sh("go test -json -vet=off -count=1 ./...", tmp)
        ok = set()
        for l in out.splitlines():
            try:
                j = json.loads(l)
            except ValueError:
                continue
            if j.get("Action") == "pass" and j.get("Test"):
                ok.add(j["Package"] + "/" + j["Test"])
        bad = [x for x in json.load(open("/opt/vp/BASELINE.json"))["stable"] if x not in ok]
        if bad:
            return "?? breaks tests: %s" % bad[:3]
        rc, out = sh("python3 run.py %s quick" % prop, VERIF, {"VERIF_REPO": tmp})
        v = [l for l in out.splitlines() if l.startswith("VIOLATION property=" + prop)]
        if rc == 1 and v:
            return "caught   " + out.strip().splitlines()[-1][:140]
        return "MISSED (rc %d) %s" % (rc, out.strip()[-200:])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


exec(open(os.path.join(HERE, "mutants_list.py")).read())
if __name__ == "__main__":
    a = sys.argv[1:]
    only = None
    if a[:1] == ["-p"]:
        only, a = a[1].split(","), a[2:]
    for p, n, e in M:
        if (only and p not in only) or (a and not any(re.search(x, n) for x in a)):
            continue
        print(p, n, try_one(p, n, e), flush=True)
