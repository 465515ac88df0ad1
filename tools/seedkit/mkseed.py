#!/usr/bin/env python3
"""Write, verify and try the planted bugs of seeds.py.
mkseed.py [-n] [ID...]    (-n: do not run the checks)"""
import json, os, shutil, subprocess, sys, re, concurrent.futures as cf
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(os.path.dirname(HERE))
BASE = "bf13c9a"
SEEDS = []


def seed(id, prop, edits, demo, needs, breaks, helper=True, raw=None):
    SEEDS[:] = [x for x in SEEDS if x["id"] != id]
    SEEDS.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, helper=helper, raw=raw or {}))


def sh(cmd, cwd=None, env=None, t=900):
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=dict(os.environ, **(env or {})), stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, timeout=t)
    return p.returncode, p.stdout


def do(s, run):
    d = os.path.join(VERIF, "seeded", s["id"])
    tmp = "/tmp/seed-" + s["id"]
    shutil.rmtree(tmp, ignore_errors=True)
    shutil.copytree("/repo", tmp, symlinks=True)
    good = False
    try:
        for f, old, new in s["edits"]:
            p = os.path.join(tmp, f)
            t = open(p).read()
            n = 1
            if old.startswith("@ALL@"):
                old, n = old[5:], t.count(old[5:])
            if t.count(old) != n or n == 0:
                return "edit of %s matches %d times" % (f, t.count(old))
            open(p, "w").write(t.replace(old, new))
        for f in {e[0] for e in s["edits"]}:
            sh("gofmt -l " + f, tmp)
        rc, out = sh("gofmt -l " + " ".join(sorted({e[0] for e in s["edits"] if "bitcask" not in e[0]}) or ["internal/tree/errors.go"]), tmp)
        if out.strip():
            return "not gofmt: " + out
        rc, diff = sh("git diff", tmp)
        # Only original lines are changed.
        rm = 0
        for f in {e[0] for e in s["edits"]}:
            _, bl = sh("git diff -U0 -- %s" % f, tmp)
            for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))? ", bl, re.M):
                a, n = int(m.group(1)), int(m.group(2) or 1)
                rm += n
                for l in range(a, a + n):
                    _, b = sh("git blame -s -L %d,%d HEAD -- %s" % (l, l, f), tmp)
                    if BASE not in b and "^" not in b.split()[0]:
                        return "changes a line of ours: " + b
        if rm == 0:
            return "changes no original line"
        os.makedirs(d, exist_ok=True)
        for x in os.listdir(d):
            os.remove(os.path.join(d, x))
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        if s["helper"]:
            shutil.copy(os.path.join(HERE, "helper_test.go"), d)
        if "demo.sh" not in s["raw"]:
            shutil.copy(os.path.join(HERE, "demo.sh"), d)
        if s["demo"]:
            open(os.path.join(d, "demo_test.go"), "w").write(s["demo"])
        for n, t in s["raw"].items():
            open(os.path.join(d, n), "w").write(t)
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        rc, out = sh("go build ./...", tmp)
        if rc:
            return "does not build: " + out
        rc, out = sh("go test -json -vet=off -count=1 ./...", tmp)
        ok = set()
        for l in out.splitlines():
            try:
                j = json.loads(l)
            except ValueError:
                continue
            if j.get("Action") == "pass" and j.get("Test"):
                ok.add(j["Package"] + "/" + j["Test"])
        base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
        bad = [x for x in base if x not in ok]
        if bad:
            return "breaks tests: %s (of %d ok)" % (bad[:4], len(ok))
        rc, out = sh(os.path.join(d, "demo.sh"), "/repo", t=300)
        if rc:
            return "demo fails on the unchanged tree (%d): %s" % (rc, out[-800:])
        rc, out = sh(os.path.join(d, "demo.sh"), tmp, t=300)
        if rc in (0, 3):
            return "demo does not fail with the change (%d) %s" % (rc, out[-500:])
        good = True
        if not run:
            return "ok (check not run)"
        rc, out = sh("python3 run.py %s quick" % s["prop"], VERIF, {"VERIF_REPO": tmp, "VERIF_SEED": "1", "VERIF_TIER": "quick"})
        v = [l for l in out.splitlines() if l.startswith("VIOLATION property=" + s["prop"])]
        if rc == 1 and v:
            return "CAUGHT " + out.strip().splitlines()[-1][:150]
        return "MISSED (rc %d) %s" % (rc, out.strip()[-300:])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
        if not good:
            shutil.rmtree(d, ignore_errors=True)


exec(open(os.path.join(HERE, "seeds.py")).read())
if __name__ == "__main__":
    a = sys.argv[1:]
    run = "-n" not in a
    a = [x for x in a if x != "-n"]
    todo = [s for s in SEEDS if not a or any(re.fullmatch(x, s["id"]) for x in a)]
    for s in todo:
        try:
            print(s["id"], s["prop"], do(s, run), flush=True)
        except subprocess.TimeoutExpired as e:
            print(s["id"], "timeout", e, flush=True)
