#!/usr/bin/env python3
"""Which statements of /repo no check executes: cover.py [ID...]; writes
/tmp/verif-cover.txt (file:line of blocks never run), for finding behaviour
the generators do not reach.  Development only."""
import glob, json, os, re, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
import run
D = "/tmp/verif-cover"
os.makedirs(D, exist_ok=True)
real, popen = subprocess.run, subprocess.Popen
PK = "-coverpkg=" + ",".join(real(["go", "list", "./..."], cwd=run.REPO, stdout=subprocess.PIPE, text=True).stdout.split())


def patched(cmd, *a, **k):
    if cmd[:2] in (["go", "test"], ["go", "build"]):
        cmd = cmd[:2] + ["-cover", "-covermode=atomic", PK] + cmd[2:]
    return real(cmd, *a, **k)


n = [0]


def ppopen(cmd, *a, **k):
    if "-test.run" in cmd:
        n[0] += 1
        cmd = cmd + ["-test.coverprofile=%s/%d-%d.txt" % (D, os.getpid(), n[0])]
        k["env"] = dict(k["env"], GOCOVERDIR=D)
    return popen(cmd, *a, **k)


ids = sys.argv[1:] or [json.loads(l)["id"] for l in open(os.path.join(run.VERIF, "properties.jsonl"))]
if len(ids) > 1 or not os.environ.get("VERIF_COVER_ONE"):
    for i in ids:
        real([sys.executable, os.path.abspath(__file__), i], env=dict(os.environ, VERIF_COVER_ONE="1"))
    hit, allb = set(), {}
    fs = glob.glob(D + "/*.txt")
    out = real(["go", "tool", "covdata", "textfmt", "-i=" + D, "-o=" + D + "/bins.txt"], cwd=run.REPO)
    for f in set(fs) | {D + "/bins.txt"}:
        if not os.path.exists(f):
            continue
        for l in open(f):
            m = re.match(r"(\S+):(\d+)\.(\d+),(\d+)\.(\d+) (\d+) (\d+)", l)
            if m and "zzv" not in m.group(1):
                key = (m.group(1), int(m.group(2)), int(m.group(4)))
                allb[key] = int(m.group(6))
                if m.group(7) != "0":
                    hit.add(key)
    with open("/tmp/verif-cover.txt", "w") as o:
        for k in sorted(allb):
            if k not in hit:
                o.write("%s:%d-%d\n" % k)
    print("%d of %d blocks never run" % (len(allb) - len(hit & set(allb)), len(allb)))
else:
    run.subprocess.run, run.subprocess.Popen = patched, ppopen
    sys.argv = ["run.py", ids[0], "quick"]
    run.main()
