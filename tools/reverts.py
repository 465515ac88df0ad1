#!/usr/bin/env python3
"""For each repaired defect: undo the repair in a scratch copy and see that
the property's check reports it.  reverts.py [COMMIT...]"""
import os, re, shutil, subprocess, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for l in open(os.path.join(VERIF, "known-findings.txt")):
    m = re.match(r"fixed: property=(C\d+) ([0-9a-f]+) (.*)", l)
    if not m or sys.argv[1:] and m.group(2) not in sys.argv[1:]:
        continue
    prop, commit, what = m.groups()
    tmp = "/tmp/revert-" + commit
    shutil.rmtree(tmp, ignore_errors=True)
    shutil.copytree("/repo", tmp, symlinks=True)
    try:
        p = subprocess.run(["git", "revert", "--no-commit", commit], cwd=tmp, capture_output=True, text=True)
        if p.returncode:
            print(prop, commit, "does not revert alone:", p.stderr.strip().splitlines()[0], flush=True)
            continue
        p = subprocess.run(["python3", "run.py", prop, "quick"], cwd=VERIF, capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=tmp))
        v = [x for x in p.stdout.splitlines() if x.startswith("VIOLATION property=" + prop)]
        print(prop, commit, "REPORTED" if p.returncode == 1 and v else "MISSED (rc %d) %s" % (p.returncode, (p.stdout + p.stderr)[-300:]), "-", what, flush=True)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
