#!/usr/bin/env python3
"""Syntactic mutants of the code, to see what the checks miss:
automut.py [-n COUNT] [-s SEED] [-j JOB] [-a REGEX_FILE] ; prints one line per
mutant: dead (does not build or fails the tests), caught by which check, or
MISSED by all of the checks its file is mapped to."""
import argparse, hashlib, json, os, random, re, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
MAP = [
    (r"internal/rpc2/auth\.go", "C04 C31 C07 C27 C25"),
    (r"internal/rpc2/entity\.go", "C05 C15 C12 C13 C14 C16 C10 C09 C22 C27"),
    (r"internal/rpc2/group\.go", "C05 C06 C15 C01 C12 C13 C16 C22 C10 C27"),
    (r"internal/rpc2/system\.go", "C17 C28 C05 C27 C10"),
    (r"internal/rpc2/util\.go", "C05 C06 C07 C09 C10 C27"),
    (r"internal/rpc2/", "C10 C05 C33"),
    (r"internal/tree/hooks/.*(kv)", "C12 C11 C18"),
    (r"internal/tree/hooks/.*(untyped)", "C13 C15 C18"),
    (r"internal/tree/hooks/.*(keys)", "C14 C18"),
    (r"internal/tree/hooks/.*(expansion)", "C02 C01 C11"),
    (r"internal/tree/hooks/.*(capab)", "C17 C07 C18"),
    (r"internal/tree/hooks/.*(secret|lock)", "C04 C25 C31 C30"),
    (r"internal/tree/hooks/create-entity", "C30 C16 C33"),
    (r"internal/tree/hooks/direct", "C01 C16 C18"),
    (r"internal/tree/hooks/", "C16 C15 C01 C11 C18 C30"),
    (r"internal/tree/util/", "C13 C12 C14 C01"),
    (r"internal/tree/membership", "C01 C02 C03"),
    (r"internal/tree/search", "C22 C05"),
    (r"internal/tree/.*chain|internal/tree/manager|internal/tree/defaults|internal/tree/type|internal/tree/basehook", "C24 C30 C16 C04"),
    (r"internal/tree/entity\.go", "C16 C15 C04 C30 C12 C18 C17 C19 C14"),
    (r"internal/tree/group\.go", "C16 C15 C01 C02 C12 C13 C18 C19 C17"),
    (r"internal/mresolver", "C01 C02 C03 C19"),
    (r"internal/db/bitcask", "C20 C21 C03 C33 C23"),
    (r"internal/db/filesystem", "C20 C21 C03 C33 C23"),
    (r"internal/db/memory", "C20 C03 C18"),
    (r"internal/db/search|internal/db/callback", "C22 C03 C19 C16"),
    (r"internal/db/", "C16 C18 C03 C11 C19 C22 C20"),
    (r"internal/crypto/", "C31 C04"),
    (r"internal/health", "C28"),
    (r"internal/plugin", "C24"),
    (r"internal/token/cache|token/cache", "C29 C26"),
    (r"token/", "C08 C07 C33"),
    (r"internal/token", "C08 C07 C33"),
    (r"pkg/netauth", "C26 C32 C29"),
    (r"pkg/plugin", "C24"),
    (r"cmd/netauthd|internal/startup|internal/logging", "C33"),
    (r"cmd/nsutil", "C23"),
    (r"cmd/netauth|internal/ctl", "C32"),
    (r"plugins/", "C25"),
]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("-n", type=int, default=50)
    ap.add_argument("-s", type=int, default=1)
    ap.add_argument("-j", default="1")
    ap.add_argument("-a", default=".")
    ap.add_argument("--skip", type=int, default=0)
    a = ap.parse_args()
    tmp = "/tmp/automut-" + a.j
    shutil.rmtree(tmp, ignore_errors=True)
    shutil.copytree("/repo", tmp, symlinks=True)
    fs = subprocess.check_output("git ls-files '*.go' | grep -v _test.go | grep -v pb.go | grep -v _windows | grep -v crypto/nocrypto | grep -v token/null", shell=True, cwd="/repo", text=True).split()
    fs = [f for f in fs if re.search(a.a, f)]
    out = subprocess.check_output(["go", "run", HERE + "/automut/main.go", "--"] + fs, cwd="/repo", text=True)
    ms = [json.loads(l) for l in out.splitlines()]
    random.Random(a.s).shuffle(ms)
    print("%d mutants in %d files" % (len(ms), len(fs)), flush=True)
    env = dict(os.environ, VERIF_REPO=tmp)
    done = 0
    try:
        for m in ms[a.skip:]:
            if done >= a.n:
                break
            props = next((p for r, p in MAP if re.search(r, m["file"])), "C05").split()
            p = os.path.join(tmp, m["file"])
            src = open(p, "rb").read()
            new = src[:m["start"]] + m["new"].encode() + src[m["end"]:]
            where = "%s:%d %s [%s] %s" % (m["file"], m["line"], m["fn"], m["op"], src[m["start"]:m["end"]].decode()[:70].replace("\n", "\\n"))
            open(p, "wb").write(new)
            try:
                if subprocess.run("go build ./... ", shell=True, cwd=tmp, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode:
                    continue
                try:
                    t = subprocess.run("timeout 120 go test -json -vet=off -count=1 ./...", shell=True, cwd=tmp, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace").stdout
                except Exception as e:
                    continue
                ok = set()
                for l in t.splitlines():
                    if '"pass"' in l:
                        try:
                            j = json.loads(l)
                        except ValueError:
                            continue
                        if j.get("Action") == "pass" and j.get("Test"):
                            ok.add(j["Package"] + "/" + j["Test"])
                if any(x not in ok for x in STABLE):
                    continue
                done += 1
                res = "MISSED"
                for c in props:
                    r = subprocess.run("timeout 400 python3 run.py %s quick" % c, shell=True, cwd=VERIF, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
                    if r.returncode == 1 and "VIOLATION property=" + c in r.stdout:
                        res = "caught " + c
                        break
                    if r.returncode:
                        res = "TROUBLE %s rc %d" % (c, r.returncode)
                        if r.returncode != 2:
                            pass
                print(res, "|", where, flush=True)
            finally:
                open(p, "wb").write(src)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


STABLE = json.load(open("/opt/vp/BASELINE.json"))["stable"]
main()
