#!/usr/bin/env python3
"""Driver: builds the generated-input checks from /repo's working tree, runs
them in parallel worker processes and reports.

  run.py PROP [quick|thorough] [--suite S] [--scale F] [--shards N]
  run.py --replay FILE            re-runs one saved case
  run.py --build-only AREA OUT    builds a worker binary
  run.py --warm                   builds every worker once (setup)

Exit 0: the property held on everything explored.  Exit 1, with a line
"VIOLATION property=<id> replay=<path>": it did not.  Anything else: the
check could not decide (build failure, resources).
"""
import glob, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
PROC = []


def load_areas():
    return json.load(open(os.path.join(VERIF, "harness", "areas.json")))


def die(msg):
    print("ERROR: " + msg, flush=True)
    cleanup()
    sys.exit(2)


SCRATCH = None


def scratch():
    global SCRATCH
    if SCRATCH:
        return SCRATCH
    base = None
    try:
        st = os.statvfs("/dev/shm")
        if st.f_bavail * st.f_frsize > 3 << 30 and os.access("/dev/shm", os.W_OK):
            base = "/dev/shm"
    except OSError:
        pass
    SCRATCH = tempfile.mkdtemp(prefix="verif-", dir=base)
    return SCRATCH


def cleanup():
    for p in PROC:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
    if SCRATCH:
        shutil.rmtree(SCRATCH, ignore_errors=True)


def goenv():
    e = dict(os.environ)
    for k in list(e):
        if k.startswith("NETAUTH") or k in ("GOFLAGS", "GOOS", "GOARCH", "GO111MODULE"):
            del e[k]
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GOSUMDB="off", CGO_ENABLED=e.get("CGO_ENABLED", "1"))
    return e


def build(area, out):
    """Builds the worker of an area from /repo's current tree."""
    a = load_areas()[area]
    sc = scratch()
    mod = os.path.join(sc, area + ".mod")
    shutil.copy(os.path.join(REPO, "go.mod"), mod)
    shutil.copy(os.path.join(REPO, "go.sum"), mod[:-4] + ".sum")
    rep = {}
    for src in sorted(glob.glob(os.path.join(VERIF, "harness", "eng", "*.go"))):
        rep[os.path.join(REPO, "internal/zzv/eng", os.path.basename(src))] = src
    for src in sorted(glob.glob(os.path.join(VERIF, "harness", a["dir"], "*.go"))):
        rep[os.path.join(REPO, a["pkg"], a.get("prefix", "") + os.path.basename(src))] = src
    for drop in a.get("hide", []):
        for f in glob.glob(os.path.join(REPO, a["pkg"], drop)):
            rep.setdefault(f, "")
    ov = os.path.join(sc, area + ".overlay.json")
    json.dump({"Replace": rep}, open(ov, "w"))
    env = goenv()
    env["GOFLAGS"] = "-mod=mod -modfile=" + mod
    cmd = ["go", "test", "-vet=off", "-overlay", ov, "-c", "-o", out]
    if a.get("race"):
        cmd.append("-race")
        env["CGO_ENABLED"] = "1"
    cmd.append("./" + a["pkg"])
    p = subprocess.run(cmd, cwd=REPO, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0 or not os.path.exists(out):
        return p.stdout[-4000:] or "no output"
    for var, pkg in a.get("bins", {}).items():
        b = os.path.join(sc, os.path.basename(pkg))
        p = subprocess.run(["go", "build", "-o", b, "./" + pkg], cwd=REPO, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            return p.stdout[-4000:] or "no output"
        os.environ[var] = b
    return None


class Worker:
    def __init__(self, binp, env, tag, timeout):
        self.tag, self.timeout = tag, timeout
        self.dir = os.path.join(scratch(), "w-" + tag)
        os.makedirs(os.path.join(self.dir, "tmp"))
        os.makedirs(os.path.join(self.dir, "cwd"))
        self.out = os.path.join(self.dir, "result.json")
        self.journal = os.path.join(self.dir, "journal")
        e = goenv()
        e.update(env)
        e.update(VERIF_OUT=self.out, VERIF_JOURNAL=self.journal, VERIF_SCRATCH=os.path.join(self.dir, "tmp"),
                 TMPDIR=os.path.join(self.dir, "tmp"), HOME=self.dir, GOMEMLIMIT="2500MiB", GOTRACEBACK="all")
        e.setdefault("GOMAXPROCS", "4")
        self.errf = open(os.path.join(self.dir, "stderr"), "wb")
        self.outf = open(os.path.join(self.dir, "stdout"), "wb")
        self.t0 = time.time()
        self.p = subprocess.Popen([binp, "-test.run", "^TestVerif$", "-test.timeout", "0"],
                                  cwd=os.path.join(self.dir, "cwd"), env=e, stdout=self.outf, stderr=self.errf,
                                  stdin=subprocess.DEVNULL, start_new_session=True)
        PROC.append(self.p)

    def wait(self):
        self.timed_out = False
        try:
            self.p.wait(max(1, self.timeout - (time.time() - self.t0)))
        except subprocess.TimeoutExpired:
            self.timed_out = True
            os.killpg(self.p.pid, signal.SIGKILL)
            self.p.wait()
        self.errf.close()
        self.outf.close()
        self.rc = self.p.returncode
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass
        return self.rc

    def text(self, which="stderr", n=20000):
        with open(os.path.join(self.dir, which), "rb") as f:
            d = f.read()
        if len(d) > 2 * n:
            d = d[:n] + b"\n...\n" + d[-n:]
        return d.decode("utf-8", "replace")

    def result(self):
        try:
            return json.load(open(self.out))
        except Exception:
            return None

    def case(self):
        try:
            b = open(self.journal, "rb").read()
            n = int(b[:15])
            return json.loads(b[16:16 + n])
        except Exception:
            return None


COUNT = [0]


def replay(binp, rep, timeout=240, env=None):
    """Replays a case in a fresh process: ('hit'|'miss'|'crash'|'hang'|'error', text)."""
    COUNT[0] += 1
    f = os.path.join(scratch(), "replay-%d.json" % COUNT[0])
    json.dump(rep, open(f, "w"))
    e = {"VERIF_REPLAY": f}
    e.update(env or {})
    w = Worker(binp, e, "replay-%d" % COUNT[0], timeout)
    rc = w.wait()
    out, err = w.text("stdout"), w.text()
    kind = classify(w, rc, out, err)
    txt = out if kind in ("hit", "miss") else crash_text(err + out)
    shutil.rmtree(w.dir, ignore_errors=True)
    return kind, txt


def classify(w, rc, out, err):
    if w.timed_out:
        return "error"
    if rc == 97:
        return "hang"
    if rc == 1 and "REPRODUCED" in out and "NOT REPRODUCED" not in out:
        return "hit"
    if rc == 0:
        return "miss"
    both = err + out
    if "harness panic" in both or "out of memory" in both or "cannot allocate memory" in both:
        return "error"
    if rc < 0:
        return "error"
    if rc == 66 or "WARNING: DATA RACE" in both:
        return "crash"
    if "fatal error:" in both or "panic:" in both or "SIGSEGV" in both:
        return "crash"
    return "error"


def crash_text(s):
    m = re.search(r"(WARNING: DATA RACE|fatal error:|panic:|runtime: goroutine stack exceeds|HANG:)", s)
    s = s[m.start():] if m else s
    keep = [l for l in s.split("\n") if "/repo/" in l or re.match(r"(WARNING|fatal|panic|runtime:|HANG)", l)]
    return "\n".join(l.strip() for l in (keep[:30] or s.split("\n")[:30]))


def shrink_crash(binp, rep, want, budget=60):
    """Removes operations while the fresh process still dies the same way."""
    t0 = time.time()
    best = rep
    tries = 0

    def attempt(c):
        nonlocal best, tries
        if time.time() - t0 > budget or tries > 80:
            return False
        tries += 1
        r = dict(best)
        r["case"] = c
        k, _ = replay(binp, r, timeout=120)
        if k == want:
            best = r
            return True
        return False

    if want not in ("crash", "hit"):
        return best
    n = max(1, len(best["case"]["ops"] or []) // 2)
    while n >= 1 and time.time() - t0 < budget:
        i = len(best["case"]["ops"]) - n
        progress = False
        while i >= 0:
            c = json.loads(json.dumps(best["case"]))
            del c["ops"][i:i + n]
            if attempt(c):
                progress = True
            i -= n
        if n == 1 and not progress:
            break
        n = max(1, n // 2) if n > 1 else 1
        if n == 1 and not progress and time.time() - t0 > budget:
            break
    return best


def known_findings(prop):
    out = {}
    try:
        for l in open(os.path.join(VERIF, "known-findings.txt")):
            m = re.match(r"known: property=(\S+) id=(\S+) (.*)", l.strip())
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3)
    except OSError:
        pass
    return out


def title(prop):
    for l in open(os.path.join(VERIF, "properties.jsonl")):
        d = json.loads(l)
        if d["id"] == prop:
            return d["title"]
    return prop


def violation(prop, rep, confirm):
    rd = os.path.join(VERIF, "replays")
    os.makedirs(rd, exist_ok=True)
    rep = dict(rep)
    rep["property"] = prop
    rep["confirmed"] = confirm
    h = hashlib.sha256(json.dumps(rep.get("case"), sort_keys=True).encode()).hexdigest()[:10]
    path = os.path.join(rd, "%s-%s-%s.json" % (prop, rep["suite"], h))
    json.dump(rep, open(path, "w"), indent=1)
    print("%s (%s): %s" % (prop, rep["suite"], rep.get("message", "")))
    for l in (rep.get("trace") or [])[-40:]:
        print("    " + l)
    print("confirmation: " + confirm)
    print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
    return path


def main():
    args = sys.argv[1:]
    opts = {}
    pos = []
    while args:
        a = args.pop(0)
        if a in ("--suite", "--scale", "--shards", "--replay", "--area"):
            opts[a[2:]] = args.pop(0)
        elif a.startswith("--"):
            opts[a[2:]] = True
        else:
            pos.append(a)
    areas = load_areas()
    if "build-only" in opts:
        e = build(pos[0], os.path.abspath(pos[1]))
        cleanup()
        if e:
            print(e)
        sys.exit(2 if e else 0)
    if "warm" in opts:
        bad = 0
        for a in areas:
            e = build(a, os.path.join(scratch(), a + ".bin"))
            print("build %s: %s" % (a, e or "ok"))
            bad |= bool(e)
        cleanup()
        sys.exit(2 if bad else 0)
    if "replay" in opts:
        rep = json.load(open(opts["replay"]))
        prop = rep["property"]
        for name, a in areas.items():
            if rep["suite"] in a["suites"].get(prop, []):
                b = os.path.join(scratch(), name + ".bin")
                e = build(name, b)
                if e:
                    die(e)
                k, txt = replay(b, rep)
                print(txt)
                print({"hit": "VIOLATION property=%s replay=%s" % (prop, opts["replay"]),
                       "crash": "VIOLATION property=%s replay=%s" % (prop, opts["replay"]),
                       "hang": "VIOLATION property=%s replay=%s" % (prop, opts["replay"])}.get(k, k))
                cleanup()
                sys.exit({"miss": 0, "error": 2}.get(k, 1))
        die("no suite " + rep["suite"])
    prop = pos[0]
    tier = pos[1] if len(pos) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    mine = [n for n, a in areas.items() if prop in a["suites"]]
    if not mine:
        die("no check for " + prop)
    limit = 780 if tier == "quick" else 5400
    bins = {}
    errs = {}

    def b(n):
        errs[n] = build(n, os.path.join(scratch(), n + ".bin"))
        bins[n] = os.path.join(scratch(), n + ".bin")

    for n in mine:
        b(n)
    for n in mine:
        if errs[n]:
            die("the %s harness does not build against the current tree:\n%s" % (n, errs[n]))
    nsh = int(opts.get("shards", 0)) or (os.cpu_count() or 4)
    nsh = max(2, min(nsh, 8))
    env = {"VERIF_PROP": prop, "VERIF_TIER": tier, "VERIF_SEED": str(seed)}
    if "suite" in opts:
        env["VERIF_SUITE"] = opts["suite"]
    if "scale" in opts:
        env["VERIF_SCALE"] = opts["scale"]
    status = 0
    agg = {"evaluations": 0, "nontrivial": set(), "per_suite": {}, "samples": [], "rules": {}, "foreign": {}, "known": set()}
    vio = None
    trouble = []
    for n in mine:
        a = areas[n]
        shards = min(nsh, a.get("max_shards", 8))
        ws = []
        for i in range(shards):
            e = dict(env)
            e["VERIF_SHARD"] = "%d/%d" % (i, shards)
            e["VERIF_SUITES"] = " ".join(a["suites"][prop])
            e.update(a.get("env", {}))
            ws.append(Worker(bins[n], e, "%s-%d" % (n, i), limit - (time.time() - t0)))
        for w in ws:
            w.wait()
        for w in ws:
            r = w.result()
            if r:
                agg["evaluations"] += r["evaluations"]
                agg["nontrivial"].update(r["nontrivial"] or [])
                for s, d in r["per_suite"].items():
                    t = agg["per_suite"].setdefault(s, {})
                    for k, v in d.items():
                        t[k] = t.get(k, 0) + v
                agg["samples"] += (r["samples"] or [])
                agg["rules"].update(r["rules"])
                for k, v in (r["foreign"] or {}).items():
                    agg["foreign"][k] = agg["foreign"].get(k, 0) + v
                agg["known"].update(r["known"] or [])
            if w.rc == 0 and r and r["done"]:
                continue
            if vio:
                continue
            if w.rc == 1 and r and r.get("violation"):
                rep = r["violation"]
                conf = None
                whole = rep.pop("unshrunk", None)
                for k in range(8):
                    kind, txt = replay(bins[n], rep, env=a.get("env"))
                    if kind in ("hit", "crash", "hang"):
                        conf = "reproduced in a fresh process (attempt %d)" % (k + 1)
                        break
                    if kind == "error":
                        break
                if not conf and whole and not rep.get("schedule_dependent"):
                    # What cases leave behind in the process may have misled the shrinking.
                    orig = dict(rep, case=whole)
                    for k in range(4):
                        if replay(bins[n], orig, env=a.get("env"))[0] == "hit":
                            rep = shrink_crash(bins[n], orig, "hit")
                            conf = "the unshrunk case reproduced in a fresh process (attempt %d), and was shrunk in such" % (k + 1)
                            break
                if not conf and rep.get("schedule_dependent"):
                    conf = "schedule-dependent; the recorded history is the evidence"
                if conf:
                    vio = (rep, conf)
                else:
                    trouble.append("a failure did not reproduce in a fresh process: " + rep["message"])
                continue
            out, err = w.text("stdout"), w.text()
            kind = classify(w, w.rc, out, err)
            if kind in ("crash", "hang") and w.case():
                rep = w.case()
                hits = 0
                for k in range(5):
                    k2, txt = replay(bins[n], rep, env=a.get("env"))
                    if k2 == kind or k2 == "hit":
                        hits += 1
                        break
                rep["message"] = ("the process under test dies" if kind == "crash" else "a request never ends") + ":\n" + crash_text(err + out)
                if hits:
                    rep = shrink_crash(bins[n], rep, kind)
                    vio = (rep, "the %s shows again in a fresh process" % kind)
                elif a.get("sched") and kind == "crash":
                    vio = (rep, "schedule-dependent; the recorded failure is the evidence")
                else:
                    trouble.append("a worker died (%s) and the case did not repeat it: %s" % (kind, crash_text(err + out)[:1500]))
            else:
                trouble.append("worker %s: exit %s%s\n%s" % (w.tag, w.rc, " (time limit)" if w.timed_out else "", (lambda x: x if len(x) < 4000 else x[:2500] + "\n...\n" + x[-1500:])(err + out)))
    wall = time.time() - t0
    kf = known_findings(prop)
    for k in sorted(agg["known"]):
        if k in kf:
            print("KNOWN-FINDING: property=%s %s %s" % (prop, k, kf[k]))
        elif not vio:
            trouble.append("finding %s is not in known-findings.txt" % k)
    level = "exploration"
    for c in json.load(open(os.path.join(VERIF, "MANIFEST.json")))["checks"]:
        if c["property"] == prop:
            level = c["level"]
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev = {
        "property": prop, "tier": "thorough" if tier == "thorough" else "quick", "seed": seed, "level": level,
        "coverage": {
            "evaluations": agg["evaluations"],
            "distinct_nontrivial": len(agg["nontrivial"]),
            "rule": "; ".join("%s: %s" % (k, v) for k, v in sorted(agg["rules"].items())),
            "samples": agg["samples"][:12],
            "suites": agg["per_suite"],
            "abandoned_cases": agg["foreign"],
        },
        "wall_s": round(wall, 2),
        "assumptions": areas[mine[0]].get("assumptions", []),
        "violations": 1 if vio else 0,
    }
    if trouble:
        ev["coverage"]["trouble"] = trouble[:5]
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    if vio:
        violation(prop, *vio)
        status = 1
    elif trouble:
        for t in trouble[:5]:
            print("ERROR: " + t)
        status = 2
    else:
        print("%s held: %d cases, %d distinct non-trivial, %.1f s (%s)" % (prop, agg["evaluations"], len(agg["nontrivial"]), wall, tier))
        if agg["foreign"]:
            print("  abandoned: %s" % {k[:90]: v for k, v in list(agg["foreign"].items())[:5]})
    if os.environ.get("VERIF_CLASSES"):
        print(json.dumps(agg["per_suite"], indent=1))
    cleanup()
    sys.exit(status)


if __name__ == "__main__":
    try:
        main()
    except SystemExit:
        raise
    except KeyboardInterrupt:
        cleanup()
        sys.exit(2)
    except Exception:
        import traceback
        traceback.print_exc()
        cleanup()
        sys.exit(2)
