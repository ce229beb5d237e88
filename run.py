#!/usr/bin/env python3
"""Builds the harness against /repo's working tree and decides one property.

usage: run.py <property> [--tier quick|thorough] [--seed N] [--replay FILE] [--n CASES] | run.py --setup
exit 0: held on everything explored; 1: violated (VIOLATION line); 2: could not be decided.
"""
import argparse, json, os, re, shutil, signal, struct, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.abspath(__file__))
H = os.path.join(V, "harness")
RACE = {"C13", "C22", "C42", "C47"}
# processes per check; fewer where the oracle has to do with time
SHARDS = {"C13": 2, "C47": 2, "C22": 2, "C33": 2, "C41": 2, "C42": 2}
ENV = dict(os.environ, GOFLAGS="-mod=readonly", GOPROXY="off", GOTOOLCHAIN="local", GOSUMDB="off", GOWORK="off", GO111MODULE="on")
ENV.setdefault("HOME", "/root")
ENV.pop("GODEBUG", None)

def build(race, out):
    cmd = ["go", "build", "-trimpath"] + (["-race"] if race else []) + ["-o", out, "."]
    r = subprocess.run(cmd, cwd=H, env=dict(ENV, CGO_ENABLED="1" if race else ENV.get("CGO_ENABLED", "1")), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        print("harness error: build failed\n" + r.stdout, file=sys.stderr)
        sys.exit(2)

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--setup", action="store_true")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--n", type=int, default=0)
    ap.add_argument("--shards", type=int, default=0)
    a = ap.parse_args()
    tmp = tempfile.mkdtemp(prefix="gofre-verif-")
    try:
        if a.setup:
            build(False, os.path.join(tmp, "h")); build(True, os.path.join(tmp, "hr"))
            print("setup: harness builds"); return 0
        if not a.prop: ap.error("property id missing")
        return decide(a, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

def decide(a, tmp):
    t0 = time.time()
    exe = os.path.join(tmp, "h")
    build(a.prop in RACE, exe)
    ev = os.path.join(V, "evidence", a.prop + ".json")
    os.makedirs(os.path.dirname(ev), exist_ok=True)
    rdir = os.path.join(V, "replays"); os.makedirs(rdir, exist_ok=True)
    rep = os.path.join(rdir, "%s-%d.json" % (a.prop, a.seed))
    if not a.replay and os.path.exists(ev): os.remove(ev)
    k = 1 if a.replay else a.shards or min(SHARDS.get(a.prop, 4), max(1, os.cpu_count() or 1))
    procs = [Shard(a, tmp, exe, i, k) for i in range(k)]
    limit = t0 + (800 if a.tier == "quick" else 3600)
    # The first shard that ends with something other than 0 decides.
    bad = None
    left = list(procs)
    while left and bad is None:
        for p in list(left):
            if p.proc.poll() is not None:
                left.remove(p)
                if p.proc.returncode != 0 and bad is None: bad = p
        if bad is None and left:
            if time.time() > limit: bad = left[0]
            else: time.sleep(0.02)
    timeout = bad is not None and bad.proc.returncode is None
    for p in left: p.kill()
    stderr = bad.stderr() if bad else ""
    cov = {"evaluations": 0, "distinct_nontrivial": 0, "rule": "", "samples": [], "classes": {}}
    seen = set()
    for p in procs:
        e = p.evidence()
        if not e: continue
        c = e["coverage"]
        cov["evaluations"] += c["evaluations"]; cov["rule"] = c["rule"]
        for n, v in c.get("classes", {}).items(): cov["classes"][n] = cov["classes"].get(n, 0) + v
        cov["samples"] += c["samples"]
        seen.update(p.hashes())
    cov["distinct_nontrivial"] = len(seen)
    cov["samples"] = cov["samples"][:8]
    cov["processes"] = k

    def evidence(violations):
        if a.replay: return
        json.dump({"property": a.prop, "tier": a.tier, "seed": a.seed, "level": "exploration", "coverage": cov,
                   "wall_s": round(time.time() - t0, 2), "violations": violations}, open(ev, "w"), indent=1)

    if bad is None:
        evidence(0)
        if a.replay: print(procs[0].stdout().strip())
        else: print("%s: %d cases, %d distinct non-trivial, %.1fs, %d processes, classes %s" % (a.prop, cov["evaluations"], len(seen), time.time() - t0, k, json.dumps(cov["classes"], sort_keys=True)))
        for p in procs:
            sys.stderr.write(p.stderr()[-2000:])
        return 0
    if not timeout and bad.proc.returncode == 1:
        if not cov["rule"]: cov["rule"] = "a case did not come back"
        evidence(1)
        shutil.copy(bad.rep, rep)
        sys.stderr.write(stderr[-4000:])
        out = [l for l in bad.stdout().splitlines() if not l.startswith("VIOLATION ")]
        print("\n".join(out))
        print("VIOLATION property=%s replay=%s" % (a.prop, rep))
        return 1
    # The process died. A data race or a fatal error of the Go runtime below the
    # framework's code is a violation by the case that was being executed.
    crash = re.search(r"WARNING: DATA RACE|^fatal error: (?!runtime: out of memory|runtime: cannot allocate)|^panic: ", stderr, re.M)
    infw = "github.com/ixtendio/gofre" in stderr
    if not timeout and crash and infw and os.path.exists(bad.cur):
        data = open(bad.cur, encoding="utf-8", errors="replace").read()
        try: case = json.loads(data)
        except ValueError: case = data
        json.dump({"property": a.prop, "case": case, "error": stderr[:6000]}, open(rep, "w"), indent=1)
        cov["rule"] = cov["rule"] or "the process died while executing this case"
        cov["samples"] = cov["samples"] or [case]
        cov["evaluations"] = cov["evaluations"] or 1
        evidence(1)
        sys.stderr.write(stderr[:4000])
        print("property %s violated: %s" % (a.prop, crash.group(0)))
        print("VIOLATION property=%s replay=%s" % (a.prop, rep))
        return 1
    sys.stderr.write(stderr[-4000:])
    print("harness error: %s ended with %s" % (a.prop, "a timeout" if timeout else bad.proc.returncode), file=sys.stderr)
    return 2

class Shard:
    def __init__(self, a, tmp, exe, i, k):
        self.dir = os.path.join(tmp, "s%d" % i)
        work = os.path.join(self.dir, "work"); os.makedirs(work)
        self.ev, self.rep, self.cur, self.hash = (os.path.join(self.dir, n) for n in ("ev.json", "replay.json", "current.json", "hashes"))
        cmd = [exe, "-prop", a.prop, "-tier", a.tier, "-seed", str(a.seed), "-replay-out", self.rep, "-current", self.cur,
               "-corpus", os.path.join(V, "corpus"), "-shard", str(i), "-shards", str(k)]
        if a.n: cmd += ["-n", str(a.n)]
        if a.replay: cmd += ["-replay", os.path.abspath(a.replay)]
        else: cmd += ["-evidence", self.ev, "-hashes", self.hash]
        self.out = open(os.path.join(self.dir, "out"), "w"); self.err = open(os.path.join(self.dir, "err"), "w")
        self.proc = subprocess.Popen(cmd, cwd=work, stdout=self.out, stderr=self.err, start_new_session=True,
                                     env=dict(ENV, TMPDIR=work, GORACE="halt_on_error=1 exitcode=66", GOTRACEBACK="single"))
    def kill(self):
        try: os.killpg(self.proc.pid, signal.SIGKILL)
        except ProcessLookupError: pass
        self.proc.wait()
    def read(self, n):
        return open(os.path.join(self.dir, n), encoding="utf-8", errors="replace").read()
    def stdout(self): return self.read("out")
    def stderr(self): return self.read("err")
    def evidence(self):
        try: return json.load(open(self.ev))
        except (OSError, ValueError): return None
    def hashes(self):
        try: b = open(self.hash, "rb").read()
        except OSError: return []
        return struct.unpack("<%dQ" % (len(b) // 8), b)

if __name__ == "__main__":
    sys.exit(main())
