#!/usr/bin/env python3
"""check.py Cxx [--replay FILE] | --setup

Builds the harness from /repo's working tree (build tag verif), runs the generated cases of one property in shards,
merges what they report into evidence/<id>.json and decides:
  exit 0  the property held on everything explored
  exit 1  a line "VIOLATION property=<id> replay=<path>"
  exit 2  inconclusive (build failure, harness error, time-out, unexplained death)
"""
import json, os, re, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(HERE, "harness")
GOROOT = "/opt/veriftools/go1.25.14"
SHARDS = 8
RACE = {"C07"}          # properties with a part that runs in a -race binary
# parts that are also searched guided by coverage: (part, seconds in the quick tier, seconds in the thorough tier)
COV = {
    "C01": [("fold", 10, 600)], "C02": [("acks", 10, 600)], "C03": [("interest", 10, 600)], "C04": [("faults", 10, 600)],
    "C05": [("sched", 10, 600)], "C06": [("sched", 10, 600)],
    "C08": [("match", 10, 600)], "C10": [("resolve", 10, 600)], "C11": [("decode", 10, 600)], "C12": [("decode", 10, 600)],
    "C13": [("decode", 15, 900)], "C14": [("bind", 10, 600)], "C15": [("step", 10, 600)], "C16": [("history", 10, 600)],
    "C17": [("history", 10, 600)], "C18": [("history", 10, 600)], "C19": [("sweeps", 10, 600)], "C20": [("node", 10, 600)],
}
XDS = "github.com/kitex-contrib/xds"


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def go_env(work):
    e = {k: v for k, v in os.environ.items() if not k.startswith("GO") and k != "CGO_ENABLED"}
    e.update(
        HOME=os.environ.get("HOME", "/root"), PATH=GOROOT + "/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
        GOENV="off", GOWORK="off", GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod",
        GOCACHE=os.environ.get("VERIF_GOCACHE", "/root/.cache/verif-go125"), GOTOOLCHAIN="local", GOPROXY="off", GOSUMDB="off",
        GOFLAGS="-mod=readonly", TMPDIR=work,
    )
    return e


def build(work, race=False, cov=False):
    out = os.path.join(work, "v.race" if race else "v.cov" if cov else "v.test")
    cmd = ["go", "test", "-c", "-tags", "verif", "-o", out]
    if race:
        cmd.append("-race")
    if cov:  # the code under test carries the edge counters of Go's fuzzer, nothing else does
        cmd += ["-gcflags", XDS + "/...=-d=libfuzzer"]
    repo = os.environ.get("VERIF_REPO")  # development aid: a scratch copy instead of /repo
    if repo:
        mod = os.path.join(work, "go.mod")
        if not os.path.exists(mod):
            s = open(os.path.join(HARNESS, "go.mod")).read().replace("=> /repo\n", "=> %s\n" % repo).replace("=> ./", "=> %s/" % HARNESS)
            open(mod, "w").write(s)
            shutil.copy(os.path.join(HARNESS, "go.sum"), os.path.join(work, "go.sum"))
        cmd += ["-modfile", mod]
    cmd.append(".")
    p = subprocess.run(cmd, cwd=HARNESS, env=go_env(work), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=780)
    if p.returncode != 0:
        log(p.stdout[-6000:])
        log("inconclusive: the harness does not build against the working tree")
        return None
    return out


# ---- deaths ----

def frames(block):
    """function names of a goroutine block, top first"""
    out = []
    for l in block.split("\n"):
        if l.startswith(("\t", " ")) or not l.strip():
            continue
        out.append(l.strip())
    return out


def blames_xds(fr):
    for f in fr:
        if f.startswith(XDS):
            return True
        if f.startswith("xdsverif."):
            return False
    return False


def explain_death(err):
    """text of the violation when stderr shows a crash whose cause is code under test, else None"""
    m = re.search(r"WARNING: DATA RACE\n(.*?)\n==================", err, re.S)
    if m:
        body = m.group(1)
        secs = re.split(r"\n\s*\n", body)
        n = 0
        for s in secs[:2]:
            fr = [l.strip() for l in s.split("\n")[1:] if re.match(r"\s{2}\S", l)]
            for f in fr:
                if f.startswith(XDS):
                    n += 1
                    break
                if f.startswith("xdsverif."):
                    break
        if n:
            return "data race:\n" + body[:5000]
        return None
    m = re.search(r"^(panic: .*|fatal error: .*)$", err, re.M)
    if not m:
        return None
    rest = err[m.start():]
    blocks = re.split(r"\n\n", rest)
    head = m.group(1)
    if "out of memory" in head or "runtime: cannot" in rest[:400]:
        return None
    for b in blocks:
        mm = re.search(r"^goroutine \d+.*?:$", b, re.M)
        if not mm:
            continue
        fr = frames(b[mm.end():])
        fr = [f for f in fr if not f.startswith(("panic(", "runtime.", "[signal", "created by", "sync.", "internal/", "testing."))]
        if blames_xds(fr):
            return "the process died: " + head + "\n" + b[:4000]
        return None
    return None


# ---- run ----

class Shard:
    def __init__(self, binary, prop, tier, seed, i, n, work, race, budget, replay=None, shrink=None):
        self.out = os.path.join(work, "%s%d" % ("r" if race else "s", i))
        self.i, self.race = i, race
        cmd = [binary, "-test.run", "^TestVerif$", "-test.timeout", "0", "-v.prop", prop, "-v.tier", tier, "-v.seed", str(seed),
               "-v.shard", str(i), "-v.shards", str(n), "-v.out", self.out, "-v.budget", "%ds" % budget]
        if os.environ.get("VERIF_SCALE"):
            cmd += ["-v.scale", os.environ["VERIF_SCALE"]]
        if race:
            cmd += ["-v.race", "-v.hang", "90s"]
        if replay:
            cmd += ["-v.replay", replay]
        if shrink:
            cmd += ["-v.part", shrink[0], "-v.shrink", shrink[1]]
        env = go_env(work)
        env["GOMAXPROCS"] = "4" if race else "2"
        env["GOMEMLIMIT"] = "2500MiB"
        env["GOTRACEBACK"] = "all"
        env["GORACE"] = "halt_on_error=1 exitcode=66"
        self.errf = open(self.out + ".err", "w+")
        self.p = subprocess.Popen(cmd, cwd=work, env=env, stdout=self.errf, stderr=self.errf, start_new_session=True)

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        self.p.wait()

    def result(self):
        """(output dict or None, failure dict or None, problem or None)"""
        self.errf.flush()
        with open(self.out + ".err", errors="replace") as f:
            err = f.read()
        o = None
        if os.path.exists(self.out + ".json"):
            o = json.load(open(self.out + ".json"))
            if o.get("fail"):
                return o, o["fail"], None
            if o.get("harness"):
                return o, None, o["harness"]
            if self.p.returncode == 0:
                return o, None, None
        why = explain_death(err)
        if why and os.path.exists(self.out + ".journal"):
            f = json.load(open(self.out + ".journal"))
            f["error"] = why
            return o, f, None
        return o, None, "shard %d ended with %s\n%s" % (self.i, self.p.returncode, err[-5000:])


class Cov:
    """coverage-guided search of a part; the coordinator and its workers are Go's"""
    def __init__(self, binary, prop, part, seconds, seed, work):
        self.prop, self.part, self.seconds, self.work = prop, part, seconds, work
        self.dir = os.path.join(work, "cov-" + part)
        os.makedirs(self.dir)
        self.out = os.path.join(self.dir, "o")
        env = go_env(self.dir)
        env["GOMAXPROCS"] = "8"
        env["GOMEMLIMIT"] = "2500MiB"
        env["GOTRACEBACK"] = "all"
        self.errf = open(os.path.join(self.dir, "err"), "w+")
        self.p = subprocess.Popen(
            [binary, "-test.run", "^$", "-test.fuzz", "^FuzzVerif$", "-test.fuzztime", "%ds" % seconds,
             "-test.fuzzcachedir", os.path.join(self.dir, "cache"), "-test.parallel", str(SHARDS), "-test.fuzzminimizetime", "1x",
             "-v.fuzz", "-v.prop", prop, "-v.part", part, "-v.seed", str(seed), "-v.out", self.out],
            cwd=self.dir, env=env, stdout=self.errf, stderr=self.errf, start_new_session=True)

    kill = Shard.kill

    def files(self, ext):
        return [os.path.join(self.dir, f) for f in os.listdir(self.dir) if f.endswith(ext)]

    def result(self, plain, shards):
        """(output dict, failure or None)"""
        try:
            self.p.wait(timeout=self.seconds + 120)
        except subprocess.TimeoutExpired:
            pass
        self.kill()
        o = {"evaluations": {}, "nontrivial": {}, "classes": {}}
        name = self.part + "+coverage"
        for f in self.files(".stats"):
            d = json.load(open(f))
            o["evaluations"][name] = o["evaluations"].get(name, 0) + d["evaluated"]
            o["nontrivial"][name] = o["nontrivial"].get(name, 0) + d["nontrivial"]
            for k, v in d["classes"].items():
                k = name + "/" + k
                o["classes"][k] = o["classes"].get(k, 0) + v
        b = b"".join(open(f, "rb").read() for f in self.files(".hashes"))
        with open(self.out + ".hashes", "wb") as f:
            f.write(b[:len(b) // 8 * 8])
        corpus = os.path.join(self.dir, "cache", "FuzzVerif")
        o["corpus"] = len(os.listdir(corpus)) if os.path.isdir(corpus) else 0
        fails = sorted(self.files(".fail"), key=os.path.getsize)
        if not fails and self.p.returncode == 0:
            return o, None
        # what failed must fail again in the ordinary binary, where a crash or a hang is told apart, too
        for i, f in enumerate(fails[:4] + sorted(self.files(".journal"), key=os.path.getmtime, reverse=True)[:SHARDS]):
            s = Shard(plain, self.prop, "quick", 1, i, 1, self.dir, False, 100, replay=f)
            shards.append(s)
            try:
                s.p.wait(timeout=150)
            except subprocess.TimeoutExpired:
                s.kill()
            _, fail, _ = s.result()
            if not fail:
                continue
            if f.endswith(".fail"):
                s = Shard(plain, self.prop, "quick", 1, 90 + i, 1, self.dir, False, 100, shrink=(self.part, f[:-5] + ".bytes"))
                shards.append(s)
                try:
                    s.p.wait(timeout=100)
                    fail = s.result()[1] or fail
                except subprocess.TimeoutExpired:
                    s.kill()
            return o, fail
        self.errf.flush()
        log("coverage-guided search of %s ended early (%s), nothing to reproduce: %s" % (
            self.part, self.p.returncode, open(self.errf.name, errors="replace").read()[-600:]))
        return o, None


def run_shards(shards, hard):
    """waits for all; stops the rest early when one found a violation"""
    t0 = time.time()
    live = list(shards)
    done = []
    while live:
        time.sleep(0.05)
        for s in list(live):
            if s.p.poll() is not None:
                live.remove(s)
                r = s.result()
                done.append((s, r))
                if r[1]:
                    for x in live:
                        x.kill()
                    return done, False
        if time.time() - t0 > hard:
            for x in live:
                x.kill()
            return done, True
    return done, False


def known(prop):
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("known: property=%s " % prop):
                print("KNOWN-FINDING: " + l[len("known: "):])


def write_evidence(prop, tier, seed, done, wall, violations, note):
    import struct
    ev, nt, classes, samples, rules = {}, {}, {}, [], []
    hashes = set()
    timed = False
    for s, (o, f, prob) in done:
        if not o:
            continue
        for k, v in (o.get("evaluations") or {}).items():
            ev[k] = ev.get(k, 0) + v
        for k, v in (o.get("nontrivial") or {}).items():
            nt[k] = nt.get(k, 0) + v
        for k, v in (o.get("classes") or {}).items():
            classes[k] = classes.get(k, 0) + v
        for r in o.get("rules") or []:
            if r not in rules:
                rules.append(r)
        have = {}
        for x in samples:
            have[x["part"]] = have.get(x["part"], 0) + 1
        for x in o.get("samples") or []:
            if have.get(x["part"], 0) < 2:
                have[x["part"]] = have.get(x["part"], 0) + 1
                samples.append(x)
        timed = timed or o.get("timed_out", False)
        h = s.out + ".hashes"
        if os.path.exists(h):
            b = open(h, "rb").read()
            hashes.update(struct.unpack("<%dQ" % (len(b) // 8), b))
    doc = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": sum(ev.values()), "distinct_nontrivial": len(hashes),
            "rule": "cases are drawn by rapid from the part's generator with the seed; a case is non-trivial when - " + "; ".join(rules),
            "samples": samples, "evaluations_by_part": ev, "nontrivial_by_part": nt, "classes": dict(sorted(classes.items())),
            "time_budget_reached": timed,
        },
        "assumptions": [
            "the control plane is the in-memory one of harness/cp_test.go, injected behind the verif build tag; the transport is not exercised",
            "time is virtual (testing/synctest, Go 1.25); interleavings are those the scheduler and the generated delays produce",
        ],
        "wall_s": round(wall, 2), "violations": violations,
    }
    if note:
        doc["coverage"]["note"] = note
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    p = os.path.join(HERE, "evidence", prop + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(doc, f, indent=1)
    os.replace(p + ".tmp", p)


def violation(prop, f, seed):
    d = os.path.join(HERE, "evidence", "replays")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s-%s-%d.json" % (prop, f["part"], seed))
    with open(p, "w") as fh:
        json.dump(f, fh, indent=1)
    log("part %s: %s" % (f["part"], f.get("error", "")[:6000]))
    log("case: " + json.dumps(f["case"])[:3000])
    print("VIOLATION property=%s replay=%s" % (prop, p), flush=True)


def main():
    args = sys.argv[1:]
    if not args:
        print(__doc__)
        return 2
    work = tempfile.mkdtemp(prefix="verif-")
    shards = []

    def stop(*_):
        for s in shards:
            s.kill()
        shutil.rmtree(work, ignore_errors=True)
        os._exit(2)
    signal.signal(signal.SIGTERM, stop)
    signal.signal(signal.SIGINT, stop)
    try:
        if args[0] == "--setup":
            b = build(work)
            if not b:
                return 2
            p = subprocess.run([b, "-test.run", "^TestVerif$", "-v.prop", "C01", "-v.scale", "0.001", "-v.out", os.path.join(work, "x")],
                               cwd=work, env=go_env(work))
            return 0 if p.returncode == 0 else 2
        prop = args[0]
        tier = os.environ.get("VERIF_TIER", "quick")
        if "--tier" in args:
            tier = args[args.index("--tier") + 1]
        seed = int(os.environ.get("VERIF_SEED", "1"))
        t0 = time.time()
        replay = args[args.index("--replay") + 1] if "--replay" in args else None
        known(prop)
        plain = build(work)
        if not plain:
            return 2
        race_bin = None
        if prop in RACE:
            race_bin = build(work, race=True)
            if not race_bin:
                return 2
        log("built in %.1fs" % (time.time() - t0))
        if replay:
            replay = os.path.abspath(replay)
            part = json.load(open(replay))["part"]
            # a part is in the plain binary unless it is race-only
            for b, race in ((plain, False), (race_bin, True)):
                if not b:
                    continue
                s = Shard(b, prop, tier, seed, 0, 1, work, race, 600, replay=replay)
                shards.append(s)
                s.p.wait(timeout=700)
                o, f, prob = s.result()
                if f:
                    log(f.get("error", "")[:6000])
                    print("VIOLATION property=%s replay=%s" % (prop, replay), flush=True)
                    return 1
                if prob:
                    log(prob)
                    return 2
            log("replay passed")
            return 0
        budget = 400 if tier == "quick" else 3600
        done, late = [], False
        note = ""
        for b, race, n in ((plain, False, SHARDS), (race_bin, True, 4)):
            if not b:
                continue
            if race and any(r[1] for _, r in done):
                break
            shards[:] = [Shard(b, prop, tier, seed, i, n, work, race, budget) for i in range(n)]
            d, l = run_shards(shards, (budget if tier == "quick" else budget + 600) + 120)
            done += d
            late = late or l
        for part, quick_s, thorough_s in COV.get(prop, []):
            if any(r[1] for _, r in done) or any(r[2] for _, r in done):
                break
            cov = build(work, cov=True)
            if not cov:
                return 2
            c = Cov(cov, prop, part, quick_s if tier == "quick" else thorough_s, seed, work)
            shards[:] = [c]
            o, f = c.result(plain, shards)
            note += "%s: coverage-guided search kept a corpus of %d inputs. " % (part, o["corpus"])
            done.append((c, (o, f, None)))
        fails = [r[1] for _, r in done if r[1]]
        probs = [r[2] for _, r in done if r[2]]
        write_evidence(prop, tier, seed, done, time.time() - t0, 1 if fails else 0, note)
        if fails:
            violation(prop, fails[0], seed)
            return 1
        if probs or late:
            log("inconclusive: " + (probs[0][:8000] if probs else "hard time limit"))
            return 2
        log("%s held on everything explored (%.1fs)" % (prop, time.time() - t0))
        return 0
    finally:
        for s in shards:
            if s.p.poll() is None:
                s.kill()
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
