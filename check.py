#!/usr/bin/env python3
"""Runs the check of one property: builds the harness from /repo, drives it, writes the evidence.

usage: check.py ID [quick|thorough]     the tier is VERIF_TIER by default, the seed is VERIF_SEED
       check.py --replay FILE           evaluates one saved case

exit 0: held on everything explored; exit 1 with a VIOLATION line; any other: error of the check.
"""
import hashlib, json, os, re, resource, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
RACE = {"C16", "C17", "C34", "C36"}               # parts built with the race detector
BINS = {"C19", "C20", "C21", "C22", "C23", "C24", "C27", "C28", "C32", "C33", "C36"}   # need utilities of the repository
FAULT = {"C03", "C27"}                 # level fault_enumeration
SHARDS = {"quick": 8, "thorough": 8}
OK, VIOLATION, INFRA, WATCHDOG = 0, 11, 12, 13
AS_LIMIT = 12 << 30


def say(*a):
    print(*a, flush=True)


def die(msg):
    say("check error: " + msg)
    sys.exit(2)


def goenv(race):
    env = dict(os.environ)
    if not shutil.which("go", path=env.get("PATH", "")):
        for d in ("/usr/local/go/bin", "/opt/veriftools/go/bin"):
            if os.path.exists(d + "/go"):
                env["PATH"] = env.get("PATH", "") + ":" + d
    env.update(GOFLAGS="-mod=mod", GOPROXY="off", GOSUMDB="off", GOTOOLCHAIN="local",
               CGO_ENABLED="1" if race else "0", GOWORK="off")
    env.setdefault("HOME", "/root")
    return env


def build(bdir, race, bins):
    # The module files are copied, so that nothing in /verif is ever rewritten by the go command.
    mod = os.path.join(bdir, "go.mod")
    shutil.copy(os.path.join(HERE, "harness/go.mod"), mod)
    shutil.copy(os.path.join(HERE, "harness/go.sum"), os.path.join(bdir, "go.sum"))
    cmd = ["go", "build", "-modfile=" + mod, "-o", os.path.join(bdir, "h")]
    if race:
        cmd.append("-race")
    p = subprocess.run(cmd + ["."], cwd=os.path.join(HERE, "harness"), env=goenv(race),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        die("build of the harness failed:\n" + p.stdout[-4000:])
    if bins:
        for name in ("pack", "extract", "build"):
            p = subprocess.run(["go", "build", "-modfile=" + mod, "-o", os.path.join(bdir, name),
                                "github.com/schwarzlichtbezirk/wpk/cmd/" + name],
                               cwd=os.path.join(HERE, "harness"), env=goenv(False),
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode:
                die("build of %s failed:\n%s" % (name, p.stdout[-4000:]))


def splitmix(x):
    m = (1 << 64) - 1
    x = (x + 0x9e3779b97f4a7c15) & m
    x = ((x ^ (x >> 30)) * 0xbf58476d1ce4e5b9) & m
    x = ((x ^ (x >> 27)) * 0x94d049bb133111eb) & m
    return x ^ (x >> 31)


def limits(race, cpu=None):
    def f():
        if not race:
            resource.setrlimit(resource.RLIMIT_AS, (AS_LIMIT, AS_LIMIT))
        if cpu:
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    return f


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.race = prop in RACE
        os.makedirs(os.path.join(HERE, ".build"), exist_ok=True)
        self.bdir = tempfile.mkdtemp(prefix=prop + "-", dir=os.path.join(HERE, ".build"))
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) and prop != "C23" else self.bdir
        if prop == "C23":
            base = "/tmp"
        self.scratch = tempfile.mkdtemp(prefix="wpkverif-", dir=base)
        os.chmod(self.scratch, 0o777)
        self.env = dict(os.environ, TMPDIR=self.scratch, GORACE="halt_on_error=1 exitcode=66",
                        GOTRACEBACK="all")

    def close(self):
        for root, dirs, _ in os.walk(self.scratch):
            for d in dirs:
                try:
                    os.chmod(os.path.join(root, d), 0o777)
                except OSError:
                    pass
        shutil.rmtree(self.scratch, ignore_errors=True)
        shutil.rmtree(self.bdir, ignore_errors=True)

    def cmd(self, *a):
        return [os.path.join(self.bdir, "h"), "-scratch", self.scratch, "-bin", self.bdir] + list(a)

    def replay(self, path, cpu=120, wall=240):
        """Returns (kind, output); kind is pass, fail, race, crash, hang or error."""
        try:
            p = subprocess.run(self.cmd("-replay", path), env=self.env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               timeout=wall, preexec_fn=limits(self.race, cpu), start_new_session=True)
        except subprocess.TimeoutExpired:
            return "error", "replay got no result in %d s" % wall
        out = p.stdout.decode("utf-8", "replace")
        return self.classify(p.returncode, out), out

    def classify(self, rc, out):
        if rc == OK:
            return "pass"
        if rc == VIOLATION:
            return "fail"
        if rc == INFRA:
            return "error"
        if rc == WATCHDOG:
            return "watchdog"
        if rc == 66 and "DATA RACE" in out:
            # a race counts if code of the repository takes part in it
            return "race" if re.search(r"/repo/\S+\.go:\d+", out) else "error"
        if rc == -signal.SIGXCPU:
            return "hang"
        if rc == 2 and ("fatal error:" in out or "panic:" in out or "goroutine " in out or "SIG" in out):
            return "crash"
        if rc in (-signal.SIGSEGV, -signal.SIGBUS, -signal.SIGABRT):
            return "crash"
        return "error"

    def violation(self, case, msg):
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        raw = json.dumps(case, indent=1, ensure_ascii=True)
        path = os.path.join(HERE, "replays", "%s-%s.json" % (self.prop, hashlib.sha256(raw.encode()).hexdigest()[:12]))
        with open(path, "w") as f:
            f.write(raw + "\n")
        say(msg[-6000:])
        say("replay it by: python3 /verif/check.py --replay " + path)
        say("VIOLATION property=%s replay=%s" % (self.prop, path))
        return path

    def shard(self, i, inflight=False):
        seed = self.seed if i == 0 else splitmix(self.seed * 1000003 + i)
        o = os.path.join(self.bdir, "out%d.json" % i)
        f = os.path.join(self.bdir, "fail%d.json" % i)
        a = ["-prop", self.prop, "-seed", str(seed & ((1 << 63) - 1)), "-tier", self.tier, "-out", o, "-failout", f]
        fl = os.path.join(self.bdir, "inflight%d.json" % i)
        if inflight or self.race:
            a += ["-inflight", fl]
        log = open(os.path.join(self.bdir, "log%d" % i), "wb")
        p = subprocess.Popen(self.cmd(*a), env=self.env, stdout=log, stderr=subprocess.STDOUT,
                             preexec_fn=limits(self.race), start_new_session=True)
        return dict(i=i, p=p, out=o, fail=f, inflight=fl, log=log.name, seed=seed)

    def run(self):
        t0 = time.time()
        build(self.bdir, self.race, self.prop in BINS)
        tb = time.time() - t0
        shards = [self.shard(i) for i in range(SHARDS[self.tier])]
        # the shards which are still busy a while after a violation was found are stopped
        stop = None
        while any(s["p"].poll() is None for s in shards):
            time.sleep(0.05)
            if stop is None and any(s["p"].returncode == VIOLATION for s in shards):
                stop = time.time() + 60
            if stop is not None and time.time() > stop:
                for s in shards:
                    if s["p"].poll() is None:
                        os.killpg(s["p"].pid, signal.SIGKILL)
                        s["p"].wait()
        for s in shards:
            s["rc"] = s["p"].returncode
            s["log"] = open(s["log"], "rb").read().decode("utf-8", "replace")
            s["kind"] = self.classify(s["rc"], s["log"])
        found, errors = None, []
        for s in shards:
            if found:
                break
            k = s["kind"]
            if k == "pass":
                continue
            if k == "fail":
                case = json.load(open(s["fail"]))
                # a failure has to be reproduced by a process of its own
                kind, out = self.replay(s["fail"])
                if kind in ("fail", "crash", "hang", "race"):
                    found = (case, s["log"])
                elif case.get("message") and self.prop in RACE:
                    found = (case, s["log"] + "\n(depends on the schedule, the replay passed this time)")
                else:
                    errors.append("failure is not reproduced by replay: %s\n%s" % (s["log"][-3000:], out[-2000:]))
            elif k in ("crash", "race", "watchdog", "hang"):
                if k == "watchdog":
                    path = s["fail"]
                elif os.path.exists(s["inflight"]):
                    path = s["inflight"]
                else:
                    say("worker died, looking for its case:\n" + s["log"][-3000:])
                    r = self.shard(s["i"], inflight=True)
                    r["p"].wait()
                    path = r["inflight"]
                if not os.path.exists(path):
                    errors.append("worker died without a case (%s):\n%s" % (k, s["log"][-3000:]))
                    continue
                case = json.load(open(path))
                if k == "race":
                    case["message"] = "data race"
                    found = (case, s["log"])
                    continue
                kind, out = self.replay(path)
                if kind in ("fail", "crash", "hang", "race"):
                    case["message"] = kind + " of the process in this case"
                    found = (case, s["log"][-2500:] + "\n" + out[:3000])
                elif k == "crash" and self.race:
                    found = (case, s["log"][:5000])
                else:
                    errors.append("worker ended by %s, not reproduced by replay (%s): %s" % (k, kind, s["log"][-3000:]))
            else:
                errors.append("worker %d ended with code %s:\n%s" % (s["i"], s["rc"], s["log"][-3000:]))
        ev = self.evidence(shards, found, time.time() - t0, tb)
        if found:
            self.violation(found[0], found[1])
            return 1
        if errors:
            die("\n".join(errors))
        for line in findings(self.prop):
            say("KNOWN-FINDING: property=%s %s" % (self.prop, line))
        c = ev["coverage"]
        if c["distinct_nontrivial"] == 0:
            die("no non-trivial case was generated")
        say("%s %s seed=%d: held on %d cases, %d distinct non-trivial, %.1f s (build %.1f s)" % (
            self.prop, self.tier, self.seed, c["evaluations"], c["distinct_nontrivial"], ev["wall_s"], tb))
        return 0

    def evidence(self, shards, found, wall, tb):
        parts, evals, dist, rules, samples = {}, 0, 0, [], []
        merged = {}
        for s in shards:
            if not os.path.exists(s["out"]):
                continue
            for name, st in json.load(open(s["out"]))["parts"].items():
                m = merged.setdefault(name, dict(rule=st["rule"], evaluations=0, nontrivial=0, hashes=set(), labels={}, counts={}, samples=[], slowest=0.0))
                m["evaluations"] += st["evaluations"]
                m["nontrivial"] += st["nontrivial"]
                m["slowest"] = max(m["slowest"], st.get("slowest", 0.0))
                m["hashes"].update(st["hashes"] or [])
                for k, v in (st["labels"] or {}).items():
                    m["labels"][k] = m["labels"].get(k, 0) + v
                for k, v in (st["counts"] or {}).items():
                    m["counts"][k] = m["counts"].get(k, 0) + v
                if len(m["samples"]) < 3:
                    m["samples"] += (st["samples"] or [])[:3 - len(m["samples"])]
        for name in sorted(merged):
            m = merged[name]
            evals += m["evaluations"]
            dist += len(m["hashes"])
            rules.append("%s: %s" % (name, m["rule"]))
            samples += [{"part": name, "case": x} for x in m["samples"]]
            parts[name] = dict(evaluations=m["evaluations"], nontrivial=m["nontrivial"], distinct_nontrivial=len(m["hashes"]),
                               classes=m["labels"], measured=m["counts"],
                               slowest_case_s=round(m["slowest"], 2))
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed,
                  level="fault_enumeration" if self.prop in FAULT else "exploration",
                  coverage=dict(evaluations=evals, distinct_nontrivial=dist, rule=" | ".join(rules), samples=samples,
                                parts=parts, shards=len(shards), exhaustive=False),
                  assumptions=ASSUMPTIONS.get(self.prop, []) + ["the explored cases are a sample: nothing is claimed on other inputs"],
                  wall_s=round(wall, 2), build_s=round(tb, 2), violations=1 if found else 0)
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        tmp = os.path.join(HERE, "evidence", ".%s.%d" % (self.prop, os.getpid()))
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=True)
            f.write("\n")
        os.replace(tmp, os.path.join(HERE, "evidence", self.prop + ".json"))
        return ev


ASSUMPTIONS = {
    "C03": ["writes reach the disk in program order and a write of up to 64 bytes is not torn"],
    "C16": ["interleavings are those the Go scheduler and the race detector produce, not enumerated"],
    "C17": ["interleavings are those the Go scheduler and the race detector produce, not enumerated"],
}


def findings(prop):
    res = []
    try:
        for l in open(os.path.join(HERE, "KNOWN_FINDINGS.txt")):
            m = re.match(r"finding: property=(\S+) (.*)", l.strip())
            if m and m.group(1) == prop:
                res.append(m.group(2))
    except FileNotFoundError:
        pass
    return res


def main():
    if len(sys.argv) == 3 and sys.argv[1] == "--replay":
        case = json.load(open(sys.argv[2]))
        c = Check(case["property"], "quick", 1)
        try:
            build(c.bdir, c.race, case["property"] in BINS)
            kind, out = c.replay(os.path.abspath(sys.argv[2]))
            say(out[-8000:])
            if kind == "pass":
                return 0
            if kind == "error":
                return 2
            say("VIOLATION property=%s replay=%s" % (case["property"], os.path.abspath(sys.argv[2])))
            return 1
        finally:
            c.close()
    if len(sys.argv) == 2 and sys.argv[1] == "--setup":
        c = Check("C00", "quick", 1)
        try:
            build(c.bdir, False, True)
            say("setup: the harness builds")
            return 0
        finally:
            c.close()
    if len(sys.argv) < 2:
        die(__doc__)
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in SHARDS:
        die("unknown tier " + tier)
    c = Check(sys.argv[1], tier, int(os.environ.get("VERIF_SEED", "1") or 1))
    try:
        return c.run()
    finally:
        c.close()


if __name__ == "__main__":
    sys.exit(main())
