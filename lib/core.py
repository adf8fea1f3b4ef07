"""Common machinery of the checks: building, running TLC and the drivers, evidence, verdicts."""
import json, os, re, shutil, signal, subprocess, sys, tempfile, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, "spec")
BUILD = os.path.join(ROOT, "build")
EVID = os.path.join(ROOT, "evidence")
REPO = "/repo"
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"


class CheckError(Exception):
    """The check itself could not do its work (exit 2)."""


def goenv():
    e = dict(os.environ)
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off", GOPATH="/root/go",
             GOMODCACHE="/root/go/pkg/mod", GOSUMDB="off",
             GOCACHE=os.environ.get("VERIF_GOCACHE", "/root/.cache/go-build"),
             PATH="/opt/veriftools/go1.27.3/bin:" + e.get("PATH", ""))
    return e


def sh(cmd, timeout=600, env=None, cwd=None, ok=(0,)):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=env, cwd=cwd)
    except subprocess.TimeoutExpired:
        raise CheckError("timeout: " + " ".join(cmd)[:300])
    out, err = p.stdout.decode("utf8", "replace"), p.stderr.decode("utf8", "replace")
    if ok is not None and p.returncode not in ok:
        raise CheckError("%s exited %d\n%s\n%s" % (" ".join(cmd)[:300], p.returncode, out[-2000:], err[-3000:]))
    return p.returncode, out, err


def build_java():
    """Compiles the Java interpretation of Crypto.tla (if it is missing or stale) and self-tests it."""
    src = [os.path.join(SPEC, "java/frostspec", f) for f in sorted(os.listdir(os.path.join(SPEC, "java/frostspec"))) if f.endswith(".java")]
    dst = os.path.join(BUILD, "java")
    stamp = os.path.join(dst, "stamp")
    if os.path.exists(stamp) and all(os.path.getmtime(s) <= os.path.getmtime(stamp) for s in src):
        return
    os.makedirs(dst, exist_ok=True)
    sh(["javac", "-nowarn", "-d", dst, "-cp", JARS] + src)
    r = tlc("CryptoTest", "CryptoTest.cfg", workers=1)
    if "crypto self test passed" not in r.out or not r.ok:
        raise CheckError("the self test of the specification's arithmetic failed\n" + r.out[-3000:])
    with open(stamp, "w") as f:
        f.write("ok\n")


def build_driver(race=False, name=None):
    """Builds the driver against /repo's working tree."""
    os.makedirs(BUILD, exist_ok=True)
    out = os.path.join(BUILD, name or ("driver-race" if race else "driver"))
    work = tempfile.mkdtemp(prefix="hb", dir=BUILD)
    try:
        # go may rewrite go.mod and go.sum: build in a copy
        dst = os.path.join(work, "harness")
        shutil.copytree(os.path.join(ROOT, "harness"), dst)
        cmd = ["go", "build", "-o", out] + (["-race"] if race else []) + ["./cmd/driver"]
        sh(cmd, env=goenv(), cwd=dst, timeout=850)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return out


class TLCResult:
    pass


def tlc(module, cfg, env=None, workers=8, args=(), timeout=6000 if THOROUGH else 850, java=()):
    """Runs TLC on spec/<module>.tla; returns output, statistics and whether it finished without error."""
    md = tempfile.mkdtemp(prefix="md", dir=BUILD if os.path.isdir(BUILD) else None)
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-XX:+UseParallelGC", "-Xss64m", "-Xmx8g",
           "-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:frostspec.Overrides",
           *java, "-cp", os.path.join(BUILD, "java") + ":" + JARS, "tlc2.TLC", "-nowarning", "-noGenerateSpecTE",
           "-metadir", md, "-workers", str(workers), "-config", cfg, *args, module + ".tla"]
    t0 = time.time()
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=e, cwd=SPEC)
    except subprocess.TimeoutExpired:
        raise CheckError("TLC timed out on %s/%s" % (module, cfg))
    finally:
        shutil.rmtree(md, ignore_errors=True)
    r = TLCResult()
    r.out = p.stdout.decode("utf8", "replace")
    r.code = p.returncode
    m = re.search(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left", r.out)
    r.generated, r.distinct, r.left = (int(x) for x in m.groups()) if m else (0, 0, -1)
    if "-simulate" in args:
        m = re.search(r"(\d+) states checked", r.out) or re.search(r"number of states generated: (\d+)", r.out)
        r.generated = int(m.group(1)) if m else 0
    r.ok = p.returncode == 0
    r.wall = time.time() - t0
    return r


def design(module, cfg, **kw):
    """Model checks a design specification: it must hold, whatever the code does."""
    r = tlc(module, cfg, **kw)
    if not r.ok or "Model checking completed. No error has been found." not in r.out:
        raise CheckError("the design specification %s/%s does not hold:\n%s" % (module, cfg, r.out[-4000:]))
    return {"model": module, "config": cfg, "states": r.distinct, "transitions": r.generated, "wall_s": round(r.wall, 1)}


CRASH = re.compile(r"^(panic: |fatal error: |runtime: |unexpected fault|WARNING: DATA RACE)", re.M)


def blocked(err):
    """Goroutines that have been stuck in the code under test for minutes (from a dump after SIGQUIT)."""
    for g in re.split(r"\n\n", err):
        m = re.match(r"goroutine \d+ \[([^\],]+), (\d+) minutes", g)
        if m and "taurusgroup/frost-ed25519" in g:
            return g[:3000]
    return None


def driver(args, race=False, timeout=None, env=None):
    """Runs the driver. Returns (crash text or None). A crash in the code under test is not an error of the check."""
    timeout = timeout or (5000 if THOROUGH else 400)
    b = os.path.join(BUILD, "driver-race" if race else "driver")
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.Popen([b] + [str(a) for a in args], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=e, cwd=BUILD)
        err = p.communicate(timeout=timeout)[1].decode("utf8", "replace")
    except subprocess.TimeoutExpired:
        p.send_signal(signal.SIGQUIT)
        try:
            err = p.communicate(timeout=20)[1].decode("utf8", "replace")
        except subprocess.TimeoutExpired:
            p.kill()
            err = p.communicate()[1].decode("utf8", "replace")
        stuck = blocked(err)
        if stuck:
            return "hang: " + stuck
        raise CheckError("the driver timed out: %s" % (args,))
    if p.returncode != 0:
        if CRASH.search(err) and "taurusgroup/frost-ed25519" in err:
            return err[-6000:]
        raise CheckError("driver %s exited %d\n%s" % (args, p.returncode, err[-4000:]))
    if "WARNING: DATA RACE" in err and "taurusgroup/frost-ed25519" in err:
        return err[-6000:]
    return None


class Check:
    """Collects what one run covered and found."""

    def __init__(self, pid):
        self.pid = pid
        self.t0 = time.time()
        self.states = self.transitions = self.traces = 0
        self.samples, self.parts, self.viol = [], [], []
        self.extra = {}
        self.assumptions = []
        self.replay = os.path.join(EVID, "replay", pid)
        shutil.rmtree(self.replay, ignore_errors=True)
        self.known = load_known()

    def add(self, part):
        self.parts.append(part)
        self.states += part.get("states", 0)
        self.transitions += part.get("transitions", 0)
        self.traces += part.get("traces", 0)

    def sample(self, x):
        s = json.dumps(x)
        if len(s) > 3000:
            s = s[:3000]
            x = s
        if len(self.samples) < 6:
            self.samples.append(x)

    def violation(self, what, data):
        """Records a violation with its replay data; known findings are only announced."""
        for k in self.known:
            if k["property"] == self.pid and re.search(k["match"], what):
                print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))
                return
        self.viol.append((what, data))

    def finish(self, level="model_checking"):
        os.makedirs(EVID, exist_ok=True)
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
               "samples": self.samples or [{"note": "no sample"}], "parts": self.parts}
        cov.update(self.extra)
        ev = {"property": self.pid, "tier": "thorough" if THOROUGH else "quick", "seed": SEED, "level": level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.viol)}
        with open(os.path.join(EVID, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        if not self.viol:
            print("%s: held; %d states, %d transitions, %d traces of the implementation, %.1f s" % (
                self.pid, self.states, self.transitions, self.traces, time.time() - self.t0))
            return 0
        os.makedirs(self.replay, exist_ok=True)
        for i, (what, data) in enumerate(self.viol[:20]):
            path = os.path.join(self.replay, "%d.json" % i)
            with open(path, "w") as f:
                json.dump({"property": self.pid, "what": what, "seed": SEED, "tier": TIER, "data": data}, f, indent=1)
            if i < 5:
                print("  %s" % what[:600])
        print("VIOLATION property=%s replay=%s" % (self.pid, os.path.join(self.replay, "0.json")))
        return 1


def load_known():
    """known-findings.jsonl: {"property","match","what"} per open finding; {"fixed": ...} entries suppress nothing."""
    out = []
    p = os.path.join(ROOT, "known-findings.jsonl")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line:
                d = json.loads(line)
                if "match" in d:
                    out.append(d)
    return out


def tmp(name):
    d = os.path.join(BUILD, "run")
    os.makedirs(d, exist_ok=True)
    return os.path.join(d, "%s-%d-%s" % (os.environ.get("VERIF_PID", "x"), os.getpid(), name))


def read_lines(path):
    with open(path) as f:
        return [l for l in f.read().split("\n") if l]
