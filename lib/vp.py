"""Shared machinery: building the harness, running TLC, collecting verdicts, writing evidence."""
import resource
import json, os, re, shutil, subprocess, sys, threading, time, random, hashlib
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, "spec")
OUT = os.path.join(ROOT, "out")
TARGET = os.path.join(ROOT, "target")
BIN = os.path.join(TARGET, "debug", "vpxh")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
KNOWN = os.path.join(ROOT, "known_findings.txt")


class ToolError(Exception):
    pass


def env():
    e = dict(os.environ)
    e.update(HOME="/root", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu",
             CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="",
             CARGO_TARGET_DIR=TARGET, RUST_BACKTRACE="0")
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "")
    for k in ("RUSTFLAGS", "TABLES_DIR", "CARGO_INCREMENTAL"):
        e.pop(k, None)
    return e


def build():
    """Builds the harness against /repo's current working tree."""
    t = time.time()
    p = subprocess.run(["cargo", "build", "--offline", "--quiet"], cwd=os.path.join(ROOT, "harness"),
                       env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        sys.stdout.write(p.stdout[-6000:])
        raise ToolError("harness build failed")
    return time.time() - t


class Check:
    def __init__(self, pid, level="model_checking"):
        self.pid = pid
        self.level = level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.quick = self.tier != "thorough"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.rng = random.Random(f"{pid}:{self.seed}")
        self.dir = os.path.join(OUT, pid)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir, exist_ok=True)
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.evals = 0
        self.samples = []
        self.notes = {}
        self.assumptions = []
        self.viol = {}       # key -> list of details
        self.t0 = time.time()
        self._tl = threading.local()
        self._lock = threading.Lock()
        self.timing = {}

    def n(self, quick, thorough):
        return quick if self.quick else thorough

    @property
    def last(self):
        return self._tl.last

    def parallel(self, jobs, width=4):
        """runs independent TLC jobs (functions without arguments) side by side"""
        with ThreadPoolExecutor(width) as ex:
            return [f.result() for f in [ex.submit(j) for j in jobs]]

    # ---- TLC -------------------------------------------------------------------------
    def tlc(self, module, cfg, name=None, env_extra=None, workers=8, simulate=None, heap="6g",
            timeout=600, expect_ok=True, coverage=False, dfs=False):
        """Runs TLC on spec/<module>.tla with the given configuration text.
        Returns a list of the JSON objects the specification printed ("VP " lines)."""
        name = name or module
        d = os.path.join(self.dir, "tlc-" + name)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        cfgp = os.path.join(d, name + ".cfg")
        with open(cfgp, "w") as f:
            f.write(cfg)
        cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{heap}", "-Xss32m", "-cp", JARS,
               f"-DTLA-Library={SPEC}", "tlc2.TLC", "-metadir", os.path.join(d, "meta"),
               "-workers", str(workers), "-config", cfgp, "-noGenerateSpecTE", "-lncheck", "final"]
        if simulate:
            num, depth = simulate
            cmd += ["-simulate", f"num={num}", "-depth", str(depth), "-seed", str(self.seed)]
        else:
            cmd += ["-fp", str(self.seed % 100)]
        if coverage:
            cmd += ["-coverage", "1"]
        cmd.append(os.path.join(SPEC, module + ".tla"))
        e = env()
        e.update(env_extra or {})
        t = time.time()
        logp = os.path.join(d, "log.txt")
        with open(logp, "w") as log:
            try:
                p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=log, stderr=subprocess.STDOUT, timeout=timeout)
            except subprocess.TimeoutExpired:
                raise ToolError(f"TLC timed out on {name}")
        out = []
        gen = dist = 0
        tail = []
        with open(logp, errors="replace") as f:
            for line in f:
                if line.startswith('"VP '):
                    try:
                        out.append(json.loads(json.loads(line)[3:]))
                    except ValueError:
                        raise ToolError(f"unreadable TLC output in {logp}: {line[:200]}")
                    continue
                m = re.match(r"([\d,]+) states generated, ([\d,]+) distinct", line)
                if m:
                    gen, dist = int(m.group(1).replace(",", "")), int(m.group(2).replace(",", ""))
                m = re.match(r"The number of states generated: ([\d,]+)", line)
                if m:
                    gen = dist = int(m.group(1).replace(",", ""))
                tail.append(line)
                if len(tail) > 400:
                    tail.pop(0)
        shutil.rmtree(os.path.join(d, "meta"), ignore_errors=True)
        self.timing["tlc-" + name] = round(time.time() - t, 1)
        if p.returncode != 0 and expect_ok:
            sys.stdout.write("".join(tail)[-4000:])
            raise ToolError(f"TLC exited with {p.returncode} on {name} (the specification itself is broken); log {logp}")
        with self._lock:
            self.states += dist
            self.transitions += gen
        self._tl.last = dict(code=p.returncode, generated=gen, distinct=dist, log=logp)
        return out

    # ---- harness ---------------------------------------------------------------------
    def harness(self, sub, cases, name=None, timeout=600, extra_env=None, args=(), ok_codes=(0,)):
        """Runs a harness subcommand on ndjson cases, returns the list of result objects."""
        name = name or sub
        ip = os.path.join(self.dir, name + ".in.ndjson")
        op = os.path.join(self.dir, name + ".out.ndjson")
        with open(ip, "w") as f:
            for c in cases:
                f.write(json.dumps(c, separators=(",", ":")) + "\n")
        e = env()
        e["VPXH_SEED"] = str(self.seed)
        e.update(extra_env or {})
        t = time.time()
        ep = os.path.join(self.dir, name + ".err.txt")

        def once(ip, op, timeout, stall=0):
            """the exit code; None: it took too long, or began or finished no case for too long"""
            with open(ep, "w") as ef:
                p = subprocess.Popen([BIN, sub, ip, op, *map(str, args)], env=e, stdout=ef, stderr=subprocess.STDOUT,
                                     preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_AS, (24 << 30, 24 << 30)))
                t0 = last = time.time()
                at = None
                while True:
                    try:
                        return p.wait(timeout=.05 if time.time() - t0 < 5 else .5)
                    except subprocess.TimeoutExpired:
                        pass
                    now = time.time()
                    size = os.path.getsize(op + ".prog") if os.path.exists(op + ".prog") else 0
                    if size != at:
                        at, last = size, now
                    if now - t0 > timeout or (stall and size and now - last > stall):
                        p.kill()
                        p.wait()
                        return None
        stall = 100 if self.quick else 300
        rc = once(ip, op, timeout, stall)
        for attempt in range(8):
            if rc is not None and rc >= 0:
                break
            # the process was aborted or hung: find the case that does it alone
            prog = open(op + ".prog").read().split() if os.path.exists(op + ".prog") else []
            left = {int(x[1:]) for x in prog if x[0] == "s"} - {int(x[1:]) for x in prog if x[0] == "d"}
            bad = set()

            def alone(k):
                p1 = f"{ip}.one{k}"
                with open(p1, "w") as f:
                    f.write(json.dumps(cases[k], separators=(",", ":")) + "\n")
                return k, once(p1, f"{op}.one{k}", 60)
            for k, rc1 in self.parallel([lambda k=k: alone(k) for k in sorted(left)]):
                if rc1 is None or rc1 < 0:
                    bad.add(k)
                    what = "hang" if rc1 is None else "abort"
                    self.violation(f"{what} in {sub} {cases[k].get('mode', '')}".strip(),
                                   dict(exit=rc1, case=json.dumps(cases[k])[:4000], err=open(ep, errors="replace").read()[-500:]))
            if not bad:
                break
            cases = [c for k, c in enumerate(cases) if k not in bad]
            with open(ip, "w") as f:
                for c in cases:
                    f.write(json.dumps(c, separators=(",", ":")) + "\n")
            rc = once(ip, op, timeout, stall)
        self.timing["run-" + name] = round(time.time() - t, 1)
        if rc is None:
            raise ToolError(f"harness {sub} timed out")
        if rc not in ok_codes:
            sys.stdout.write(open(ep, errors="replace").read()[-3000:])
            raise ToolError(f"harness {sub} exited with {rc}")
        res = []
        with open(op) as f:
            for line in f:
                if line.strip():
                    res.append(json.loads(line))
        return res

    # ---- verdicts --------------------------------------------------------------------
    def violation(self, key, detail):
        """key identifies the failing input / call site / history class (matched against known findings)."""
        self.viol.setdefault(key, []).append(detail)

    def sample(self, s, cap=6):
        if len(self.samples) < cap:
            self.samples.append(s)

    def finish(self):
        known = {}
        if os.path.exists(KNOWN):
            for line in open(KNOWN):
                m = re.match(r"known: property=(\S+) key=(.*?) :: (.*)$", line.strip())
                if m and m.group(1) == self.pid:
                    known[m.group(2)] = m.group(3)
        new = 0
        for key, details in self.viol.items():
            if key in known:
                print(f"KNOWN-FINDING: property={self.pid} {known[key]} [{key}; {len(details)} cases]")
                continue
            new += 1
            if new <= 12:
                rp = os.path.join(self.dir, f"replay-{new}.json")
                with open(rp, "w") as f:
                    json.dump({"property": self.pid, "key": key, "count": len(details), "details": details[:5]}, f, indent=1)
                print(f"VIOLATION property={self.pid} replay={rp} key={key} cases={len(details)}")
                print("  " + json.dumps(details[0])[:600])
        cov = dict(states=self.states, transitions=self.transitions,
                   traces_validated_against_impl=self.traces, samples=self.samples or ["none"])
        if self.level != "model_checking":
            cov = dict(evaluations=self.evals, distinct_nontrivial=self.traces, samples=self.samples or ["none"],
                       states=self.states, transitions=self.transitions)
        cov.update(self.notes)
        cov["timing_s"] = self.timing
        ev = dict(property=self.pid, tier="quick" if self.quick else "thorough", seed=self.seed, level=self.level,
                  coverage=cov, assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 1), violations=new)
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        print(f"{self.pid}: states={self.states} transitions={self.transitions} traces={self.traces} "
              f"violations={new} wall={ev['wall_s']}s {json.dumps(self.timing)}")
        return 1 if new else 0


def fx(b):
    return b.hex()
