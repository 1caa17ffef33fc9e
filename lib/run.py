"""Building the executors, running them, and running TLC."""
import fcntl
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import threading
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BUILD = os.path.join(ROOT, "build")
SPEC = os.path.join(ROOT, "spec")
TLA = "/opt/veriftools/tla"
WORKERS = int(os.environ.get("VERIF_WORKERS", "8"))


class Trouble(Exception):
    """The check cannot be carried out."""


class Violation(Exception):
    def __init__(self, what, replay):
        super().__init__(what)
        self.what = what
        self.replay = replay


def cargo_env(target):
    e = dict(os.environ)
    for k in list(e):
        if k.startswith("CARGO_") or k in ("RUSTFLAGS", "RUSTC_WRAPPER", "RUSTDOCFLAGS"):
            del e[k]
    e.update(HOME="/root", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true",
             CARGO_TERM_COLOR="never", CARGO_TARGET_DIR=target,
             PATH="/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin")
    return e


def tree_hash(*dirs):
    """The contents of the source files below dirs."""
    h = hashlib.sha256()
    for d in dirs:
        for base, subs, files in os.walk(d):
            subs[:] = sorted(s for s in subs if not s.startswith("target") and s not in (".git", "build", "out"))
            for f in sorted(files):
                if f.endswith((".rs", ".toml", ".lock", ".java", ".in")):
                    p = os.path.join(base, f)
                    h.update(os.path.relpath(p, d).encode() + b"\0")
                    with open(p, "rb") as fh:
                        h.update(fh.read())
                    h.update(b"\0")
    return h.hexdigest()


class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, name + ".lock"), "w")

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def java_classes():
    out = os.path.join(BUILD, "classes")
    with Lock("java"):
        want = tree_hash(os.path.join(ROOT, "java"))
        stamp = os.path.join(out, "stamp")
        if os.path.exists(stamp) and open(stamp).read() == want:
            return out
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        subprocess.run(["javac", "-nowarn", "-d", out, "-cp", f"{TLA}/tla2tools.jar",
                        os.path.join(ROOT, "java", "BigNatOverrides.java")], check=True)
        with open(stamp, "w") as f:
            f.write(want)
    return out


LIBS = ["libsecp256k1", "libsecp256k1-core", "libsecp256k1-gen-ecmult", "libsecp256k1-gen-genmult"]


def cargo(variant, args, crate="harness", verb="build"):
    """Runs cargo build for the harness in a target directory of its own and
    returns that directory. Cargo decides what to rebuild by time stamps; what
    counts here is the contents, so a change of contents discards what was built."""
    target = os.path.join(BUILD, "t-" + variant)
    cwd = os.path.join(ROOT, crate)
    with Lock("t-" + variant):
        env = cargo_env(target)
        want = tree_hash(REPO, cwd)
        stamp = os.path.join(target, "stamp")
        old = open(stamp).read() if os.path.exists(stamp) else None
        if old is not None and old != want:
            pkgs = [x for pkg in LIBS + ["v" + crate] for x in ("-p", pkg)]
            prof = [a for a in args if a in ("--release", "--profile", "chk")]
            subprocess.run(["cargo", "clean", "--offline"] + pkgs + prof, cwd=cwd, env=env,
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        if os.path.exists(stamp):
            os.unlink(stamp)
        p = subprocess.run(["cargo", verb, "--offline"] + args, cwd=cwd, env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            raise BuildFailure(p.stdout)
        with open(stamp, "w") as f:
            f.write(want)
    return target


class BuildFailure(Trouble):
    pass


def harness(build, features=None, bins=None):
    """build: "chk" or "release". Returns the directory of the executables."""
    args = ["--profile", "chk"] if build == "chk" else ["--release"]
    variant = build
    if features is not None and sorted(features) != ["hmac", "static-context", "std"]:
        args += ["--no-default-features", "--features", ",".join(features)]
        variant += "-" + ("_".join(features) or "none")
        for b in bins or []:
            args += ["--bin", b]
    t = cargo(variant, args)
    return os.path.join(t, build)


def parallel(fns, limit=64):
    res, errs = [None] * len(fns), []
    gate = threading.Semaphore(limit)

    def go(i):
        try:
            with gate:
                res[i] = fns[i]()
        except BaseException as e:  # noqa: B036
            errs.append(e)
    ts = [threading.Thread(target=go, args=(i,)) for i in range(len(fns))]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if errs:
        raise errs[0]
    return res


def execute(exe, script, trace, timeout=300, extra=()):
    """Runs an executor. A crash or a hang is reported with the session it was in."""
    p = subprocess.Popen([exe, script, trace] + list(extra), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    try:
        _, err = p.communicate(timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        rc, err = "timeout", ""
    if rc == 0:
        return None
    if rc == 3:
        raise Trouble(f"script error: {err}")
    done = sum(1 for _ in open(trace)) if os.path.exists(trace) else 0
    with open(script) as f:
        for k, line in enumerate(f):
            if k == done:
                return {"crash": str(rc), "session": json.loads(line)}
    raise Trouble(f"{exe} ended with {rc}: {err[-2000:]}")


STATS = re.compile(r"(\d+) states generated, (\d+) distinct states found")
SIMSTATS = re.compile(r"The number of states generated: (\d+)")


def tlc(module, cfg=None, env=None, workers=None, timeout=850, extra=(), heap="10g", mdir=None):
    """Returns {ok, states, distinct, out}."""
    classes = java_classes()
    meta = mdir or os.path.join(BUILD, "meta", f"{module}-{os.getpid()}-{threading.get_ident()}")
    os.makedirs(meta, exist_ok=True)
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{heap}", "-Xss16m",
           "-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:BigNatOverrides",
           "-cp", f"{TLA}/tla2tools.jar:{TLA}/CommunityModules-deps.jar:{classes}", "tlc2.TLC",
           "-metadir", meta, "-noGenerateSpecTE", "-workers", str(workers or WORKERS),
           "-config", (cfg or module) + ".cfg"] + list(extra) + [module]
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, timeout=timeout)
    except subprocess.TimeoutExpired as x:
        out = x.stdout.decode() if isinstance(x.stdout, bytes) else (x.stdout or "")
        raise Trouble(f"TLC {module}: no answer in {timeout} s\n{out[-2000:]}")
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    m = STATS.findall(p.stdout)
    s = SIMSTATS.findall(p.stdout)
    gen, dist = (int(m[-1][0]), int(m[-1][1])) if m else (int(s[-1]) if s else 0, 0)
    return {"ok": p.returncode == 0, "rc": p.returncode, "states": gen, "distinct": dist, "out": p.stdout}


def apalache(module, invs, init="Init", timeout=600):
    """One query to Apalache about the initial states: {ok, rc, out}. rc 0 all hold, 12 one is violated."""
    out = os.path.join(BUILD, "apalache", f"{module}-{os.getpid()}-{threading.get_ident()}-{time.time_ns()}")
    os.makedirs(out, exist_ok=True)
    cmd = ["apalache-mc", "check", f"--init={init}", "--next=Next", "--inv=" + ",".join(invs), "--length=0",
           f"--out-dir={out}", f"--run-dir={out}/run", os.path.join(SPEC, module + ".tla")]
    try:
        p = subprocess.run(cmd, cwd=out, env=dict(os.environ, JVM_ARGS="-Xmx3g"), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Trouble(f"Apalache {module} {invs}: no answer in {timeout} s")
    finally:
        shutil.rmtree(out, ignore_errors=True)
    return {"ok": p.returncode == 0, "rc": p.returncode, "out": p.stdout}


class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.quick = tier != "thorough"
        self.t0 = time.time()
        self.states = self.transitions = self.traces = self.events = 0
        self.parts = []
        self.samples = []
        self.assumptions = []
        self.known = []
        self.work = os.path.join(BUILD, "work", f"{pid}-{os.getpid()}")
        self.replays = os.path.join(BUILD, "replay")
        os.makedirs(self.work, exist_ok=True)
        os.makedirs(self.replays, exist_ok=True)
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)

    def path(self, name):
        return os.path.join(self.work, name)

    def log(self, *a):
        print(f"[{self.pid} {time.time() - self.t0:6.1f}s]", *a, flush=True)

    def part(self, **k):
        self.parts.append(k)
        self.log(json.dumps(k)[:400])

    def violated(self, what, data):
        """Reports a violation, unless it is a listed finding."""
        key = finding_key(data)
        for f in known_findings(self.pid):
            if key is not None and f.get("key") == key:
                print(f"KNOWN-FINDING: property={self.pid} {f['what']}", flush=True)
                self.known.append(f["what"])
                return
        body = json.dumps(dict(data, property=self.pid, what=what), indent=1, sort_keys=True)
        name = f"{self.pid}-{hashlib.sha256(body.encode()).hexdigest()[:12]}.json"
        p = os.path.join(self.replays, name)
        with open(p, "w") as f:
            f.write(body + "\n")
        raise Violation(what, p)

    def evidence(self, violations, exhaustive=False):
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces, "events_validated_against_impl": self.events,
               "samples": self.samples[:12], "parts": self.parts}
        if self.known:
            cov["known_findings"] = self.known
        ev = {"property": self.pid, "tier": "quick" if self.quick else "thorough", "seed": self.seed,
              "level": "model_checking", "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": violations}
        with open(os.path.join(ROOT, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")

    def main(self, stages):
        try:
            try:
                for s in stages:
                    s(self)
            except Violation as v:
                self.evidence(1)
                print(f"{v.what}")
                print(f"VIOLATION property={self.pid} replay={v.replay}", flush=True)
                return 1
            self.evidence(0)
            self.log(f"held: states={self.states} traces={self.traces} events={self.events}")
            return 0
        except Trouble as t:
            print(f"check could not run: {t}", flush=True)
            return 2
        finally:
            shutil.rmtree(self.work, ignore_errors=True)


def known_findings(pid):
    """Lines `finding: property=<id> key=<json> what=<text>` of /verif/KNOWN_FINDINGS."""
    p = os.path.join(ROOT, "KNOWN_FINDINGS")
    if not os.path.exists(p):
        return []
    out = []
    for line in open(p):
        m = re.match(r"finding: property=(\S+) key=(.*) what=(.*)$", line.strip())
        if m and m.group(1) == pid:
            out.append({"key": json.dumps(json.loads(m.group(2)), sort_keys=True), "what": m.group(3)})
    return out


def finding_key(data):
    k = data.get("key")
    return None if k is None else json.dumps(k, sort_keys=True)
