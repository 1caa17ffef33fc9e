"""What decides each property."""
import itertools
import json
import os
import random
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor

import api as apigen
import low as lowgen
import misc
import run
from run import Trouble, parallel


ALL = ["std", "hmac", "static-context"]
LAZY = ALL + ["lazy-static-context"]


# ---- conformance of executions over the public interface ---------------------------

def load(path):
    with open(path) as f:
        return [json.loads(l) for l in f]


def merge(c, traces, names, out):
    """One trace; where another build answered differently, its answer goes to x."""
    datas = [open(t).read() for t in traces]
    differ = 0
    if all(d == datas[0] for d in datas):
        os.replace(traces[0], out)
        return 0
    lines = [d.splitlines() for d in datas]
    with open(out, "w") as f:
        for row in zip(*lines):
            if all(r == row[0] for r in row):
                f.write(row[0] + "\n")
                continue
            ss = [json.loads(r) for r in row]
            for k, e in enumerate(ss[0]["ev"]):
                x = {names[j]: ss[j]["ev"][k]["o"] for j in range(1, len(ss)) if ss[j]["ev"][k]["o"] != e["o"]}
                if x:
                    e["x"] = x
                    differ += 1
            f.write(json.dumps(ss[0]) + "\n")
    return differ


def sizes(script):
    ns = ne = 0
    with open(script) as f:
        for l in f:
            ns += 1
            ne += len(json.loads(l)["ev"])
    return ns, ne


def run_builds(c, exes, script, timeout=400):
    """exes: {name: path}. Runs all of them; returns the merged trace."""
    names = list(exes)
    traces = [c.path(f"{os.path.basename(script)}.{n}.trace") for n in names]
    crashes = parallel([lambda n=n, t=t: run.execute(exes[n], script, t, timeout) for n, t in zip(names, traces)])
    for n, cr in zip(names, crashes):
        if cr:
            c.violated(f"the {n} build crashed or hung ({cr['crash']}) in session {cr['session']['id']}",
                       {"kind": "crash", "build": n, "bin": os.path.basename(exes[n]), "session": cr["session"]})
            raise Trouble("crash matches a listed finding; the rest of the trace is missing")
    out = c.path(os.path.basename(script) + ".trace")
    merge(c, traces, names, out)
    for t in traces:
        if os.path.exists(t):
            os.unlink(t)
    return out


def mismatches(out):
    """The MISMATCH lines of TLC's output: a TLA+ string, with its quotes escaped."""
    res = []
    for l in out.splitlines():
        l = l.strip()
        if l.startswith('"MISMATCH '):
            l = json.loads(l)
        if l.startswith("MISMATCH "):
            try:
                res.append(json.loads(l[len("MISMATCH "):]))
            except ValueError:
                res.append({"raw": l[:4000]})
    return res


def validate(c, module, trace, binname, label, cfg=None, extra=(), sample=True, timeout=850, explain=None):
    """TLC consumes every event of every session."""
    known = run.known_findings(c.pid)
    r = run.tlc(module, cfg=cfg, env={"TRACE": trace}, extra=(["-continue"] if known else []) + list(extra),
                timeout=timeout)
    ns, ne = sizes(trace)
    if not r["ok"]:
        mm = mismatches(r["out"])
        if not mm:
            raise Trouble(f"TLC {module} on {label}: rc {r['rc']}\n{r['out'][-3000:]}")
        for m in mm:
            sess = None
            for s in load(trace):
                if s["id"] == m.get("id"):
                    sess = {"id": s["id"], "ev": [{"op": e["op"], "a": e["a"]} for e in s["ev"][:m["at"]]]}
            e = m.get("e", {})
            if m.get("exp", {}).get("r") == "precondition":
                raise Trouble(f"{label}: the script makes a call that is not permitted: {json.dumps(m)[:1500]}")
            c.violated(f"{label}: event {m.get('at')} of session {m.get('id')}: {json.dumps(m)[:1500]}",
                       dict(explain(sess) if explain else {}, kind="trace", module=module, cfg=cfg, bin=binname,
                            session=sess, mismatch=m, key={"op": e.get("op"), "a": e.get("a")}))
    elif r["distinct"] != ns + ne:
        raise Trouble(f"TLC {module} on {label}: {r['distinct']} states for {ns} sessions with {ne} events")
    c.states += r["distinct"]
    c.transitions += r["states"]
    c.traces += ns
    c.events += ne
    if sample:
        with open(trace) as f:
            for k, l in enumerate(f):
                if k % max(1, ns // 2) == 0 and len(c.samples) < 12:
                    s = json.loads(l)
                    c.samples.append({"session": s["id"], "events": [
                        {"op": e["op"], "a": str(e["a"])[:300], "o": str(e["o"])[:300]} for e in s["ev"][:3]]})
    c.part(stage="trace validation", what=label, module=module, sessions=ns, events=ne, states=r["distinct"])


def both(binname):
    p = parallel([lambda: run.harness("chk"), lambda: run.harness("release"), run.java_classes])
    return {"chk": os.path.join(p[0], binname), "release": os.path.join(p[1], binname)}


def lazy_too(binname):
    bins = ["api", "conc", "low"]
    p = parallel([lambda: both(binname), lambda: run.harness("release", LAZY, bins)])
    return dict(p[0], lazy=os.path.join(p[1], binname))


def traces(gens, gen, binname, module, quick, thorough, step, cfg=None, builds=both):
    """Generated scripts, run by both builds, validated by TLC."""
    def stage(c):
        exes = builds(binname)
        c.log("built")
        q = quick if c.quick else thorough
        done, k = 0, 0
        while done < q:
            n = min(step, q - done)
            rng = random.Random(f"{c.seed}/{gen}/{c.tier}/{k}")
            sc = gens[gen](rng, n)
            script = c.path(f"{gen}-{k}.script")
            sc.write(script)
            tr = run_builds(c, exes, script)
            validate(c, module, tr, binname, f"{gen} round {k}", cfg=cfg)
            os.unlink(tr)
            os.unlink(script)
            done += n
            k += 1
    return stage


def api(gen, quick=4, thorough=60, module="MCTraceApi", step=6, **k):
    return traces(apigen.GENS, gen, "api", module, quick, thorough, step, **k)


def low(gen, quick=4, thorough=60, step=4, **k):
    return traces(lowgen.GENS, gen, "low", "MCTraceLow", quick, thorough, step, **k)


def mc(module, cfg=None, thorough=None, timeout=850, extra=(), workers=None):
    """Exhaustive exploration of a specification module. `thorough` names the
    configuration of the thorough tier when it differs (None: same)."""
    def stage(c):
        use = (thorough or cfg or module) if not c.quick else (cfg or module)
        r = run.tlc(module, cfg=use, timeout=timeout, extra=extra, workers=workers)
        if not r["ok"]:
            raise Trouble(f"specification {module}/{use} does not have its properties\n{r['out'][-4000:]}")
        c.states += r["distinct"]
        c.transitions += r["states"]
        c.part(stage="model checking", module=module, cfg=use, states=r["distinct"], transitions=r["states"],
               exhaustive=True)
    return stage


def mc_fails(module, cfg):
    """A configuration that must NOT have the property: the specification can tell."""
    def stage(c):
        r = run.tlc(module, cfg=cfg, timeout=300, workers=1)
        if r["ok"] or r["rc"] not in (12, 13):
            raise Trouble(f"specification {module}/{cfg} was expected to violate its property, rc {r['rc']}")
        c.part(stage="model checking, negative control", module=module, cfg=cfg, rc=r["rc"])
    return stage


def words(module, holds, fails):
    """Full size, all values at once: Apalache decides the invariants `holds` ((init, names)) of a module whose
    only states are its initial ones, and must refute each of `fails` ((init, name))."""
    def stage(c):
        asked = [(i, n.split(), True) for i, n in holds] + [(i, [n], False) for i, n in fails]
        with ThreadPoolExecutor(4) as ex:
            got = list(ex.map(lambda q: run.apalache(module, q[1], init=q[0]), asked))
        for (i, names, good), r in zip(asked, got):
            if r["rc"] != (0 if good else 12):
                raise Trouble(f"specification {module} from {i}: {names} expected to "
                              f"{'hold' if good else 'be refuted'}, rc {r['rc']}\n{r['out'][-3000:]}")
            c.part(stage="decided for all values by Apalache" if good else "refuted by Apalache, negative control",
                   module=module, init=i, invariants=names)
    return stage


def erase(quick=1, thorough=40):
    def stage(c):
        exes = both("clear")
        rng = random.Random(f"{c.seed}/erase/{c.tier}")
        sc = misc.erase(rng, quick if c.quick else thorough)
        script = c.path("erase.script")
        sc.write(script)
        for n in exes:      # what a wiped object looks like may depend on the build
            tr = run_builds(c, {n: exes[n]}, script)
            validate(c, "TraceErase", tr, "clear", f"erase, {n} build")
    return stage


# ---- configurations ---------------------------------------------------------------------

FEATURES = ["std", "hmac", "static-context", "lazy-static-context"]
# configurations with different behaviour (spec Features: Distinct)
DISTINCT = [[f for f, x in zip(FEATURES, bits) if x]
            for bits in itertools.product([0, 1], repeat=4)
            if not bits[3] or (bits[0] and bits[2])]
PROFILES = {"checked": "chk", "optimised": "release"}


def try_build(fn):
    try:
        return fn(), None
    except run.BuildFailure as e:
        return None, str(e)


def build_everything():
    """[(event arguments, path or None, error or None)] of every build the specification requires."""
    subsets = [[f for f, x in zip(FEATURES, bits) if x] for bits in itertools.product([0, 1], repeat=4)]
    jobs = []
    for f in DISTINCT:
        for p, b in PROFILES.items():
            jobs.append((dict(what="program", f=f, profile=p),
                         lambda f=f, b=b: os.path.join(run.harness(b, f, ["api", "conc", "low"] if "lazy-static-context" in f else ["api"]), "api")))
            if "std" not in f:
                args = (["--release"] if p == "optimised" else []) + \
                    (["--features", ",".join(f)] if f else [])
                jobs.append((dict(what="freestanding", f=f, profile=p),
                             lambda f=f, args=args, p=p: run.cargo("probe-" + p, args, crate="probe")))
    for k, f in enumerate(subsets):
        jobs.append((dict(what="library", f=f, profile="checked"),
                     lambda f=f, k=k: run.cargo(f"only{k % 2}", ["--features", ",".join(["lib"] + f)],
                                                crate="only", verb="check")))
    for f in (["std"], []):
        jobs.append((dict(what="core", f=f, profile="checked"),
                     lambda f=f: run.cargo("only-core", ["--features", "core-std" if f else "core"],
                                           crate="only", verb="check")))
    res = parallel([lambda j=j: try_build(j[1]) for j in jobs], limit=6)
    return [(j[0],) + r for j, r in zip(jobs, res)]


def features(c):
    built = build_everything()
    c.log(f"{len(built)} builds")
    evs = [{"op": "build", "a": a, "o": {"r": "ok" if e is None else "failed", "text": "" if e is None else e[-1500:]}}
           for a, _, e in built]
    exes = {f"{a['profile']}:{'+'.join(a['f']) or 'none'}": (a, p) for a, p, e in built if a["what"] == "program" and p}
    script = c.path("surface.script")
    with open(script, "w") as f:
        f.write(json.dumps({"id": "surface", "ev": [{"op": "surface", "a": {}}]}) + "\n")
    for n, (a, exe) in exes.items():
        tr = c.path("surface.trace")
        cr = run.execute(exe, script, tr, 100)
        o = {"r": "crash", "groups": []} if cr else load(tr)[0]["ev"][0]["o"]
        evs.append({"op": "surface", "a": dict(a, what="surface"), "o": dict({"groups": []}, **o)})
    trace = c.path("features.trace")
    with open(trace, "w") as f:
        f.write(json.dumps({"id": "builds", "ev": evs}) + "\n")
    validate(c, "TraceFeatures", trace, "build", "builds and what they provide")
    # the same scripts in every build
    rng = random.Random(f"{c.seed}/C24/{c.tier}")
    for r in range(1 if c.quick else 12):
        scripts = apigen.c24(rng, 1 if c.quick else 3)
        for group, need in (("base", None), ("sign", "hmac"), ("serde", "std")):
            script = c.path(f"{group}.script")
            scripts[group].write(script)
            use = {n: p for n, (a, p) in exes.items() if need is None or need in a["f"]}
            tr = run_builds(c, use, script)
            validate(c, "MCTraceApi", tr, "api", f"{group}: {len(use)} builds, round {r}", cfg="MCTraceApiAgree")
        # the exposed curve arithmetic
        script = c.path("arithmetic.script")
        arith = apigen.Script()
        for g in sorted(lowgen.GENS):
            ss = lowgen.GENS[g](rng, 1).sessions
            rng.shuffle(ss)
            arith.sessions += ss[:150 if c.quick else 600]
        arith.write(script)
        use = lazy_too("low")
        tr = run_builds(c, use, script)
        validate(c, "MCTraceApi", tr, "low", f"arithmetic: {len(use)} builds, round {r}", cfg="MCTraceApiAgree")


# ---- threads ----------------------------------------------------------------------------

def conc(quick=24, thorough=600):
    def stage(c):
        try:
            d = parallel([lambda: run.harness("chk", ALL), lambda: run.harness("release", ALL),
                          lambda: run.harness("chk", LAZY, ["api", "conc", "low"]),
                          lambda: run.harness("release", LAZY, ["api", "conc", "low"]), run.java_classes])
        except run.BuildFailure as e:
            # the program uses every shared type from several threads
            if "cannot be shared between threads" in str(e) or "cannot be sent between threads" in str(e):
                c.violated("a type can no longer be shared between threads", {"kind": "build", "text": str(e)[-3000:]})
            raise
        builds = {"checked": (d[0], False), "optimised": (d[1], False), "lazy checked": (d[2], True),
                  "lazy optimised": (d[3], True)}
        rng = random.Random(f"{c.seed}/conc/{c.tier}")
        sess = misc.conc(rng, quick if c.quick else thorough)
        sess += misc.storms(rng, *((250, 1) if c.quick else (2000, 4)))
        for name, (d, lazy) in builds.items():
            exe = os.path.join(d, "conc")
            tag = name.replace(" ", "-")
            script = c.path(tag + ".script")
            with open(script, "w") as f:
                f.writelines(json.dumps(s) + "\n" for s in sess)
            alone = c.path(tag + ".alone")
            cr = run.execute(exe, script, alone, 300, extra=["alone"])
            if cr:
                raise Trouble(f"conc alone: {cr['crash']}")
            alone = load(alone)
            lz, ap = open(c.path(tag + ".lazy"), "w"), open(c.path(tag + ".api"), "w")
            races = 0
            for k, s in enumerate(sess):
                one, tr = c.path("one.script"), c.path("one.trace")
                with open(one, "w") as f:
                    f.write(json.dumps(s) + "\n")
                if os.path.exists(tr):
                    os.unlink(tr)
                cr = run.execute(exe, one, tr, 60)
                if cr:
                    c.violated(f"{name} build: threads crashed or hung ({cr['crash']}) in session {s['id']}",
                               {"kind": "race", "build": name, "session": s})
                    raise Trouble("crash matches a listed finding")
                got = load(tr)[0]
                looks = []
                for n, th in enumerate(got["th"]):
                    evs = []
                    for j, e in enumerate(th):
                        if e["op"] == "peek":
                            e["a"] = dict(e["a"], thread=n, whole=got["end"][e["a"]["which"]])
                            looks.append(e)
                        else:
                            want = alone[k]["th"][n][j]["o"]
                            if want != e["o"]:
                                e["x"] = {"alone": want}
                            evs.append(e)
                    ap.write(json.dumps({"id": f"{s['id']}/{n}", "ev": evs}) + "\n")
                looks.sort(key=lambda e: e["o"]["tick"][1])
                races += sum(1 for e in looks if e["o"]["tick"][1] > e["o"]["tick"][0] + 1)
                looks.append({"op": "made", "a": {"lazy": lazy}, "o": {"r": "ok", "made": got["made"]}})
                lz.write(json.dumps({"id": s["id"], "ev": looks}) + "\n")
            lz.close()
            ap.close()
            validate(c, "TraceLazy", lz.name, "conc", f"shared tables, {name} build, {races} overlapping looks")
            validate(c, "MCTraceApi", ap.name, "conc", f"{name} build, threads against alone", cfg="MCTraceApiAgree")
    return stage


# ---- what somebody who watches an execution sees -------------------------------------------

LEAK_BUILDS = {"release": "optimised", "os": "small", "o2": "-O2", "o1": "-O1"}


def leak_build(profile):
    t = run.cargo("leak-" + profile, ["--profile", profile], crate="leak")
    return os.path.join(t, profile, "vleak")


def look(exe, ev, work, dump=None):
    """One execution under valgrind: the observation."""
    text = ev["op"].encode().ljust(32, b"\0") + bytes.fromhex("".join(ev["a"]["v"]))
    with tempfile.TemporaryDirectory(dir=work) as d:
        said = os.path.join(d, "said")
        cmd = (f"timeout 200 valgrind --tool=lackey --trace-mem=yes --log-fd=9 {exe} run 9>&1 >{said} 2>{d}/err"
               f" | {exe} watch {said} {dump or ''}")
        p = subprocess.run(["bash", "-c", cmd], input=text, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if p.returncode == 0:
            return json.loads(p.stdout)
        err = open(f"{d}/err", errors="replace").read()
        if "panicked" in err:
            return {"r": "panic", "text": err[-500:]}
        raise Trouble(f"nothing seen of {ev['op']}: {p.stderr[-500:]!r} {err[-500:]}")


def first_difference(exe, x, y, work):
    """Where two executions part, for the report."""
    files = [os.path.join(work, n) for n in ("first.dump", "second.dump")]
    looks = [look(exe, e, work, f) for e, f in zip((x, y), files)]
    if any(l["r"] != "ok" for l in looks):
        return {"looks": looks}
    syms = []
    for l in subprocess.run(["nm", "-C", exe], stdout=subprocess.PIPE, text=True).stdout.splitlines():
        w = l.split(None, 2)
        if len(w) == 3 and w[1] in "tT":
            syms.append((int(w[0], 16), w[2]))
    syms.sort()
    at = dict((n, a) for a, n in syms).get("vleak_mark", 0)
    with open(files[0]) as f, open(files[1]) as g:
        first = prev = None
        for a, b in itertools.zip_longest(f, g):
            if first is None:      # the first line is the mark's own
                first = int(a[3:].split(",")[0], 16)
            if a != b:
                break
            if a.startswith("I"):
                prev = int(a[3:].split(",")[0], 16) - first + at
    name = [n for s, n in syms if prev is not None and s <= prev][-1:]
    for f in files:
        os.unlink(f)
    return {"executions": [x, y], "part_after": f"{name[0] if name else '?'} ({prev:#x})" if prev else "?",
            "first": a, "second": b}


def leaks(profiles=("release", "os"), deep=("release", "os", "o2", "o1"), quick=10, thorough=40):
    def stage(c):
        use = profiles if c.quick else deep
        exes = dict(zip(use, parallel([lambda p=p: leak_build(p) for p in use] + [run.java_classes])))
        c.log("built")
        rng = random.Random(f"{c.seed}/leak/{c.tier}")
        for p, exe in exes.items():
            sess = misc.leak(rng, misc.LEAKS, quick if c.quick else thorough, 1) + misc.leak_controls(rng)
            if c.quick and p != "release":
                sess = [s for s in sess if s["ev"][0]["op"] in ("derive", "sign", "ecdh", "scalar", "cmov")]
            evs = [e for s in sess for e in s["ev"]]
            for e, o in zip(evs, parallel([lambda e=e: look(exe, e, c.work) for e in evs], limit=run.WORKERS)):
                e["o"] = o
            trace = c.path(f"leak-{p}.trace")
            with open(trace, "w") as f:
                f.writelines(json.dumps(s) + "\n" for s in sess)
            validate(c, "MCTraceLeak", trace, "leak", f"{LEAK_BUILDS[p]} build, {len(evs)} executions watched",
                     explain=lambda s: first_difference(exe, s["ev"][0], s["ev"][-1], c.work))
    return stage


# ---- histories drawn from the specification ----------------------------------------------

def histories(theme, num, seed):
    """TLC in simulation mode on GenApi: num histories."""
    cfg = open(os.path.join(run.SPEC, "GenApi.cfg")).read().replace('"all"', f'"{theme}"')
    with tempfile.NamedTemporaryFile("w", suffix=".cfg", dir=run.BUILD) as f:
        f.write(cfg)
        f.flush()
        r = run.tlc("GenApi", cfg=f.name[:-4], workers=1, heap="2g",
                    extra=["-simulate", f"num={num}", "-depth", "1000", "-seed", str(seed)])
    if not r["ok"]:
        raise Trouble(f"TLC GenApi: rc {r['rc']}\n{r['out'][-3000:]}")
    return [json.loads(json.loads(l)[len("HIST "):]) for l in r["out"].splitlines() if l.startswith('"HIST ')], r["states"]


def drawn(themes, quick=60, thorough=1500, cfg=None, builds=both, procs=4):
    """Histories TLC draws from the specification, executed and validated."""
    def stage(c):
        rng = random.Random(f"{c.seed}/drawn/{themes}/{c.tier}")
        exes = builds("api")
        left, k = (quick if c.quick else thorough), 0
        while left > 0:
            n = min(left, 400)
            per = -(-n // procs)
            jobs = [(themes[j % len(themes)], rng.randrange(1, 1 << 40)) for j in range(procs)]
            got = parallel([lambda t=t, s=s: histories(t, per, s) for t, s in jobs])
            script = c.path(f"drawn-{k}.script")
            with open(script, "w") as f:
                for (t, s), (hs, states) in zip(jobs, got):
                    c.transitions += states
                    for i, h in enumerate(hs):
                        f.write(json.dumps({"id": f"{t}-{s}-{i}", "ev": h}) + "\n")
            tr = run_builds(c, exes, script)
            validate(c, "MCTraceApi", tr, "api", f"histories drawn from GenApi ({', '.join(themes)}), round {k}", cfg=cfg)
            left -= n
            k += 1
    return stage


# ---- the transition graph of a key pair ---------------------------------------------------

def graph(family):
    """TLC explores GenKeys: {state: [(call, next state or ())]}."""
    cfg = open(os.path.join(run.SPEC, "GenKeys.cfg")).read().replace('"six"', f'"{family}"')
    with tempfile.NamedTemporaryFile("w", suffix=".cfg", dir=run.BUILD) as f:
        f.write(cfg)
        f.flush()
        r = run.tlc("GenKeys", cfg=f.name[:-4])
    if not r["ok"]:
        raise Trouble(f"TLC GenKeys: rc {r['rc']}\n{r['out'][-3000:]}")
    g = {}
    for l in r["out"].splitlines():
        if l.startswith('"EDGE '):
            a, call, b = json.loads(json.loads(l)[len("EDGE "):])
            g.setdefault(tuple(a), []).append((call, tuple(b)))
    for es in g.values():       # TLC's workers print in any order
        es.sort(key=lambda e: json.dumps(e[0], sort_keys=True))
    return g, r


def walks(rng, g, start, wanted, longest):
    """Paths from the start that between them take every wanted edge (state, index)."""
    todo = {}
    for s, k in sorted(wanted):
        todo.setdefault(s, []).append(k)
    for ks in todo.values():
        rng.shuffle(ks)
    out, path, at = [], [], start
    while todo:
        if len(path) >= longest:
            out.append(path)
            path, at = [], start
        if at in todo:
            call, to = g[at][todo[at].pop()]
            if not todo[at]:
                del todo[at]
            path.append(call)
        else:       # the shortest way to a state with something left to do
            back, queue = {at: None}, [at]
            for s in queue:
                if s in todo:
                    break
                for c, t in rng.sample(g[s], len(g[s])):
                    if t and t not in back:
                        back[t] = (s, c)
                        queue.append(t)
            way, to = [], s
            while back[s]:
                s, c = back[s]
                way.append(c)
            path += way[::-1]
        if to:
            at = to
        else:
            path.append(None)
            at = start
    return out + [path]


def transitions(quick=1800, thorough=None):
    """Every transition of GenKeys (in the quick tier: a sample), in walks."""
    def stage(c):
        rng = random.Random(f"{c.seed}/transitions/{c.tier}")
        exes = both("api")
        for family in (["six"] if c.quick else ["six", "two"]):
            g, r = graph(family)
            c.states += r["distinct"]
            c.transitions += r["states"]
            edges = [(s, k) for s in g for k in range(len(g[s]))]
            edges.sort()
            wanted = rng.sample(edges, min(quick, len(edges))) if c.quick else edges
            again = [{"op": "sk_copy", "a": {"k": 4, "d": 0}},
                     {"op": "pk_derive", "a": {"k": 0, "d": 0, "ctx": "static"}},
                     {"op": "pk_derive", "a": {"k": 0, "d": 1, "ctx": "static"}}]
            one = f"{1:064x}"
            n = apigen.N
            w = 0xac9c52b33fa3cf1f5ad9e3fd77ed9ba4a880b9fc8ec739c2e0cfc810b51283cf    # GenKeys!Omega
            fam = [1, w, w * w, -1, -w, -w * w] if family == "six" else [1, 2, pow(2, -1, n), -1, -2, -pow(2, -1, n)]
            first = [{"op": "sk_parse", "a": {"d": 4 + k, "b": f"{v % n:064x}"}} for k, v in enumerate(fam)]
            first += [{"op": "sk_parse", "a": {"d": 10, "b": one}}, {"op": "sk_clear", "a": {"k": 10}}] + again
            script = c.path(f"walks-{family}.script")
            ws = walks(rng, g, (1, 1, 1), wanted, 250)
            with open(script, "w") as f:
                for k, w in enumerate(ws):
                    ev = list(first)
                    for call in w:
                        ev += again if call is None else [call]
                    f.write(json.dumps({"id": f"walk-{family}-{k}", "ev": ev + [{"op": "dump", "a": {"x": 0}}]}) + "\n")
            tr = run_builds(c, exes, script)
            validate(c, "MCTraceApi", tr, "api", f"walks over {len(wanted)} of the {len(edges)} transitions of GenKeys ({family})")
    return stage


def thorough_only(stage):
    return lambda c: None if c.quick else stage(c)


QUICK = dict.fromkeys(["C02", "C05", "C06", "C08", "C11", "C12", "C13", "C14", "C16", "C17", "C18", "C20", "C27"], 8)
STAGES = {g: [api(g, quick=QUICK.get(g, 4))] for g in apigen.GENS}
STAGES.update({g: [low(g, quick=QUICK.get(g, 4))] for g in lowgen.GENS})

STAGES["C21"] = [low("C21", builds=lazy_too)]
STAGES["C22"] = [api("C22", quick=12, thorough=200, step=12, cfg="MCTraceApiTotal")]
STAGES["C23"] = [mc("MCErase"), mc_fails("MCErase", "MCErasePlain"), erase(), api("C23", quick=6)]
STAGES["C26"] = [mc("MCLazyInit", thorough="MCLazyInitDeep"), mc_fails("MCLazyInit", "MCLazyInitRacy"), conc()]
STAGES["C24"] = [features]
STAGES["C28"] = [mc("MCLeak", thorough="MCLeakDeep")] + \
    [mc_fails("MCLeak", "MCLeak" + n) for n in ("Branch", "Place", "Skip", "Bit")] + [leaks()]


# Histories TLC draws from the specification: theme and number in the quick tier.
DRAWN = {"C01": (["use"], 80), "C03": (["use"], 80), "C04": (["use"], 80), "C06": (["codecs"], 80),
         "C07": (["keys", "codecs"], 80), "C08": (["sigs", "keys"], 80), "C09": (["keys"], 160),
         "C10": (["keys"], 80), "C11": (["use", "keys"], 80), "C12": (["sigs"], 80), "C13": (["sigs"], 80),
         "C14": (["sigs", "use"], 80), "C15": (["sigs", "use"], 80), "C16": (["codecs"], 80),
         "C25": (["all", "keys", "use", "all"], 200)}
for _i, (_t, _n) in DRAWN.items():
    STAGES[_i].append(drawn(_t, _n))
for _i in ("C09", "C10", "C25"):
    STAGES[_i].append(transitions())
STAGES["C22"].append(drawn(["all", "sigs", "codecs", "keys"], 120, cfg="MCTraceApiTotal"))


# The properties of the specification itself: exhaustively on small curves, and of
# the algorithms the library uses. (quick configuration, thorough configuration)
MODELS = {
    "ToyEcdsa": ("ToyEcdsa", "ToyEcdsa43", "C01 C02 C03 C04 C15"),
    "AlgEcdsa": ("AlgEcdsa", "AlgEcdsaDeep", "C03 C04"),
    "ToyKeys": ("ToyKeys", None, "C07 C09 C10 C11 C16 C25"),
    "ToyCodec": ("ToyCodec", "ToyCodecDeep", "C06 C08 C12 C13 C14 C27"),
    "AlgMul": ("AlgMul", "AlgMulDeep", "C05 C20 C21"),
    "AlgGroup": ("AlgGroup", "AlgGroupDeep", "C19"),
    "FullScheme": ("FullScheme", None, "C01 C03 C04 C09 C10 C11"),
    "FullGroup": ("FullGroup", None, "C19 C20"),
    "AlgField": ("AlgField", "AlgFieldDeep", "C18"),
    # the evaluation of the arithmetic operators in Java against their definitions
    "MCBigNat": ("MCBigNat", "MCBigNatDeep", "C17"),
}
for _m, (_q, _t, _ids) in MODELS.items():
    for _i in _ids.split():
        STAGES[_i].append(mc(_m, _q, _t))
for _i in ("C01", "C02", "C03", "C04", "C15"):
    STAGES[_i].append(thorough_only(mc("ToyEcdsa", "ToyEcdsa7")))      # more scalars than field elements
STAGES["C19"] += [mc_fails("FullGroup", "FullGroupUnpatched"), mc_fails("FullGroup", "FullGroupSwapped")]
for _i in ("C03", "C04"):
    STAGES[_i] += [mc_fails("AlgEcdsa", "AlgEcdsaUnguarded"), mc_fails("AlgEcdsa", "AlgEcdsaOnce"),
                   mc_fails("FullScheme", "FullSchemeWrongHalf"), mc_fails("FullScheme", "FullSchemeUnsigned")]


STAGES["C17"] += [
    words("WordScalar", [("Init", "OverflowRight HighRight ReduceRight AddRight NegRight CaddRight ShrRight")],
          [("Init", n) for n in ("BadReduceLosesCarry", "BadAddForgetsTop", "BadNegOfZero")]),
    words("WordMul", [("Init", "MuladdRight MuladdFastRight Muladd2Right SumaddRight SumaddFastRight ColumnsRight "
                               "Fold1Right Fold2Right Fold3Right Fold4Right")],
          [("Init", n) for n in ("BadMuladd2", "BadFold1", "BadForgetsCarry")])]
STAGES["C18"].append(
    words("WordField", [("Init", "WeakRight NormalRight ZeroTestRight RangeRight NegRight AddRight MulIntRight "
                                 "UnpackRight PackRight MulRight"),
                        ("InitRaw", "WeakRight NormalRight ZeroTestRight")],
          [("Init", n) for n in ("BadNormalForgetsP", "BadNormalOneOff", "BadZeroTest", "BadNeg", "BadMul")]
          + [("InitLoose", "WeakRight")]))

STAGES["C17"].append(words("Chains", [("Init", "ScalarInverseRight")], [("Init", "BadScalarInverse")]))
STAGES["C18"].append(words("Chains", [("Init", "FieldInverseRight FieldRootRight")],
                           [("Init", "BadFieldInverse"), ("Init", "BadFieldRoot")]))
CONST_TIME = "OddRight StepRight FirstRight EndRight"
STAGES["C20"].append(
    words("WordRecode", [("Init", "SmallRight FarRight SkipRight SkipLastRight NearRight"), ("Init", CONST_TIME)],
          [("Init", n) for n in ("BadNearUnflipped", "BadCarry", "BadMinusOne", "BadSign")]))
STAGES["C11"].append(words("WordRecode", [("Init", CONST_TIME)], [("Init", "BadMinusOne"), ("Init", "BadSign")]))
for _i, _good, _bad in (
        ("C01", "ResidueRight LowRight", "BadHigh"),
        ("C03", "ResidueRight AcceptsRight", "BadOneChance BadNoGuard BadGuard"),
        ("C04", "RecoverRight CandidateRight", "BadGuard"),
        ("C08", "KeyRight", "BadResidue"),
        ("C09", "TweakRight", ""),
        ("C15", "LowRight", "BadHigh")):
    STAGES[_i].append(words("WordEcdsa", [("Init", _good)], [("Init", n) for n in _bad.split()]))


def setup():
    parallel([lambda: run.harness("chk"), lambda: run.harness("release"), run.java_classes])
    build_everything()
    parallel([lambda p=p: leak_build(p) for p in LEAK_BUILDS])
    return 0


def replay(path):
    """Runs a recorded session again."""
    d = json.load(open(path))
    if d["kind"] not in ("trace", "crash") or d.get("bin") in ("build", "conc", "leak"):
        print(json.dumps(d, indent=1))
        print(f"re-run by: python3 check.py {d['property']}")
        return 2
    c = run.Check(d["property"], "quick", 1)
    try:
        if d["kind"] in ("trace", "crash") and d.get("session"):
            script = c.path("replay.script")
            with open(script, "w") as f:
                f.write(json.dumps(d["session"]) + "\n")
            exes = both(d["bin"])
            if d["bin"] == "clear":
                exes = {k: v for k, v in exes.items() if k in d["mismatch"].get("build", k)}
            tr = run_builds(c, exes, script, 120)
            validate(c, d.get("module", "MCTraceApi"), tr, d["bin"], "replay", cfg=d.get("cfg"))
            print("the recorded session conforms")
            return 0
        print(json.dumps(d, indent=1))
        return 2
    except run.Violation as v:
        print(v.what)
        print(f"VIOLATION property={d['property']} replay={v.replay}")
        return 1
