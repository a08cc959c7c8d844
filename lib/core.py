"""Shared machinery of the checks: harness runs, TLC runs, evidence, verdicts."""
import concurrent.futures as cf
import fcntl
import glob
import hashlib
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time

from build import BUILD, REPO, VERIF, build, BuildError

SPEC = os.path.join(VERIF, "spec")
TLA_JAR = "/opt/veriftools/tla/tla2tools.jar"
TLA_DEPS = "/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = min(8, os.cpu_count() or 4)


ASSUMPTIONS = [
    "TLC, the Num override (IEEE-754 doubles) and the harness hbdrive are trusted",
    "the core is built from the working tree with g++ -O1 -DNDEBUG",
]


class CheckError(Exception):
    """The check itself could not give an answer."""


def seed():
    try:
        return int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        return 1


def rng(*key):
    return random.Random("%d/%s" % (seed(), "/".join(map(str, key))))


_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="hbv-", dir=os.environ.get("TMPDIR", "/tmp"))
    return _scratch


def cleanup():
    global _scratch
    if _scratch and os.path.isdir(_scratch):
        shutil.rmtree(_scratch, ignore_errors=True)
    _scratch = None


def num_classes():
    """Compile the TLC override of module Num (cached)."""
    src = os.path.join(VERIF, "java", "Num.java")
    key = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    out = os.path.join(BUILD, "java-" + key)
    if os.path.exists(os.path.join(out, "Num.class")):
        return out
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".jlock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(out, "Num.class")):
            return out
        tmp = out + ".tmp%d" % os.getpid()
        os.makedirs(tmp, exist_ok=True)
        p = subprocess.run(["javac", "-cp", TLA_JAR, "-d", tmp, src], capture_output=True, text=True)
        if p.returncode != 0:
            raise CheckError("javac: " + p.stderr)
        os.rename(tmp, out)
    return out


# ------------------------------------------------------------------ harness
def run_harness(scenarios, timeout=30, shards=NCPU):
    """Run the scenarios on the real code; returns {scenario id: [events]}."""
    binary = build()
    d = tempfile.mkdtemp(prefix="hb-", dir=scratch())
    shards = max(1, min(shards, len(scenarios)))
    files = []
    for i in range(shards):
        part = scenarios[i::shards]
        f = os.path.join(d, "in%d" % i)
        with open(f, "w") as fh:
            for s in part:
                fh.write(json.dumps({"id": s["id"], "quiet": s.get("quiet", False), "ops": s["ops"]}) + "\n")
        files.append((f, os.path.join(d, "out%d" % i), os.path.join(d, "w%d" % i)))

    def one(t):
        os.makedirs(t[2], exist_ok=True)
        env = dict(os.environ)
        p = subprocess.run([binary, t[0], t[1], t[2], str(timeout)], capture_output=True, text=True, cwd=t[2], env=env)
        if p.returncode != 0:
            raise CheckError("harness failed (%d): %s" % (p.returncode, p.stderr[-2000:]))
        res = {}
        with open(t[1]) as fh:
            for line in fh:
                o = json.loads(line)
                res[o["sc"]] = o["ev"]
        return res

    out = {}
    with cf.ThreadPoolExecutor(shards) as ex:
        for r in ex.map(one, files):
            out.update(r)
    shutil.rmtree(d, ignore_errors=True)
    if len(out) != len(scenarios):
        raise CheckError("harness returned %d of %d scenarios (duplicate ids?)" % (len(out), len(scenarios)))
    return out


# ------------------------------------------------------------------ TLC
class TLCResult:
    def __init__(self, out, rc):
        self.out = out
        self.rc = rc
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        self.generated = int(m[-1][0].replace(",", "")) if m else 0
        self.distinct = int(m[-1][1].replace(",", "")) if m else 0
        if not m:
            m = re.findall(r"([\d,]+) states checked", out)
            if m:
                self.generated = int(m[-1].replace(",", ""))
        self.ok = "No error has been found" in out or "Finished in" in out and "Error:" not in out


def tlc(module, cfg=None, env=None, args=(), workers=1, timeout=600, heap="3g", keep=None):
    """Run TLC on spec/<module>.tla with spec/<cfg>.cfg in a scratch copy of the spec directory."""
    d = tempfile.mkdtemp(prefix="tlc-", dir=scratch())
    for f in glob.glob(os.path.join(SPEC, "*.tla")) + glob.glob(os.path.join(SPEC, "*.cfg")):
        shutil.copy(f, d)
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update(env or {})
    cmd = ["java", "-Xmx" + heap, "-Xss16m", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-cp",
           ":".join([num_classes(), TLA_JAR, TLA_DEPS]), "tlc2.TLC", "-workers", str(workers), "-lncheck", "final",
           "-noGenerateSpecTE", "-config", (cfg or module) + ".cfg"] + list(args) + [module + ".tla"]
    try:
        p = subprocess.run(cmd, cwd=d, env=e, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise CheckError("TLC on %s did not finish in %d s" % (module, timeout))
    out = re.sub(r"Loading N\w+ operator override.*\n", "", p.stdout) + p.stderr
    shutil.rmtree(d, ignore_errors=True)
    return TLCResult(out, p.returncode)


def model_check(stats, module, cfg=None, args=(), workers=4, timeout=600, expect=None, env=None):
    """Exhaustive check of a design model. A failure is an error of the check (the specification does
    not depend on the code under test)."""
    r = tlc(module, cfg, args=list(args), workers=workers, timeout=timeout, env=env)
    if r.rc != 0 or "No error has been found" not in r.out:
        raise CheckError("model checking of %s/%s failed:\n%s" % (module, cfg, r.out[-3000:]))
    stats.states += r.distinct
    stats.transitions += r.generated
    stats.models.append({"model": cfg or module, "distinct_states": r.distinct, "states_generated": r.generated})
    return r


def simulate(module, cfg, num, depth, tag="BEHAV", env=None, timeout=120, stats=None):
    """Behaviours of the specification: the JSON values the module prints as <<tag, json>>."""
    r = tlc(module, cfg, env=env, args=["-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(seed()),
                                        "-deadlock"], timeout=timeout)
    if "Error:" in r.out and "Deadlock" not in r.out:
        raise CheckError("simulation of %s failed:\n%s" % (module, r.out[-3000:]))
    return parse_printed(r.out, tag)


def parse_printed(out, tag):
    res, seen = [], set()
    for m in re.finditer(r'<<"%s", "(.*)">>' % re.escape(tag), out):
        s = m.group(1).replace('\\"', '"').replace("\\\\", "\\")
        if s not in seen:
            seen.add(s)
            res.append(json.loads(s))
    return res


class Reject:
    def __init__(self, sc, line, event, note):
        self.sc, self.line, self.event, self.note = sc, line, event, note


def validate(stats, module, traces, cfg=None, timeout=600, shards=None, heap="3g", env=None):
    """Check recorded traces against a trace specification.

    traces: list of (scenario id, [events]); the trace specification consumes the concatenation,
    starts a new behaviour at every "begin" event, prints <<"REJECT", line, note>> when no action of
    the specification explains an event, and then skips to the next "begin".
    """
    traces = [t for t in traces if t[1]]
    if not traces:
        return []
    if shards is None:
        total = sum(len(t[1]) for t in traces)
        shards = max(1, min(NCPU, len(traces), total // 40 + 1))
    # balance shards by size
    order = sorted(range(len(traces)), key=lambda i: -len(json.dumps(traces[i][1])))
    buckets = [[0, []] for _ in range(shards)]
    for i in order:
        b = min(buckets, key=lambda x: x[0])
        b[0] += len(json.dumps(traces[i][1])) + 1
        b[1].append(traces[i])
    buckets = [b[1] for b in buckets if b[1]]

    def one(part):
        f = tempfile.mkstemp(prefix="trace-", suffix=".ndjson", dir=scratch())[1]
        lines = []
        with open(f, "w") as fh:
            for sc, evs in part:
                for k, ev in enumerate([{"e": "begin", "sc": sc}] + evs if evs[0].get("e") != "begin" else evs):
                    lines.append((sc, k, ev))
                    fh.write(json.dumps(ev) + "\n")
        e = {"TRACE": f}
        e.update(env or {})
        r = tlc(module, cfg, env=e, timeout=timeout, heap=heap)
        if r.rc != 0 or "No error has been found" not in r.out:
            keepf = os.path.join(BUILD, "failed-%s.ndjson" % module)
            shutil.copy(f, keepf)
            raise CheckError("trace validation with %s failed:\n%s" % (module, r.out[-3500:]))
        rej = []
        for m in re.finditer(r'<<\s*"REJECT",\s*(\d+),\s*(\{.*?\})\s*>>', r.out, re.S):
            ln = int(m.group(1))
            sc, k, ev = lines[ln - 1]
            rej.append(Reject(sc, k, ev, re.sub(r"\s+", " ", m.group(2))))
        if len(rej) != r.out.count('"REJECT"'):
            raise CheckError("unreadable rejections of %s:\n%s" % (module, r.out[-2000:]))
        # every line must have been consumed
        if r.generated < len(lines):
            raise CheckError("trace validation with %s consumed %d of %d events:\n%s" % (
                module, r.generated - 1, len(lines), r.out[-2000:]))
        os.remove(f)
        return rej, r, len(lines)

    rejects = []
    with cf.ThreadPoolExecutor(len(buckets)) as ex:
        for rej, r, n in ex.map(one, buckets):
            rejects += rej
            stats.trace_events += n
            stats.trace_states += r.distinct
    stats.traces += len(traces)
    return rejects


def must_reject(module, traces, cfg=None, some=False):
    """Vacuity guard: the specification has to reject each (some: one) of these deliberately wrong traces."""
    s = Stats("selftest")
    rej = {j.sc for j in validate(s, module, [("self%d" % i, t) for i, t in enumerate(traces)], cfg=cfg, shards=1)}
    if not rej if some else len(rej) != len(traces):
        raise CheckError("%s accepts a corrupted trace" % module)


def must_violate(module, cfg, timeout=300):
    """Vacuity guard: the negated reachability invariant of the model has to fail."""
    r = tlc(module, cfg, workers=4, timeout=timeout)
    if "is violated" not in r.out:
        raise CheckError("%s: the witness state is unreachable:\n%s" % (cfg, r.out[-1500:]))


# ------------------------------------------------------------------ verdict
class Stats:
    def __init__(self, prop, tier="quick"):
        self.prop = prop
        self.tier = tier
        self.states = self.transitions = self.traces = self.trace_events = self.trace_states = 0
        self.scenarios = 0
        self.models = []
        self.samples = []
        self.extra = {}
        self.violations = []   # (key, scenario, detail)

    def sample(self, x, limit=4):
        if len(self.samples) < limit:
            self.samples.append(x)


def known_findings():
    """known-findings.txt: lines 'known: property=<id> key=<key> <text>' and 'fixed: ...'."""
    res = {}
    f = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(f):
        for line in open(f):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if m:
                res.setdefault(m.group(1), {})[m.group(2)] = m.group(3)
    return res


def main(prop, tier, fn):
    t0 = time.time()
    st = Stats(prop, tier)
    level = "model_checking"
    try:
        fn(st, tier)
    except Exception as e:
        if not st.violations:
            cleanup()
            if isinstance(e, (CheckError, BuildError)):
                print("ERROR property=%s: %s" % (prop, e), file=sys.stderr)
                return 2
            raise
        # what was found before counts: say it
        print("NOTE property=%s: stopped by %r" % (prop, e), file=sys.stderr)
    known = known_findings().get(prop, {})
    new = {}
    hit = {}
    for key, sc, detail in st.violations:
        if key in known:
            hit.setdefault(key, detail)
        else:
            new.setdefault(key, (sc, detail))
    ev = {
        "property": prop, "tier": tier, "seed": seed(), "level": level,
        "coverage": dict({
            "states": st.states or st.trace_states, "transitions": st.transitions or st.trace_events,
            "traces_validated_against_impl": st.traces, "trace_events": st.trace_events,
            "trace_states": st.trace_states,
            "scenarios_run": st.scenarios, "models": st.models, "samples": st.samples or ["none"],
        }, **st.extra),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(new),
        "assumptions": ASSUMPTIONS,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k in sorted(known):
        if k in hit:
            print("KNOWN-FINDING: property=%s %s: %s" % (prop, k, known[k]))
    rc = 0
    if new:
        rc = 1
        rd = os.path.join(BUILD, "replays")
        os.makedirs(rd, exist_ok=True)
        for n, (k, (sc, detail)) in enumerate(sorted(new.items(), key=lambda x: str(x[0]))[:5]):
            path = os.path.join(rd, "%s-%d.json" % (prop, n))
            with open(path, "w") as f:
                json.dump({"property": prop, "key": k, "scenario": sc, "detail": detail}, f, indent=1)
            print("VIOLATION property=%s replay=%s" % (prop, path))
            print("  " + str(k) + ": " + json.dumps(detail)[:600])
    else:
        print("OK property=%s tier=%s states=%d traces=%d events=%d scenarios=%d wall=%.1fs" % (
            prop, tier, st.states, st.traces, st.trace_events, st.scenarios, time.time() - t0))
    cleanup()
    return rc
