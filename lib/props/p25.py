"""Every process moves what its law asks for."""
import json

import core
import gen
import laws
from props import _runs


def run(stats, tier, what, cases, changes=lambda i: False):
    """cases: list of (id, Case)."""
    r = core.rng(stats.prop + "changes", tier)
    sc, byid = [], {}
    for i, (sid, c) in enumerate(cases):
        s = _runs.scenario(r, sid, c, changes=changes(i))
        sc.append(s)
        byid[sid] = (s, c)
    out = core.run_harness(sc)
    traces = []
    for sid, evs in out.items():
        s, c = byid[sid]
        f = _runs.failed(evs)
        if f:
            stats.violations.append(("run failed: " + str(f.get("msg", f.get("exc", f["op"]))), s, f))
            continue
        traces.append((sid, laws.trace(c, s["ops"], evs, what)))
    stats.scenarios += len(sc)
    return traces, {k: v[0] for k, v in byid.items()}


def judge(stats, traces, byid):
    for j in core.validate(stats, "TraceLaws", traces):
        stats.violations.append(("%s step %d" % (j.note, j.line), byid[j.sc], {"kind": byid[j.sc]["kind"]}))


def wrong(traces, kind):
    """A copy of a trace, with a process that gives a little more (and another one a little less)."""
    for _, tr in traces:
        tr = json.loads(json.dumps(tr))
        if any(p["type"] == kind for p in tr[0]["procs"]):
            for p in tr[0]["procs"]:
                if p["type"] == kind:
                    k = sorted(p["par"])[0]
                    p["par"][k] = repr(float(p["par"][k]) * 1.001 + 1e-4)
            yield tr


def check(stats, tier):
    core.model_check(stats, "MC_Laws", "MC_Laws_deep" if tier == "thorough" else "MC_Laws")
    for k in ("1", "2"):
        core.must_violate("MC_Laws", "MC_Laws_reach" + k)
    r = core.rng("P25", tier)
    cases = []
    n = 1500 if tier == "thorough" else 150
    for i in range(n):
        # the laws of the stores that the solver handles: those of the explicit Euler scheme
        kw = {"solver": "euler_explicit"} if i % 2 else {}
        k = i % 5
        if k == 0:
            s = gen.socont(r, **kw)
        elif k == 1:
            s = r.choice([gen.gr, gen.hbv])(r, **kw)
        elif k == 2:
            s = gen.network(r, **kw)
        elif k == 3:
            s = gen.covered(r, **kw)
        else:
            s = gen.cascade(r, snow=r.random() < .5, **kw)
        c = gen.Case(r, s, nsteps=r.choice([5, 12]), **gen.step_choice(r, s))
        cases.append(("l%d" % i, c))
    m = 200 if tier == "thorough" else 20
    for i in range(m):
        s = gen.changing(r)
        cases.append(("c%d" % i, gen.Case(r, s, nsteps=r.choice([5, 12]), **gen.step_choice(r, s))))
    traces, byid = run(stats, tier, "all", cases, changes=lambda i: i >= n)
    stats.sample({"process": traces[0][1][0]["procs"][0]})
    judge(stats, traces, byid)
    seen = sorted({p["type"] for _, t in traces for p in t[0]["procs"] if not p["skip"]})
    stats.extra["process types"] = seen
    for kind in ("melt:degree_day", "outflow:linear", "percolation:constant"):
        core.must_reject("TraceLaws", list(wrong(traces, kind))[:12], some=True)
