"""Resetting and running again reproduces a run."""
import json

import core
import gen
from props import _life, _runs


def scenario(r, sid, hist, k):
    s = gen.any_structure(r)
    c = gen.Case(r, s, nsteps=r.choice([3, 6, 10]))
    par, sel = _life.change(r, s)
    acts = gen.actions(r, c)
    way = r.choice(["init", "save"])
    ops = _life.model_ops(c, way, acts)
    marks = ([("Save", None)] if way == "save" else []) + [("model", dict(n=c.n, acts=bool(acts)))]
    for i, h in enumerate(hist):
        ops += _life.history(h, par)
        marks += [(x, None) for x in h]
        if i + 1 < len(hist):    # back to a model freshly built from the same settings, next to the first one
            ops = ops + [["Ctx", i + 1]] + _life.model_ops(c, way, acts)
            marks += ([("Save", None)] if way == "save" else []) + [marks[1 if way == "save" else 0]]
    return {"id": sid, "ops": ops, "kind": s.kind, "marks": marks, "hist": hist, "par": sel, "acts": acts}


def clean(tr):
    """The Save that fixes the initial state belongs to the construction of the model."""
    res = []
    for i, e in enumerate(tr):
        if e["e"] == "Save" and i + 1 < len(tr) and tr[i + 1]["e"] == "model":
            continue
        res.append(e)
    return res


def check(stats, tier):
    core.model_check(stats, "MC_Lifecycle", "MC_Lifecycle_deep" if tier == "thorough" else "MC_Lifecycle")
    core.must_violate("MC_Lifecycle", "MC_Lifecycle_reach")
    core.must_violate("MC_Lifecycle", "MC_Lifecycle_reach2")
    hs = [b["ops"] for b in core.simulate("MC_Lifecycle", "MC_Lifecycle_sim", 600 if tier == "thorough" else 150, 12)]
    hs = [h for h in hs if h.count("Run") >= 2 and "Reset" in h]
    stats.extra["histories"] = len(hs)
    r = core.rng("P04", tier)
    n = 500 if tier == "thorough" else 90
    sc = [scenario(r, "h%d" % i, [hs[i % len(hs)]] + ([hs[(i * 7 + 3) % len(hs)]] if i % 3 == 0 else []), i)
          for i in range(n)]
    out = core.run_harness(sc)
    traces = []
    for s in sc:
        evs = out[s["id"]]
        f = _runs.failed(evs)
        if f:
            stats.violations.append(("run failed: " + str(f.get("msg", f.get("exc", f["op"]))), s, f))
            continue
        traces.append((s["id"], clean(_life.events(s["marks"], evs))))
    stats.scenarios += len(sc)
    byid = {s["id"]: s for s in sc}
    kinds = {}
    for i, _ in traces:
        kinds[byid[i]["kind"]] = kinds.get(byid[i]["kind"], 0) + 1
    stats.extra["structures"] = kinds
    stats.sample({"history": sc[0]["hist"], "trace": traces[0][1][:4]})
    bad = json.loads(json.dumps(next(t for _, t in traces if [e["e"] for e in t].count("Run") > 1)))
    [e for e in bad if e["e"] == "Reset"][-1]["d"] = "x"
    core.must_reject("TraceLifecycle", [bad])
    for j in core.validate(stats, "TraceLifecycle", traces):
        s = byid[j.sc]
        stats.violations.append(("%s after %s" % (j.note, s["hist"]), s,
                                 {"event": j.event, "line": j.line, "kind": s["kind"], "par": s["par"], "acts": s["acts"]}))
