"""The extents of the land covers stay a partition of each unit; impossible changes are refused and change nothing."""
import json

import core
from props import _covers, _runs


def check(stats, tier):
    sc = _covers.check(stats, tier, "extents", "P06")
    judge(stats, sc, "extents")


def judge(stats, sc, mode):
    out = core.run_harness(sc)
    byid = {s["id"]: s for s in sc}
    traces = []
    for s in sc:
        evs = out[s["id"]]
        f = _runs.failed(evs)
        if f:
            stats.violations.append(("run failed: " + str(f.get("msg", f.get("exc", f["op"]))), s, f))
            continue
        traces.append((s["id"], _covers.traces(s, evs, mode)))
    stats.scenarios = len(sc)
    ev = next((sid, k, e) for sid, t in traces for k, e in enumerate(t) if e["e"] == "change" and e["ret"] and e["before"]["fr"] != e["after"]["fr"])
    stats.sample({"trace": ev[2]})
    bad = json.loads(json.dumps(ev[2]))
    c = next(iter(bad["after"]["fr"]))
    if mode == "extents":
        bad["after"]["fr"][c] = repr(float(bad["after"]["fr"][c]) + .01)
    else:
        bad["after"]["w"][c]["self"] = repr(float(bad["after"]["w"][c]["self"]) + .01)
    core.must_reject("TraceCovers", [[dict(e="begin", mode=mode), bad]])
    for j in core.validate(stats, "TraceCovers", traces):
        stats.violations.append(("%s:%s" % (j.event["e"], j.note), byid[j.sc], j.event))
