"""Recorded runs of random models, as ledger traces."""
import json

import core
import gen
import ledger


def scenario(r, sid, case, totals=False, changes=False):
    """A run with a snapshot at each step boundary and, with changing land covers, another one after the actions."""
    ops = case.ops()
    after = []
    if changes:
        ops[len(case.s.ops):len(case.s.ops)] = [["RecordFractions", True]]
        days = max(1, round(case.n * case.per / 86400))
        items = gen.cover_changes(r, case.s, case.b, case.start, days, n=r.choice([1, 2, 3]))
        after = gen.actions(r, case, p=.2, covers=False) or [["ActLandCover", items]]
        after.append(["ProbeDates", "a", "snap", [repr(case.start + (case.sec + k * case.per + .1) / 86400) for k in range(1, case.n + 1)]])
    ops += [["settings"], ["Snap", True], ["ProbeStep", "s", "snap"]] + after + [["Run"], ["Sink"]]
    if totals:
        ops.append(["Totals"])
    return {"id": sid, "ops": ops, "kind": case.s.kind}


def failed(evs):
    """The event that shows that the scenario did not run to its end."""
    for e in evs:
        if e["op"] == "Crash" or (e["op"] in ("Init", "InitBasin", "Run", "Attach", "TS", "TSD") and
                                  ("exc" in e or e.get("ret") is False)):
            return e
    return None


def corrupted(tr, mode):
    """A copy of a recorded trace with one wrong number, which the specification must reject."""
    tr = json.loads(json.dumps(tr))
    ev = [e for e in tr if e["e"] == "step"][-1]
    begin = tr[0]["stores"]
    i = max(k for k, s in enumerate(begin) if not s["inf"] and not s["neg"] and ev["f"][k] != "0")
    ev["c"][i] = repr(-1.0 if mode == "bounds" else float(ev["c"][i]) + 0.01)
    return tr


def check_runs(stats, sc, mode):
    core.model_check(stats, "MC_Ledger", "MC_Ledger_deep" if stats.tier == "thorough" else "MC_Ledger")
    out = core.run_harness(sc)
    byid = {s["id"]: s for s in sc}
    traces = []
    kinds = {}
    for sid, evs in out.items():
        f = failed(evs)
        if f:
            stats.violations.append(("run failed: " + str(f.get("msg", f.get("exc", f["op"]))), byid[sid], f))
            continue
        tr = ledger.trace(byid[sid]["ops"], evs, mode)
        kinds[byid[sid]["kind"]] = kinds.get(byid[sid]["kind"], 0) + 1
        traces.append((sid, tr))
    stats.scenarios += len(sc)
    stats.extra["structures"] = kinds
    if traces:
        t = traces[0][1]
        stats.sample({"begin": dict(stores=len(t[0]["stores"]), flows=t[0]["flows"][:3]), "step": {k: v for k, v in t[2].items() if k in ("c", "o", "outlet")}})
    core.must_reject("TraceLedger", [corrupted(traces[0][1], mode)])
    for j in core.validate(stats, "TraceLedger", traces):
        ev = {k: v for k, v in j.event.items() if k in ("e", "q", "et", "dw", "ds", "dg", "outlet")}
        stats.violations.append(("%s step %d" % (j.note, j.line), byid[j.sc], dict(ev, kind=byid[j.sc]["kind"])))
