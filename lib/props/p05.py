"""The spin-up replaces the initial state, and nothing else."""
import copy
import json

import core
import gen
import ledger
from props import _life, _runs

MEMORY = ("routing:gr4j", "routing:gr6j", "routing:hbv", "melt:cemaneige", "transport:snow_redistribution_frey_dynamic",
          "transport:snow_redistribution_frey")


def memoryless(s):
    return not any(x in MEMORY for o in s.ops for x in o if isinstance(x, str))


def variant(case, n=None, spin=0):
    """The same case over n steps with a spin-up of so many days (the forcing covers the longest period)."""
    c = copy.copy(case)
    c.n = n or case.n
    c.spinup = spin
    c.timer = timer(case, c.n)
    return c


def timer(case, n):
    start, unit, step = case.timer[1], case.timer[4], case.timer[3]
    per = {"day": 86400, "hour": 3600, "minute": 60}[unit] * step * (n - 1)
    e = gen.iso(case.start + per // 86400, per % 86400) if unit != "day" else gen.iso(case.start + (n - 1) * step)
    return ["Timer", start, e, step, unit]


def check(stats, tier):
    core.model_check(stats, "MC_Lifecycle", "MC_Lifecycle_deep" if tier == "thorough" else "MC_Lifecycle")
    core.must_violate("MC_Lifecycle", "MC_Lifecycle_reach")
    core.must_violate("MC_Lifecycle", "MC_Lifecycle_reach2")
    r = core.rng("P05", tier)
    todo = []
    for i in range(300 if tier == "thorough" else 60):
        s = gen.any_structure(r)
        step, unit = (1, "day") if s.kind.startswith("gr") else r.choice([(1, "day")] * 3 + [(6, "hour"), (2, "day")])
        c = gen.Case(r, s, nsteps=r.choice([5, 9, 14]), step=step, unit=unit)
        spd = {(1, "day"): 1, (6, "hour"): 4, (2, "day"): .5}[step, unit]     # steps per day
        days = [d for d in range(1, 20) if d * spd == int(d * spd) and 1 <= d * spd < c.n]
        k_days = r.choice(days or [1])
        todo.append(dict(c=c, days=k_days, k=int(k_days * spd), spd=spd, acts=gen.actions(r, c)))
    # first pass: the state after k steps
    first = [{"id": "a%d" % i, "ops": variant(t["c"], t["k"]).ops() + [["Run"], ["Snap"]]} for i, t in enumerate(todo)]
    out = core.run_harness(first)
    sc = []
    for i, t in enumerate(todo):
        c, k, days = t["c"], t["k"], t["days"]
        evs = out["a%d" % i]
        f = _runs.failed(evs)
        if f:
            stats.violations.append(("run failed: " + str(f.get("msg", f.get("exc", f["op"]))), first[i], f))
            continue
        end = [e for e in evs if e["op"] == "Snap"][0]["s"]
        over = int(c.n / t["spd"]) + r.choice([0, 1, 5])        # whole period, or longer
        while over * t["spd"] < c.n:
            over += 1
        ops, marks, m = [], [], 0
        par, sel = _life.change(r, c.s)

        def model(hist, n=None, spin=0, acts=(), state=None, name="s0", probe=False):
            nonlocal ops, marks, m
            v = variant(c, n, spin)
            o = [["Ctx", m]] + _life.model_ops(v, "init", acts)
            if state is not None:
                o[-2:-2] = state
            if probe:
                o = o + [["settings"], ["ProbeStep", "s", "snap"]]
            ops += o + _life.history(hist, par)
            marks += [("model", dict(n=v.n, spin=int(spin * t["spd"]), acts=bool(acts), s=name))] + [(x, None) for x in hist]
            m += 1

        model(["Run"], n=k)
        model(["Run"], spin=days, probe=True)
        ops += [["Sink"]]
        model(["Run", "Reset", "Run"], spin=days, n=max(k, c.n - r.choice([1, 2])))
        if "routing:hbv" not in str(c.s.ops) and c.s.kind not in ("gr4js", "gr6js"):
            # (in these the routing anticipates its inflow with the fluxes of the previous step, which are not part of a saved state)
            model(["Run", "Save", "Reset", "Run"])
        model(["Run", "Reset", "p1", "Run", "Reset", "p0", "Run"], spin=over)
        if t["acts"]:
            model(["Run", "Reset", "Run"], spin=days, acts=t["acts"])
        if memoryless(c.s):
            st = []
            for u in end["units"] + [{"id": "sub", "b": end["sub"]}]:
                for b in u["b"]:
                    for key, kind in (("w", "water"), ("s", "snow"), ("i", "ice")):
                        if b[key] not in ("0", "Infinity"):
                            st += [[o, str(u["id"]), b["n"], kind, b[key]] for o in ("Set", "SetInit")]
                        elif any(x[1:4] == [str(u["id"]), b["n"], kind] for x in c.st):
                            st += [[o, str(u["id"]), b["n"], kind, b[key]] for o in ("Set", "SetInit")]
            name = "K(s0,p0,%d)" % k
            model(["Run"], state=st, name=name)
            if t["acts"]:
                model(["Run"], state=st, name=name, acts=t["acts"])
        sc.append({"id": "n%d" % i, "ops": ops, "kind": c.s.kind, "exchange": c.s.exchange, "marks": marks, "end": end, "n": c.n,
                   "k": k, "acts": t["acts"], "laterals": [o for o in c.b.ops if o[0] == "Lateral"]})
    out = core.run_harness(sc)
    byid = {s["id"]: s for s in sc}
    traces, books = [], []
    kinds = {}
    for s in sc:
        evs = out[s["id"]]
        f = _runs.failed(evs)
        if f:
            stats.violations.append(("run failed: " + str(f.get("msg", f.get("exc", f["op"]))), s, f))
            continue
        traces.append((s["id"], _life.events(s["marks"], evs)))
        kinds[s["kind"]] = kinds.get(s["kind"], 0) + 1
        # the recorded steps continue the books from the state after the spin-up
        fl = ledger.Flat([e for e in evs if e["op"] == "settings"][0]["structures"], s["end"], ledger.laterals(s["laterals"]))
        sink = [e for e in evs if e["op"] == "Sink"][0]["sink"]
        tot = [e for e in evs if e["op"] == "Totals" and e["c"] == 1][0]
        if len(sink) != s["n"]:
            stats.violations.append(("actions called %d times in %d steps" % (len(sink), s["n"]), s, {}))
        if s["exchange"]:
            continue
        tr = [fl.begin(mode="store"), fl.event(s["end"], "init")] + [fl.event(x["s"]) for x in sink]
        books.append((s["id"], tr))
        tr = [fl.begin(mode="basin"), fl.event(s["end"], "init")] + [fl.event(x["s"]) for x in sink]
        books.append((s["id"] + "b", tr + [dict(e="totals", q=tot["q"], et=tot["et"], dw=tot["dw"], ds=tot["ds"], dg=tot["dg"])]))
        byid[s["id"] + "b"] = s
    stats.scenarios += len(sc)
    stats.extra["structures"] = kinds
    stats.sample({"models": traces[0][1][:2]})
    bad = json.loads(json.dumps(traces[0][1]))
    [e for e in bad if e["e"] == "Run"][2]["d"]["rows"][0] = "x"
    core.must_reject("TraceLifecycle", [bad])
    for j in core.validate(stats, "TraceLifecycle", traces) + core.validate(stats, "TraceLedger", books):
        s = byid[j.sc]
        ev = {k: v for k, v in j.event.items() if k not in ("c", "f", "o", "cap", "d")}
        stats.violations.append(("%s line %d" % (j.note, j.line), s,
                                 {"event": ev, "kind": s["kind"], "k": s["k"], "acts": s["acts"]}))
