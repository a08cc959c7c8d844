"""Unit hydrographs and routing stores."""
import json
import math

import core
import gen
import ledger
from props import _life, _runs

SEQUENTIAL = {"analytic_linear", "implicit_euler", "crank_nicolson", "exponential_euler", "analytic", "euler_implicit", "trapezoidal"}


class Routes(ledger.Flat):
    def __init__(self, structures, snap, ops):
        super().__init__(structures, snap, ledger.laterals(ops))
        solver = [o[1] for o in ops if o[0] == "Solver"][-1]
        st = structures[0]
        types = {b["n"]: b for b in st["hu"] + st["sub"]}
        late = {b["n"] for b in st["hu"] + st["sub"] if not (b["direct"] or b["type"] in ledger.COVERS or b["type"] == "snowpack" or b["parent"])}
        self.routes, self.where = [], []
        for i, (u, n, k) in enumerate(self.sk):
            for pi, p in enumerate(types[n]["p"]):
                if p["type"].startswith("routing:"):
                    # computed after all that flows in
                    fed = [b for b in late if any(x["t"] == n for q in types[b]["p"] for x in q["out"])]
                    exact = n not in late or not fed
                    self.routes.append(dict(src=i + 1, kind=p["type"].split(":")[1], par=p["par"], exact=exact, late=solver in SEQUENTIAL,
                                            flow=self.fk.index(("b", u, n, pi, 0)) + 1))
                    self.where.append((u, n, pi))

    def at(self, snap, kind):
        by, c, f, cap = self.contents(snap)
        ev = dict(e=kind, c=c)
        if kind == "step":
            ev["o"] = self.event(snap)["o"]
            ev["r"] = [{k: v for k, v in by[u, n]["p"][pi].items() if k not in "no"} for u, n, pi in self.where]
        return ev

    def pars(self, structures):
        types = {b["n"]: b for b in structures[0]["hu"] + structures[0]["sub"]}
        return [types[n]["p"][pi]["par"] for u, n, pi in self.where]


def routed(r):
    """Covers and stores that give to routing stores of the units, some computed directly, and of the basin."""
    s = gen.Structure("routed")
    s.covers = gen.pick_covers(r, 0, r.choice([0, 1]))
    s.op("LogAll", True)
    s.op("Solver", r.choice(gen.SOLVERS))
    gen.precip(s, r, False)
    for n, t in s.covers:
        s.op("LandCover", n, t)
    direct, basin, soil = r.random() < .5, r.random() < .5, r.random() < .6
    last = "sub_routing" if basin else "outlet"
    for n, t in s.covers:
        s.op("SelBrick", n)
        s.op("Process", "outflow", "outflow:direct", r.choice(["routing", "soil"]) if soil and not direct else "routing")
    if soil and not direct:
        s.op("HuBrick", "soil", "storage")
        s.op("Process", "outflow", "outflow:linear", "routing")
        s.par(r, "response_factor", .05, .9)
    s.op("HuBrick", "routing", "storage")
    s.op("Process", "routing", "routing:hbv", last)
    s.op("ProcParSet", "maxbas", base(r))
    if direct:
        s.op("Direct")
    if basin:
        s.op("SubBrick", "sub_routing", "storage")
        s.op("Process", "routing", "routing:hbv", "outlet")
        s.op("ProcParSet", "maxbas", base(r))
    s.op("Log", "outlet")
    return s


def base(r):
    return gen.num(r.choice([0.5, 1.0, 2.0, 3.0, 7.0, round(r.uniform(1, 8), 3)]))


def value(ops, brick, par):
    """The last value given to a parameter."""
    at, v = None, None
    for o in ops:
        if o[0] in ("HuBrick", "SubBrick"):
            at = o[1]
        elif o[0] == "ProcParSet" and at == brick and o[1] == par:
            v = o[2]
        elif o[0] == "SetParam" and o[1:3] == [brick, par]:
            v = o[3]
    return float(v)


def near(r, v):
    """Another value, for which as many steps are needed."""
    k = math.ceil(2 * v)
    return gen.num(round(r.uniform(max(.05, k / 2 - .49), k / 2), 3))


def build(r, i):
    kind = ["gr", "routed", "gr", "hbv", "routed"][i % 5]
    s = gen.gr(r, exchange=r.random() < .6) if kind == "gr" else routed(r) if kind == "routed" else gen.hbv(r)
    c = gen.Case(r, s, nsteps=r.choice([6, 15, 30]), nunits=r.choice([1, 2, 3]), **gen.step_choice(r, s))
    ops = c.ops() + [["settings"], ["Snap"], ["ProbeStep", "s", "snap"], ["Run"], ["Sink"]]
    names = [("routing", "maxbas"), ("sub_routing", "maxbas")] if kind != "gr" else [("uh_input", "uh_base_time"), ("uh_input", "routing_capacity")]
    for _ in range(r.choice([0, 1, 2])):
        save = r.random() < .4
        if save:
            ops.append(["Save"])
        if r.random() < .6:
            for b, p in names:
                if any(o[0] in ("HuBrick", "SubBrick") and o[1] == b for o in s.ops):
                    # a longer base where water is in transit
                    now = [o for o in ops if o[0] == "SetParam" and o[1:3] == [b, p]]
                    if not any(o[0] == "Save" for o in ops):
                        v = base(r) if p == "maxbas" else gen.num(round(r.uniform(.3, 6), 3)) if p == "uh_base_time" else gen.num(round(r.uniform(20, 200), 2))
                        if p != "routing_capacity" and r.random() < .5:
                            v = near(r, value(ops, b, p))
                        ops.append(["SetParam", b, p, v])
                    elif p != "routing_capacity" and not now:
                        ops.append(["SetParam", b, p, gen.num(8 + round(r.random(), 2))])
            ops += [["UpdateParams"], ["settings"]]
        ops += [["Reset"], ["Snap"], ["Run"], ["Sink"]]
    return c, ops


def trace(c, ops, evs):
    out, fl = [], None
    st = None
    for e in evs:
        if e["op"] == "settings":
            st = e["structures"]
            if fl is not None:
                out.append(dict(e="params", par=fl.pars(st)))
        elif e["op"] == "Snap":
            if fl is None:
                fl = Routes(st, e["s"], ops)
                out.append(fl.begin(routes=fl.routes, dt=repr(c.per / 86400)))
                out.append(fl.at(e["s"], "init"))
            else:
                out.append(fl.at(e["s"], "reset"))
        elif e["op"] == "Save":
            out.append(dict(e="save"))
        elif e["op"] == "Sink":
            out += [fl.at(x["s"], "step") for x in e["sink"]]
    return out


def wrong(traces):
    """Deliberately wrong traces: a longer base, another capacity, a discharge a little late."""
    n = 0
    for _, tr in traces:
        k = tr[0]["routes"][0]["kind"]
        if not any(float(x["o"][tr[0]["routes"][0]["flow"] - 1]) > 1e-2 for x in tr if x["e"] == "step"):
            continue
        tr = json.loads(json.dumps(tr))
        p = "maxbas" if k == "hbv" else ["routing_capacity", "uh_base_time"][n % 2]
        for x in tr[0]["routes"]:
            x["par"][p] = repr(float(x["par"][p]) * 1.05 + (1 if p == "maxbas" else 0))
        tr = [e for e in tr if e["e"] != "params"]
        n += 1
        yield tr


def check(stats, tier):
    big = tier == "thorough"
    for c in ["MC_Hydrograph_deep", "MC_Hydrograph_latedeep"] if big else ["MC_Hydrograph", "MC_Hydrograph_late", "MC_Hydrograph_change"]:
        core.model_check(stats, "MC_Hydrograph", c)
    core.model_check(stats, "MC_Routing", "MC_Routing_deep" if big else "MC_Routing")
    for m, c in (("MC_Hydrograph", "stranded"), ("MC_Hydrograph", "reach"), ("MC_Routing", "closed"), ("MC_Routing", "reach")):
        core.must_violate(m, m + "_" + c)
    r = core.rng("P14", tier)
    cases = {}
    for i in range(2400 if big else 160):
        cases["r%d" % i] = build(r, i)
    sc = [{"id": k, "quiet": False, "ops": ops} for k, (c, ops) in cases.items()]
    res = core.run_harness(sc)
    stats.scenarios += len(sc)
    byid, traces = {s["id"]: s for s in sc}, []
    for k, (c, ops) in cases.items():
        bad = _runs.failed(res[k])
        if bad:
            stats.violations.append(("run", byid[k], "the run fails: %s" % json.dumps(bad)[:300]))
            continue
        traces.append((k, trace(c, ops, res[k])))
    for j in core.validate(stats, "TraceRouting", traces):
        stats.violations.append((j.note[:40] if isinstance(j.note, str) else "routing", byid[j.sc], "%s: %s" % (j.event.get("e"), j.note)))
    stats.sample({"routes": traces[0][1][0]["routes"][:1]})
    core.must_reject("TraceRouting", list(wrong(traces))[:12], some=True)
