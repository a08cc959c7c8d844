"""The variant of the structure each unit is built from."""
import json

import core
import gen
from props import _life, _runs
from props.p10 import part_of

def changes(r, s):
    """Changed parameters: (brick, name, value), present in one variant or several."""
    ps = {}
    for v in s.parts:
        own = {}
        for p in _life.params(v):
            own.setdefault(p[:2], []).append(p)
        for k, q in own.items():
            ps.setdefault(k, []).append(q)
    # stores with the same processes in all the variants that have them
    held = {k: sum(any(o[0] in gen.CONTEXT and o[1] == k[0] for o in v.ops) for v in s.parts) for k in ps}
    pick = [k for k in sorted(ps) if len(ps[k]) == held[k] and all(len(q) == 1 for q in ps[k]) and r.random() < .4]
    return [k + (gen.num(round(ps[k][0][0][2] * _life.SCALABLE[k[1]], 4)),) for k in pick]


def sets(part, par):
    own = {p[:2] for p in _life.params(part)}
    return [["SetParam", b, n, v] for b, n, v in par if (b, n) in own]


def model(s_ops, c, basin, units, par, acts):
    """The operations of a model of some of the units."""
    ops = list(s_ops) + [["RecordFractions", True], c.timer]
    if c.spinup:
        ops.append(["Spinup", c.spinup])
    ops += basin + [["settings"], ["InitBasin"]] + c.f.ops + [o for o in c.st if o[0] != "Set" or o[1] in {str(u) for u in units}]
    a = [["ActLandCover", [i for i in o[1] if i[1] in units]] if o[0] == "ActLandCover" else o for o in acts]
    return ops + [["Snap"], ["ProbeStep", "s", "snap"]] + [o for o in a if o[0] != "ActLandCover" or o[1]]


def basin_of(b, units, part):
    """The declarations of the basin, where the other units have one cover of the variant."""
    res, keep = [], False
    for o in b.ops:
        if o[0] == "Unit":
            keep = o[1] in units
            res.append(o)
            if not keep:
                res += [["Cover"] + list(x) + ["0.0" if i else "1.0"] for i, x in enumerate(part.covers)]
        elif o[0] != "Lateral" and (keep or o[0] != "Cover"):
            res.append(o)
    return res


def flat(u):
    """Everything a unit holds and moves."""
    q = []
    for b in sorted(u["b"], key=lambda b: b["n"]):
        q += [b["n"], b["w"], b["s"], b["i"], b["f"]]
        for p in b["p"]:
            q += [p["n"]] + p["o"]
    for s in u["sp"]:
        q += [s["n"]] + s["o"]
    return q


def build(r, i):
    s = gen.variants(r)
    if i % 6 == 5 and len(s.parts) > 1:
        # no variant with all the covers
        s.parts.remove(max(s.parts, key=lambda p: len(p.covers)))
        s.ops = []
        for j, v in enumerate(s.parts):
            s.ops += ([["Structure"]] if j else []) + v.ops
    c = gen.Case(r, s, nsteps=r.choice([3, 6]), nunits=r.choice([2, 3, 4, 6]), spinup=r.choice([0, 0, 0, 2]), **gen.step_choice(r, s))
    par = changes(r, s) if r.random() < .6 else []
    acts = gen.actions(r, c, p=.4)
    return s, c, par, acts


def check(stats, tier):
    big = tier == "thorough"
    core.model_check(stats, "MC_Structures", "MC_Structures_deep" if big else "MC_Structures")
    core.must_violate("MC_Structures", "MC_Structures_first")
    core.must_violate("MC_Structures", "MC_Structures_reach")
    r = core.rng("P17", tier)
    cases, sc, own = {}, [], {}
    for i in range(2500 if big else 160):
        k = "v%d" % i
        s, c, par, acts = build(r, i)
        cases[k] = (s, c)
        again = [["SetParam"] + list(p) for p in par] + [["UpdateParams"], ["Reset"], ["Run"], ["Sink"]] if par else []
        sc.append({"id": k, "kind": s.kind, "ops": model(s.ops, c, c.b.ops, c.b.units, par, acts) + [["Run"], ["Sink"]] +
                   ([["Dump", "out"]] if i % 3 == 0 else []) + again})
        fit = {u: gen.fitting(s, c.b.fr[u]) for u in c.b.units}
        # the infiltration into a store of the basin depends on all the units
        sub = {o[1] for o in s.ops if o[0] == "SubBrick"}
        if any(o[0] == "Process" and o[2].startswith("infiltration") and o[3] in sub for o in s.ops):
            continue
        if s.lateral or any(not {n for n, x in c.b.fr[u].items() if x} <= {n for n, _ in fit[u].covers} for u in c.b.units):
            continue
        for j, part in enumerate(s.parts):
            us = [u for u in c.b.units if fit[u] is part]
            if us:
                own["%s.%d" % (k, j)] = us
                one = [["SetParam"] + p[1:] for p in sets(part, par)] + [["UpdateParams"], ["Reset"], ["Run"], ["Sink"]] if par else []
                sc.append({"id": "%s.%d" % (k, j), "kind": s.kind,
                           "ops": model(part.ops, c, basin_of(c.b, us, part), us, par, acts) + [["Run"], ["Sink"]] + one})
    out = core.run_harness(sc)
    byid = {x["id"]: x for x in sc}
    traces, alone = [], {}
    for sid in [x for x in out if "." in x]:
        f = _runs.failed(out[sid])
        if f:
            stats.violations.append(("run failed: " + str(f.get("msg", f.get("exc", f["op"]))), byid[sid], f))
            continue
        k = sid.split(".")[0]
        for n, e in enumerate(x for x in out[sid] if x["op"] == "Sink"):
            for t, y in enumerate(x for x in e["sink"] if x["tag"] == "s"):
                for u in y["s"]["units"]:
                    if u["id"] in own[sid]:
                        alone[k, n, t, u["id"]] = flat(u)
    kinds = dict(units=0, refused=0, steps=0, variants=0)
    for k, (s, c) in cases.items():
        evs = out[k]
        ini = next((e for e in evs if e["op"] == "InitBasin"), None)
        crash = next((e for e in evs if e["op"] == "Crash"), None)
        if crash or ini is None:
            stats.violations.append(("crash", byid[k], crash or evs[-1]))
            continue
        decl = next(e for e in evs if e["op"] == "settings")["structures"]
        vs = [dict(covers=[n for n, _ in v.covers], bricks=[x["n"] for x in d["hu"]], splitters=[x["n"] for x in d["spl"]])
              for v, d in zip(s.parts, decl)]
        begin = {"e": "begin", "variants": vs, "units": [[n for n, x in c.b.fr[u].items() if x] for u in c.b.units],
                 "fr": [{n: repr(float(x)) for n, x in c.b.fr[u].items()} or {"none": "0"} for u in c.b.units]}
        ok = ini.get("ret") is not False and "exc" not in ini
        tr = [begin, {"e": "built", "ok": ok}]
        if ok:
            f = _runs.failed(evs)
            if f:
                stats.violations.append(("run failed: " + str(f.get("msg", f.get("exc", f["op"]))), byid[k], f))
                continue
            snap = next(e for e in evs if e["op"] == "Snap")["s"]
            for n, u in enumerate(snap["units"]):
                cov = {x for x, _ in s.covers}
                tr.append({"e": "unit", "k": n + 1, "sid": u["sid"], "bricks": [b["n"] for b in u["b"]],
                           "splitters": [x["n"] for x in u["sp"]], "fr": {b["n"]: b["f"] for b in u["b"] if b["n"] in cov}})
                kinds["units"] += 1
            kinds["variants"] += len({u["sid"] for u in snap["units"]})
            for e in evs:
                if e["op"] == "Dump":
                    tr.append({"e": "file", "sid": [int(float(x)) for x in e["vars"]["hydro_units_structure_ids"]["v"]]})
            for n, e in enumerate(x for x in evs if x["op"] == "Sink"):
                for t, y in enumerate(x for x in e["sink"] if x["tag"] == "s"):
                    for u in y["s"]["units"]:
                        w = alone.get((k, n, t, u["id"]))
                        if w is not None:
                            tr.append({"e": "step", "u": u["id"], "v": flat(u), "w": w})
                            kinds["steps"] += 1
        else:
            kinds["refused"] += 1
        traces.append((k, tr))
    stats.scenarios += len(sc)
    stats.extra["compared"] = kinds
    good = next(t for _, t in traces if any(e["e"] == "step" for e in t))
    stats.sample({"trace": good[:3]})
    bad = json.loads(json.dumps(good))
    x = [e for e in bad if e["e"] == "step"][-1]
    x["v"][1] = repr(float(x["v"][1]) + 1e-9)
    core.must_reject("TraceStructures", [bad])
    wrong = []
    for _, t in traces[:20]:
        w = json.loads(json.dumps(t))
        if len(w[0]["variants"]) > 1 and len(w) > 2:
            w[2]["sid"] = w[2]["sid"] % len(w[0]["variants"]) + 1
            wrong.append(w)
    core.must_reject("TraceStructures", wrong)
    for j in core.validate(stats, "TraceStructures", traces):
        stats.violations.append(("%s: %s" % (j.event["e"], j.note), byid[j.sc], {a: b for a, b in j.event.items() if a not in ("v", "w")}))
