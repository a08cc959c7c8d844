"""The same basin written down in other ways."""
import json

import core
import gen
from props import _runs


def blocks(c):
    """Declarations of each unit; lateral connections."""
    res, lat = {}, []
    for o in c.b.ops:
        if o[0] == "Unit":
            cur = res[o[1]] = []
        if o[0] == "Lateral":
            lat.append(o)
        else:
            cur.append(o)
    return res, lat


def rewritten(r, c, acts, split):
    """Another description: (units written, basin, forcing, state, actions)."""
    bl, lat = blocks(c)
    parts = []
    for u in c.b.units:
        k = r.choice([1, 1, 2, 3]) if split else 1
        shares = {1: [1.0], 2: r.choice([[.5, .5], [.25, .75]]), 3: [.5, .25, .25]}[k]
        parts += [(u, x) for x in shares]
    if r.random() < .85:
        r.shuffle(parts)
    ids = list(c.b.units) if not split and r.random() < .3 else r.sample(range(1, 9000), len(parts))
    if not split and ids == list(c.b.units):
        ids = [u for u, _ in parts]
    units, basin = [], []
    parts = [(u, x, i) for (u, x), i in zip(parts, ids)]
    of = {u: [p for p in parts if p[0] == u] for u in c.b.units}
    for u, x, i in parts:
        own = bl[u]
        a = float(own[0][2]) * x
        units.append({"of": u, "id": i, "area": repr(a)})
        rest = [o for o in own[1:]]
        r.shuffle(rest)
        basin += [["Unit", i, gen.num(a), own[0][3]]] + rest
    r.shuffle(lat)
    basin += [["Lateral", of[o[1]][0][2], of[o[2]][0][2]] + o[3:] for o in lat]
    ts, rest = [], []
    for o in c.f.ops:
        if o[0] == "TSD":
            j = [(of_u[2], v) for u, v in zip(o[6], o[7]) for of_u in of[u]]
            r.shuffle(j)
            ts.append(o[:6] + [[x for x, _ in j], [v for _, v in j]])
        elif o[0] == "TS":
            ts.append(o)
        else:
            rest.append(o)
    r.shuffle(ts)
    st = [["Set", str(p[2])] + o[2:] for o in c.st if o[1] != "sub" for p in of[int(o[1])]] + [o for o in c.st if o[1] == "sub"]
    r.shuffle(st)
    new = []
    for o in acts:
        if o[0] == "ActLandCover":
            new.append([o[0], [[d, p[2], n, gen.num(float(a) * p[1])] for d, u, n, a in o[1] for p in of[int(u)]]])
        else:
            new.append(o)
    return units, basin, ts + rest, st, new


def model(c, basin, forcing, state, acts, other=False):
    ops = list(c.s.ops) + [["RecordFractions", True], c.timer]
    if c.spinup:
        ops.append(["Spinup", c.spinup])
    return ops + basin + [["settings"], ["InitBasin"]] + forcing + state + acts + [["Run"], ["Record"], ["Totals"]]


def results(evs):
    """By unit, of the basin."""
    rec = next(e for e in evs if e["op"] == "Record")
    tot = next(e for e in evs if e["op"] == "Totals")
    vals = []
    for k in range(len(rec["ids"])):
        q = [row[k] for lab in rec["huval"] for row in lab] + [row[k] for lab in rec["frval"] for row in lab]
        vals.append(q)
    return rec["ids"], vals, [x for s in rec["subval"] for x in s] + [tot[x] for x in ("q", "et", "dw", "ds", "dg")]


def build(r, i):
    while True:
        s = gen.changing(r) if i % 4 == 0 else gen.variants(r) if i % 4 == 1 else gen.any_structure(r)
        sub = {o[1] for o in s.ops if o[0] == "SubBrick"}
        # the infiltration into a store of the basin sees what the units before have given
        if not any(o[0] == "Process" and o[2].startswith("infiltration") and o[3] in sub for o in s.ops):
            break
    c = gen.Case(r, s, nsteps=r.choice([4, 8]), nunits=r.choice([1, 2, 3, 4]), spinup=r.choice([0, 0, 0, 2]), **gen.step_choice(r, s))
    return s, c, gen.actions(r, c, p=.7)


def check(stats, tier):
    big = tier == "thorough"
    core.model_check(stats, "MC_Layout", "MC_Layout_deep" if big else "MC_Layout")
    for w in ("position", "count", "reach"):
        core.must_violate("MC_Layout", "MC_Layout_" + w)
    r = core.rng("P26", tier)
    sc, cases = [], {}
    for i in range(2200 if big else 150):
        s, c, acts = build(r, i)
        k = "w%d" % i
        sized = any(o[0] == "Process" and o[2] == "runoff:socont" for o in s.ops) or s.lateral
        own = [{"of": u, "id": u, "area": repr(float(c.b.areas[u]))} for u in c.b.units]
        sc.append({"id": k, "kind": s.kind, "ops": model(c, c.b.ops, c.f.ops, c.st, acts)})
        cases[k] = []
        for j in range(2):
            units, basin, f, st, a = rewritten(r, c, acts, not sized and (j == 1 or len(own) == 1))
            cases[k].append((units, "%s.%d" % (k, j)))
            sc.append({"id": "%s.%d" % (k, j), "kind": s.kind, "ops": model(c, basin, f, st, a)})
        cases[k].insert(0, (own, k))
    out = core.run_harness(sc)
    byid = {x["id"]: x for x in sc}
    stats.scenarios += len(sc)
    traces = []
    for k, ds in cases.items():
        bad = [(sid, _runs.failed(out[sid])) for _, sid in ds if _runs.failed(out[sid])]
        if bad:
            if len(bad) == len(ds) and all(b[1]["op"] != "Crash" for b in bad):
                continue
            stats.violations.append(("run failed", byid[bad[0][0]], bad[0][1]))
            continue
        tr = []
        for units, sid in ds:
            ids, vals, basin = results(out[sid])
            at = {i: v for i, v in zip(ids, vals)}
            if sid == k:
                tr.append(dict(e="begin", units=units, values=[at[u["id"]] for u in units], basin=basin))
            else:
                tr.append(dict(e="other", units=units))
                tr += [dict(e="unit", k=n + 1, v=at[u["id"]]) for n, u in enumerate(units)]
                tr.append(dict(e="basin", v=basin))
        traces.append((k, tr))
    stats.extra["descriptions"] = dict(models=len(traces), parts=sum(len(e["units"]) for _, t in traces for e in t if e["e"] == "other"))
    stats.sample({"trace": [e for e in traces[0][1] if e["e"] == "other"]})
    wrong = []
    for n, (_, t) in enumerate(traces[:9]):
        t = json.loads(json.dumps(t))
        e = next(e for e in reversed(t) if e["e"] == ("unit", "basin", "other")[n % 3])
        if e["e"] == "other":
            e["units"][0]["area"] = repr(float(e["units"][0]["area"]) * 1.001)
            if len(e["units"]) == 1 or len({u["of"] for u in e["units"]}) == 1:
                continue
        else:
            j = next(j for j, x in enumerate(e["v"]) if x not in ("NaN", "Infinity"))
            e["v"][j] = repr(float(e["v"][j]) * 1.00001 + 1e-6)
        wrong.append(t)
    core.must_reject("TraceLayout", wrong)
    for j in core.validate(stats, "TraceLayout", traces):
        stats.violations.append(("%s: %s" % (j.event["e"], j.note), byid[j.sc], {a: b for a, b in j.event.items() if a != "v"}))
