"""Glaciers that evolve along lookup tables, on standing models and during runs."""
import json

import core
import gen

ICE = 900.0


def tables(r, b, cover, kind):
    """(ids, A, volumes of ice): rows equidistant in the lost volume, areas that shrink to zero."""
    ids = [u for u in b.units if cover in b.fr[u]]
    r.shuffle(ids)
    rows = r.choice([2, 3, 4, 6, 11, 26, 50, 50, 99, 101])
    a0, v0 = [], []
    for u in ids:
        a = b.areas[u] * b.fr[u][cover]
        if b.fr[u][cover] == 0 and r.random() < .6:
            # the model leaves the initial extent to the table
            room = b.fr[u][b.generic] if b.generic else 0
            a = b.areas[u] * r.choice([0, room / 2, room])
        a0.append(a)
        v0.append(a * r.choice([r.uniform(.05, 2), r.uniform(1, 200)]))
    A, V = [], []
    w = [r.uniform(.2, 3) for _ in ids]         # units lose their ice at different paces
    gone = [r.choice([1.0, 1.0, r.uniform(.4, 1)]) for _ in ids] if kind == "delta" else [1.0] * len(ids)
    if kind == "delta" and gone:
        # the biggest glacier is the last one
        gone[v0.index(max(v0))] = 1.0
    tot0 = sum(v0)
    for k in range(rows):
        x = 1 - k / (rows - 1)
        if kind == "delta":
            sh = [max(0.0, 1 - (k / (rows - 1)) / g) ** p for g, p in zip(gone, w)]
            vol = [v * q for v, q in zip(v0, sh)]
            t = sum(vol)
            vol = [v * (tot0 * x / t) if t > 0 else 0.0 for v in vol] if r.random() < .5 and k < rows - 1 else vol
            ar = [a * q ** .7 for a, q in zip(a0, sh)]
        else:
            vol = [v * x for v in v0]
            ar = [a * x ** (1 / 1.36) for a in a0]
        if k == rows - 1:
            vol, ar = [0.0] * len(ids), [0.0] * len(ids)
        A.append([(round(a, 4) if a > 1e-6 * b.areas[u] + 1e-4 else 0.0) if k else a for a, u in zip(ar, ids)])
        V.append(vol)
    if kind == "delta":
        for row, vol in zip(A[:-1], V[:-1]):
            for i in range(len(ids)):
                if row[i] == 0:
                    vol[i] = 0.0
    return ids, A, V


def model(r, nsteps, table_kind):
    while True:
        k = r.random()
        s = gen.covered(r) if k < .4 else gen.socont(r, glaciers=r.choice([1, 2])) if k < .7 else gen.cascade(r, snow=True, glaciers=1)
        gl = [c for c, t in s.covers if t == "glacier"]
        if gl and not s.infinite_ice:
            break
    start = gen.mjd(r.choice([2019, 2020, 2021]), r.randint(1, 12), r.randint(2, 28))
    c = gen.Case(r, s, nsteps=nsteps, start=start, state=r.random() < .7)
    names = [n for n, _ in s.covers]
    c.b.generic = next((a for a in ("open", "ground", "generic", "generic_land_cover") if a in names), None)
    c.cover = r.choice(gl)
    return s, c


def scenario(r, i):
    kind = r.choice(["delta", "scaling"])
    n = r.choice([1, 20, 45, 70])
    s, c = model(r, n, kind)
    b = c.b
    ids, A, V = tables(r, b, c.cover, kind)
    if not ids:
        return None
    month = r.randint(1, 12)
    # a month that comes during the run
    import datetime
    d = datetime.date.fromordinal(gen.MJD0.toordinal() + c.start + r.randint(0, n))
    if r.random() < .8:
        month = d.month % 12 + 1 if d.day > 1 else d.month
    if r.random() < .08:
        A[0] = [a * 1.01 for a in A[0]]          # not the extent of the model
    nums = lambda m: [[gen.num(x) for x in row] for row in m]
    ops = list(s.ops) + [c.timer]
    if r.random() < .25 and n > 1:
        ops.append(["Spinup", r.choice([1, n, 3])])
    ops += b.ops + [["Init"]] + c.f.ops + [["Snap"], ["ProbeStep", "b", "snap"],
            ["ActDeltaH" if kind == "delta" else "ActAreaScaling", month, c.cover, ids, nums(A), nums(V)], ["ProbeStep", "a", "snap"], ["Snap"]]
    plan = ["init"]
    sa = [o for o in c.st if o[2] != c.cover or o[3] != "ice"]
    ops += sa
    depth = [V[0][j] * ICE / A[0][j] if A[0][j] > 0 else 0.0 for j in range(len(ids))]

    def standing():
        for _ in range(r.choice([1, 2, 4])):
            m = r.choice(["share", "share", "each", "each", "none", "tiny", "more"])
            q = r.random()
            for j, u in enumerate(ids):
                if m == "each" and r.random() < .3:
                    continue
                x = {"share": q, "each": r.choice([0, r.random(), r.random() * 1.3]), "none": 0.0, "tiny": 1e-4 * r.random(),
                     "more": 1 + r.random() / 2}[m]
                ops.append(["Set", str(u), c.cover, "ice", gen.num(depth[j] * x)])
            ops.extend([["Snap"], ["ActApply", 1, gen.num(c.start)], ["Snap"]])
            plan.append("apply")

    def run():
        ops.extend([["Run"], ["Sink"]])
        plan.append("run")

    for _ in range(r.choice([1, 2, 3])):
        k = r.random()
        if k < .5:
            standing()
        else:
            run()
        if r.random() < .3:
            ops.append(["SaveP"])
        if r.random() < .7 or plan[-1] == "run":
            ops.append(["ResetP"])
    if plan[-1] != "run" and r.random() < .4:
        run()
    # what is saved, and what a reset restores, is looked at
    full = []
    for o in ops:
        full.extend({"SaveP": [["Save"], ["Snap"]], "ResetP": [["Reset"], ["Snap"]]}.get(o[0], [o]))
    ops = full
    return dict(sc={"id": "gl%d" % i, "ops": ops}, kind=kind, month=month, ids=ids, A=A, W=[[v * ICE for v in row] for row in V],
                c=c, plan=plan)


def view(d, snap):
    by = {u["id"]: {x["n"]: x for x in u["b"]} for u in snap["units"]}
    return [by[u][d["c"].cover]["f"] for u in d["ids"]], [by[u][d["c"].cover]["i"] for u in d["ids"]]


def trace(d, evs):
    num = gen.num
    b = d["c"].b
    tr = [dict(e="begin", kind=d["kind"], A=[[num(x) for x in row] for row in d["A"]], W=[[num(x) for x in row] for row in d["W"]],
               ua=[num(b.areas[u]) for u in d["ids"]])]
    snaps, started, ok = [], False, True
    before = None
    saved = mark = None
    for e in evs:
        if e["op"] == "Snap":
            snaps.append(e["s"])
            if mark == "Save":
                saved = view(d, e["s"])
            elif mark == "Reset":
                f, i = saved
                f2, i2 = view(d, e["s"])
                tr.append(dict(e="reset", ok=True, fr=f, d=i, fr2=f2, d2=i2, day=0))
            mark = None
        elif e["op"] in ("Save", "Reset"):
            mark = e["op"]
        elif e["op"] in ("ActDeltaH", "ActAreaScaling"):
            ok = "exc" not in e and bool(e.get("ret"))
            started = True
        elif e["op"] == "ActApply":
            before = len(snaps) - 1
            okap = "exc" not in e and e.get("ret", True) is not False
        elif e["op"] == "Sink":
            prev = None
            for x in e["sink"]:
                if x["tag"] == "b":
                    prev = x["s"]
                    continue
                f, i = view(d, prev)
                f2, i2 = view(d, x["s"])
                day = int(float(x["s"]["date"]))
                due = gen.civil(day)[1:] == (d["month"], 1)
                tr.append(dict(e="apply" if due else "still", ok=True, fr=f, d=i, fr2=f2, d2=i2, day=day))
        if started and e["op"] == "Snap" and len(snaps) == 2 and len(tr) == 1:
            f, i = view(d, snaps[0])
            f2, i2 = view(d, snaps[1])
            by = {u["id"]: {x["n"]: x for x in u["b"]} for u in snaps[0]["units"]}
            free = [num(float(by[u][d["c"].cover]["f"]) + (float(by[u][b.generic]["f"]) if b.generic else 0)) for u in d["ids"]]
            tr.append(dict(e="init", ok=ok, fr=f, d=i, fr2=f2, d2=i2, free=free))
            saved = (f2, i2)
            if not ok:
                break
        elif before is not None and e["op"] == "Snap" and len(snaps) == before + 2:
            f, i = view(d, snaps[before])
            f2, i2 = view(d, snaps[-1])
            tr.append(dict(e="apply", ok=okap, fr=f, d=i, fr2=f2, d2=i2, day=0))
            before = None
    return tr


def check(stats, tier):
    big = tier == "thorough"
    for m in ("MC_Glacier", "MC_Glacier_each"):
        core.model_check(stats, "MC_Glacier", m)
    for m in ("_remember", "_reach"):
        core.must_violate("MC_Glacier", "MC_Glacier" + m)
    r = core.rng("P12", tier)
    ds = [x for x in (scenario(r, i) for i in range(2500 if big else 260)) if x]
    by = {d["sc"]["id"]: d for d in ds}
    out = core.run_harness([d["sc"] for d in ds])
    traces = []
    for sid, evs in out.items():
        d = by[sid]
        bad = next((e for e in evs if e["op"] == "Crash" or (e["op"] in ("Init", "Run", "Attach") and ("exc" in e or e.get("ret") is False))), None)
        tr = trace(d, evs) if evs and evs[-1]["op"] != "Crash" else []
        if bad and not (len(tr) > 1 and not tr[1]["ok"]):
            stats.violations.append(("run failed: " + str(bad.get("msg", bad.get("exc", bad["op"]))), d["sc"], bad))
            continue
        traces.append((sid, tr))
    stats.scenarios += len(ds)
    ap = [e for _, t in traces for e in t if e["e"] == "apply"]
    stats.extra["applications"] = len(ap)
    tests = []
    shown = lambda e: [k for k, x in enumerate(e.get("d2", [])) if e["e"] == "apply" and float(x) > 1 and float(e["fr2"][k]) > 0]
    for kind in ("delta", "scaling"):
        t = next(t for _, t in traces if t[0]["kind"] == kind and any(shown(e) for e in t))
        t = json.loads(json.dumps(t))
        e = next(e for e in t if shown(e))
        k = shown(e)[0]
        e["d2"][k] = gen.num(float(e["d2"][k]) * 1.001)
        tests.append(t)
    core.must_reject("TraceGlacier", tests)
    for j in core.validate(stats, "TraceGlacier", traces):
        stats.violations.append((by[j.sc]["kind"] + ": " + j.note, by[j.sc]["sc"], j.event))
