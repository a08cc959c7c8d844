"""What a run records, in memory and in the saved file: the values at the end of every step."""
import json

import core
import gen
from props import _runs

SHORT = {"w": ["water_content", "water"], "s": ["snow_content", "snow"], "i": ["ice_content", "ice"]}



RAIN = ("snow_rain_transition", "rain")


def components(bricks, splitters, types):
    """item -> value of a unit (or of the basin): every component that can be recorded."""
    v = {}
    for b in bricks:
        for c in types.get(b["n"], "w"):
            for n in SHORT[c]:
                # inexhaustible ice is not tracked
                v[b["n"] + ":" + n] = "0" if b[c] == "Infinity" else b[c]
        for p in b["p"]:
            if len(p["o"]) == 1:
                v["%s:%s:output" % (b["n"], p["n"])] = p["o"][0]
            for x in ("internal_storage", "routing_store", "exp_store", "q_routing", "q_exp", "q_direct"):
                if x in p:
                    v["%s:%s:%s" % (b["n"], p["n"], x)] = p[x]
    for s in splitters:
        names = ["rain", "snow"] if s["n"] in RAIN else ["output_%d" % (i + 1) for i in range(5)]
        for n, x in zip(names, s["o"]):
            v[s["n"] + ":" + n] = x
    return v


def values(snap, types, covers):
    """The event of a step."""
    return {"e": "step", "sub": dict(components(snap["sub"], [], types), outlet=snap["outlet"]),
            "hu": {str(u["id"]): components(u["b"], u["sp"], types) for u in snap["units"]},
            "sid": {str(u["id"]): u["sid"] for u in snap["units"]},
            "fr": {str(u["id"]): {b["n"]: b["f"] for b in u["b"] if b["n"] in covers} for u in snap["units"]}}


def types_of(ops, covers):
    t = {}
    for c, k in covers:
        t[c] = "wi" if k == "glacier" else "w"
        t[c + "_snowpack"] = "ws"
    return t


def everything(ops):
    """Is the whole of it recorded?"""
    return any(o[:2] == ["LogAll", True] for o in ops)


def part_of(s, part):
    """A variant as a structure of its own."""
    p = gen.Structure(s.kind)
    p.ops, p.covers, p.vars, p.props = part.ops, part.covers, s.vars, s.props
    return p


def rename(s, names):
    """Other names for the stores."""
    s.ops = [[names.get(x, x) if isinstance(x, str) else x for x in o] for o in s.ops]
    s.water = {(w, names.get(n, n)): c for (w, n), c in s.water.items()}
    for p in s.parts or ():
        rename(p, names)


def default_items(snap, types):
    """The items of a model that records everything."""
    def of(bricks, sub):
        q = []
        for b in bricks:
            q += [b["n"] + ":" + SHORT[c][0] for c in types.get(b["n"], "w")]
            for p in b["p"]:
                if not p.get("transport"):
                    q.append("%s:%s:output" % (b["n"], p["n"]))
                if "internal_storage" in p:
                    q.append("%s:%s:internal_storage" % (b["n"], p["n"]))
        return q
    return of(snap["units"][0]["b"], False), of(snap["sub"], True) + ["outlet"]


def ask(r, s, snap, types, basin=True):
    """Requests for some items, as settings operations, and the items."""
    ops, hu, sub = [], [], ["outlet"]
    u = snap["units"][0]
    every = r.choice([.1, .3, .7])
    for where, bricks, q, sel in (("u", u["b"], hu, "SelBrick"), ("s", snap["sub"], sub, "SelSubBrick")):
        # the stores of the basin are those of the first variant
        for b in bricks if basin or where == "u" else ():
            ops.append([sel, b["n"]])
            for c in types.get(b["n"], "w"):
                for n in SHORT[c]:
                    if r.random() < every * .7:
                        q.append(b["n"] + ":" + n)
                        ops += [["BrickLog", n]] * r.choice([1, 1, 2])      # asked twice, recorded once
            for p in b["p"]:
                ops.append(["SelProcess", p["n"]])
                items = (["output"] if len(p["o"]) == 1 and not p.get("transport") else []) + [
                    x for x in ("internal_storage", "routing_store", "exp_store", "q_routing", "q_exp", "q_direct") if x in p]
                for x in items:
                    if r.random() < every:
                        q.append("%s:%s:%s" % (b["n"], p["n"], x))
                        ops.append(["ProcLog", x])
    for sp in u["sp"]:
        if r.random() < every:
            v = [k.split(":")[1] for k in components([], [sp], types)]
            ops.append(["SelSplitter", sp["n"]])
            for n in v:
                if r.random() < .8:
                    hu.append(sp["n"] + ":" + n)
                    ops.append(["SplLog", n])
    return ops, hu, sub


def lateral(snap, case):
    """Mark the processes with one flux per receiver, which are not recorded as a whole."""
    for u in snap["units"]:
        for b in u["b"]:
            for p in b["p"]:
                if len(p["o"]) != 1 or p["n"] == "snow_redistribution" or "redistribution" in p["n"]:
                    p["transport"] = True
    return snap


def build(r, sid, case, snaps):
    """The scenario: runs, resets and saves, each run with its record and sometimes its file. snaps: the components, per
    variant of the structure."""
    types = types_of(case.s.ops, case.s.covers)
    parts = [p.ops for p in case.s.parts or [case.s]]
    snaps = [lateral(s, case) for s in snaps]
    ops = case.ops()[len(case.s.ops):]
    fr = r.random() < .6
    hu, sub, sets = [], [], []
    all_items = r.random() < .5
    some_spl = r.random() < .6
    for snap, part in zip(snaps, parts):
        if all_items:
            # everything, and some splitters
            h, b = default_items(snap, types)
            spl = []
            if some_spl:
                for sp in snap["units"][0]["sp"]:
                    for n in components([], [sp], types):
                        spl += [["SelSplitter", sp["n"]], ["SplLog", n.split(":")[1]]]
                        h.append(n)
        else:
            part = [["LogAll", False] if o == ["LogAll", True] else o for o in part]
            spl, h, b = ask(r, case.s, snap, types, not sets)
        hu.append(h)
        sub.append(b)
        sets += ([["Structure"]] if sets else []) + part + spl
    if fr:
        sets.append(["RecordFractions", True])
    ops = sets + ops
    acts = gen.actions(r, case, p=.5)
    ops += [["ProbeStep", "s", "snap"]] + acts
    marks = []
    n = r.choice([1, 1, 2, 3])
    for i in range(n):
        ops += [["Run"], ["Sink"]]
        marks += ["run"]
        for k in r.sample(["Record", "Dump"], 2) if r.random() < .5 else ["Record"]:
            ops.append([k] + (["out%d" % i] if k == "Dump" else []))
            marks.append(k)
        for item in r.sample(sorted({x for q in hu for x in q}), min(2, len({x for q in hu for x in q}))):
            ops.append(["Values", item])
            marks.append(("hu", item))
        if fr:
            c = r.choice(case.s.covers)[0]
            ops.append(["Fractions", c])
            marks.append(("fr", c))
        if r.random() < .3:
            x = r.choice([("hu", "no:such"), ("hu", "outlet"), ("fr", "nothing"), ("fr", case.s.covers[0][0])])
            ops.append(["Values" if x[0] == "hu" else "Fractions", x[1]])
            marks.append(("ask", x))
        ops.append(["Totals"])
        marks.append("Totals")
        if i + 1 < n:
            if r.random() < .3:
                ops.append(["Save"])
            ops.append(["Reset"])
    begin = {"e": "begin", "hu": hu, "sub": sub, "fr": [c for c, _ in case.s.covers] if fr or everything(ops) else [],
             "units": case.b.units, "areas": ["%.15g" % case.b.areas[u] for u in case.b.units],
             "start": repr(case.start + case.sec / 86400), "dt": repr(case.per / 86400), "n": case.n}
    return {"id": sid, "ops": ops, "kind": case.s.kind}, (begin, marks, types, [c for c, _ in case.s.covers])


def rows(ev, via):
    """columns, row and rows events of a record or of a file."""
    if via == "file":
        v, a = ev["vars"], ev["atts"]
        lst = lambda x: x if isinstance(x, list) else [x]
        T, U = len(v["time"]["v"]), len(v["hydro_units_ids"]["v"])
        sl, hl = lst(a.get("labels_aggregated", [])), lst(a.get("labels_distributed", []))
        fl = lst(a.get("labels_land_covers", []))
        assert v["sub_basin_values"]["dims"] == ["aggregated_values", "time"] and v["sub_basin_values"]["type"] == 6
        cell = lambda x, i, u, t: x["v"][(i * U + u) * T + t]
        ids, ar, tm = [int(float(x)) for x in v["hydro_units_ids"]["v"]], v["hydro_units_areas"]["v"], v["time"]["v"]
        sub = lambda i, t: v["sub_basin_values"]["v"][i * T + t]
        hu = lambda i, u, t: cell(v["hydro_units_values"], i, u, t)
        fr = lambda i, u, t: cell(v["land_cover_fractions"], i, u, t)
    else:
        T, U = len(ev["time"]), len(ev["ids"])
        sl, hl, fl, ids, ar, tm = ev["sublab"], ev["hulab"], ev["frlab"], ev["ids"], ev["areas"], ev["time"]
        sub = lambda i, t: ev["subval"][i][t]
        hu = lambda i, u, t: ev["huval"][i][t][u]
        fr = lambda i, u, t: ev["frval"][i][t][u]
    tr = [{"e": "columns", "via": via, "sub": sl, "hu": hl, "fr": fl, "ids": ids, "areas": ar}]
    for t in range(T):
        tr.append({"e": "row", "via": via, "k": t + 1, "time": tm[t], "sub": [sub(i, t) for i in range(len(sl))],
                   "hu": [[hu(i, u, t) for u in range(U)] for i in range(len(hl))],
                   "fr": [[fr(i, u, t) for u in range(U)] for i in range(len(fl))]})
    return tr + [{"e": "rows", "via": via, "n": T}]


def trace(meta, evs):
    begin, marks, types, covers = meta
    it = iter(e for e in evs if e["op"] in ("Run", "Sink", "Record", "Dump", "Values", "Fractions", "Totals"))
    tr, rec = [begin], None
    for m in marks:
        ev = next(it)
        if m == "run":
            tr.append({"e": "run"})
            for s in next(it)["sink"]:
                if s.get("tag") == "s":
                    tr.append(values(s["s"], types, covers))
        elif m in ("Record", "Dump"):
            if m == "Record":
                rec = ev
            tr += rows(ev, "record" if m == "Record" else "file")
        elif m == "Totals":
            # more labels may mention the outlet; only the discharge counts
            q = [v for n, v in zip(rec["sublab"], rec["subval"]) if n == "outlet"][0]
            tr.append({"e": "total", "q": ev["q"], "sum": repr(sum(float(x) for x in q))})
        elif m[0] == "ask":
            tr.append({"e": "refused", "kind": m[1][0], "item": m[1][1], "exc": "exc" in ev})
        else:
            tr.append({"e": "column", "kind": m[0], "item": m[1], "v": ev.get("v", [])})
    return tr


def check(stats, tier):
    big = tier == "thorough"
    core.model_check(stats, "MC_Recorder", "MC_Recorder_deep" if big else "MC_Recorder")
    for c in ("rewind", "after", "spin"):
        core.must_violate("MC_Recorder", "MC_Recorder_" + c)
    r = core.rng("P10", tier)
    cases = {}
    for i in range(2500 if big else 140):
        s = gen.variants(r) if i % 4 == 3 else gen.changing(r) if r.random() < .35 else gen.any_structure(r)
        if r.random() < .5:
            rename(s, {"basin_store": "outlet_store", "basin_0": "outlet_0"})
        cases["r%d" % i] = gen.Case(r, s, nsteps=r.choice([3, 5, 9]), spinup=r.choice([0, 0, 0, 2, 30]), **gen.step_choice(r, s))
    # the components of the models, from the models
    probe = []
    for k, c in cases.items():
        if c.s.parts:
            # each variant on its own
            probe += [{"id": "%s.%d" % (k, j), "ops": gen.Case(r, part_of(c.s, p), nsteps=2, nunits=1, state=False).ops() + [["Snap"]]}
                      for j, p in enumerate(c.s.parts)]
        else:
            probe.append({"id": k + ".0", "ops": c.ops() + [["Snap"]]})
    snaps = core.run_harness(probe)
    sc, meta = [], {}
    for k, c in cases.items():
        e = [snaps["%s.%d" % (k, j)][-1] for j in range(len(c.s.parts or [0]))]
        bad = [x for x in e if x["op"] != "Snap" or "s" not in x]
        if bad:
            stats.violations.append(("model not built", {"id": k, "ops": c.ops()}, bad[0]))
            continue
        s, meta[k] = build(r, k, c, [x["s"] for x in e])
        sc.append(s)
    out = core.run_harness(sc)
    byid = {s["id"]: s for s in sc}
    traces = []
    for sid, evs in out.items():
        f = _runs.failed(evs)
        if f:
            stats.violations.append(("run failed: " + str(f.get("msg", f.get("exc", f["op"]))), byid[sid], f))
            continue
        traces.append((sid, trace(meta[sid], evs)))
    stats.scenarios += len(sc)
    ev = [e for _, t in traces for e in t]
    stats.extra["rows"] = dict(record=sum(e["e"] == "row" and e["via"] == "record" for e in ev), file=sum(e["e"] == "row" and e["via"] == "file" for e in ev),
                               cells=sum(sum(len(x) for x in e["hu"]) for e in ev if e["e"] == "row"))
    good = next(t for _, t in traces if any(e["e"] == "row" and e["hu"] for e in t))
    stats.sample({"trace": good[:3]})
    bad = json.loads(json.dumps(good))
    x = next(e for e in bad if e["e"] == "row" and e["k"] == 2 and e["hu"])
    v = float(x["hu"][0][0])
    x["hu"][0][0] = repr(1.0 if v != v else v * (1 + 1e-6) + 1e-6)
    core.must_reject("TraceRecorder", [bad])
    # steps in another order
    swapped = []
    for _, t in traces[:12]:
        late = json.loads(json.dumps(t))
        st = [k for k, e in enumerate(late) if e["e"] == "step"][:2]
        if len(st) == 2:
            late[st[0]], late[st[1]] = late[st[1]], late[st[0]]
            swapped.append(late)
    core.must_reject("TraceRecorder", swapped, some=True)
    for j in core.validate(stats, "TraceRecorder", traces):
        stats.violations.append(("%s: %s" % (j.event.get("via", j.event["e"]), j.note), byid[j.sc],
                                 {k: v for k, v in j.event.items() if k not in ("hu", "sub", "fr", "v")}))
