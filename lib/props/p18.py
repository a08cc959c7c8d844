"""Parameters set by requests, and the runs that use them."""
import json
import struct

import core
import gen
from props import _life, _runs

FLAGS = {"infinite_storage", "no_melt_when_snow_cover", "north_hemisphere"}
AT_MOST_ONE = {"lp", "water_holding_capacity", "response_factor", "alpha", "refreezing_factor", "percolation_rate"}


def shape(structures):
    """Components of every variant, their values, and how to declare them."""
    vs, val, where = [], [], []
    for k, st in enumerate(structures):
        cs, xs = [], []
        for group, sel in (("hu", "SelBrick"), ("sub", "SelSubBrick"), ("spl", "SelSplitter"), ("subspl", None)):
            for b in st[group]:
                brick = group in ("hu", "sub")
                levels = [b["par"]] + ([p["par"] for p in b["p"]] if brick else [])
                cs.append(dict(n=b["n"], type=b["type"], brick=brick, par=[list(x) for x in levels]))
                xs.append([list(x.values()) for x in levels])
                for lv, x in enumerate(levels):
                    for j, n in enumerate(x):
                        where.append((k, sel, b["n"], b["p"][lv - 1]["n"] if lv else None, n, x[n], brick))
        vs.append(cs)
        val.append(xs)
    return vs, val, where


def declare(where):
    """Declarations that give every parameter its value."""
    ops = []
    for k, sel, n, proc, p, v, brick in where:
        if not sel:
            continue
        ops += [["SelStructure", k + 1], [sel, n]]
        if proc:
            ops.append(["SelProcess", proc])
        ops.append([("ProcParSet" if proc else "BrickParSet") if brick else "SplParSet", p, v])
    return ops + [["SelStructure", 1]]


def another(r, name, v):
    v = float(v)
    if name in FLAGS:
        return r.choice(["0", "1"])
    if v == 0:
        x = {"melting_temperature": r.uniform(-1, 1), "radiation_coefficient": r.uniform(0, .003), "threshold": r.uniform(-1, 1)}.get(name, r.uniform(0, .2))
    elif name == "transition_start":
        x = v - r.random()
    elif name == "transition_end":
        x = v + r.random()
    else:
        x = v * (r.uniform(1, 1.4) if name in ("capacity", "routing_capacity") else r.uniform(.7, 1.3))
    if name in AT_MOST_ONE:
        x = min(x, 1) if v <= 1 else x
    return gen.num(round(x, 5) or 0)


def request(r, structures):
    """A request: (text, items, parameter, value)."""
    comps = [(b["n"], b["type"], g in ("hu", "sub"), [n for x in [b["par"]] + [p["par"] for p in b.get("p", [])] for n in x],
              {n: v for x in [b["par"]] + [p["par"] for p in b.get("p", [])] for n, v in x.items()})
             for st in structures for g in ("hu", "sub", "spl", "subspl") for b in st[g]]
    some = [c for c in comps if c[3]]
    c = r.choice(some)
    p = r.choice(c[3])
    v = another(r, p, c[4][p])
    items = [("name", c[0])]
    kind = r.random()
    if kind < .35 and c[2]:
        # components of its type
        land = c[1] in ("ground", "open", "generic", "generic_land_cover", "glacier")
        items = [("type", "land_cover" if land and r.random() < .4 else c[1])]
    elif kind < .65:
        # other components with the parameter
        more = sorted({d[0] for d in some if p in d[3]} - {c[0]})
        items += [("name", n) for n in r.sample(more, min(len(more), r.choice([1, 2, 3])))]
        if r.random() < .3:
            t = sorted({d[1] for d in some if p in d[3] and d[2]})
            items += [("type", x) for x in t[:1]]
        r.shuffle(items)
    if r.random() < .25:
        # something that cannot be granted
        bad = r.choice(["component", "component", "parameter", "other"])
        if bad == "component":
            items.insert(r.randint(0, len(items)), ("name", r.choice(["nothing", c[0] + "_2", c[0][:-1]])))
        elif bad == "parameter":
            p = r.choice(["nothing", p + "s", p[:-1]])
        else:
            without = sorted({d[0] for d in comps if p not in d[3]})
            if without:
                items.insert(r.randint(0, len(items)), ("name", r.choice(without)))
    # as it is written
    text = r.choice([", ", ","]).join(("type:" if t == "type" else "") + s for t, s in items)
    return text, [dict(by=t, s=s) for t, s in items], p, v


def build(r, i):
    s = gen.variants(r) if i % 3 == 0 else gen.any_structure(r)
    c = gen.Case(r, s, nsteps=r.choice([3, 6]), nunits=r.choice([1, 2, 3]), **gen.step_choice(r, s))
    return s, c


def check(stats, tier):
    big = tier == "thorough"
    core.model_check(stats, "MC_Parameters", "MC_Parameters_deep" if big else "MC_Parameters")
    for w in ("partial", "first", "reach"):
        core.must_violate("MC_Parameters", "MC_Parameters_" + w)
    r = core.rng("P18", tier)
    n = 2400 if big else 160
    built = {"p%d" % i: build(r, i) for i in range(n)}
    first = core.run_harness([{"id": k, "ops": s.ops + [["settings"]]} for k, (s, c) in built.items()])
    sc, reqs = [], {}
    for k, (s, c) in built.items():
        decl = first[k][-1]["structures"]
        init = "InitBasin" if s.parts else "Init"
        reqs[k] = []

        def ask(m, ops):
            for _ in range(m):
                q = request(r, decl)
                reqs[k].append(q)
                ops += [["SetParam", q[0], q[2], q[3]], ["settings"]]

        ops = s.ops + [["RecordFractions", True], c.timer] + c.b.ops + [["settings"]]
        ask(r.choice([0, 0, 1]), ops)
        ops += [[init]] + c.f.ops
        save = c.st and not s.transit and r.random() < .5
        if save:
            ops += c.st + [["Save"]]
        ops.append(["settings"])
        for x in range(r.choice([1, 2, 3])):
            late = r.random() < .5
            if not late:
                ops.append(["Reset"])
            m = r.choice([1, 3, 8, 15])
            ask(m, ops)
            ops += [["UpdateParams"], ["settings"]]
            if late:
                ops.append(["Reset"])
            ops += [["Run"], ["Record"], ["Snap"]]
        sc.append({"id": k, "kind": s.kind, "ops": ops, "save": save})
    out = core.run_harness(sc)
    byid = {x["id"]: x for x in sc}
    twins = []
    for k, (s, c) in built.items():
        structures, m = None, 0
        for e in out[k]:
            if e["op"] == "settings":
                structures = e["structures"]
            elif e["op"] == "Run":
                ops = s.ops + declare(shape(structures)[2]) + [["settings"], ["RecordFractions", True], c.timer] + c.b.ops
                ops += [["InitBasin" if s.parts else "Init"]] + c.f.ops + (c.st + [["Save"]] if byid[k]["save"] else [])
                twins.append({"id": "%s.%d" % (k, m), "ops": ops + [["Run"], ["Record"], ["Snap"]]})
                m += 1
    same = core.run_harness(twins)
    stats.scenarios += len(sc) + len(twins)
    traces = []
    counts = dict(granted=0, refused=0, runs=0)
    for k, (s, c) in built.items():
        tr, asked, pend, m = [], list(reqs[k]), None, 0
        upd = False
        evs = out[k]
        for e in evs:
            if e["op"] == "Crash":
                stats.violations.append(("crash", byid[k], e))
            elif e["op"] in ("Init", "InitBasin") and ("exc" in e or e.get("ret") is False):
                stats.violations.append(("init", byid[k], e))
            elif e["op"] == "SetParam":
                q = asked.pop(0)
                pend = dict(e="set", items=q[1], p=q[2], x=f32(q[3]), ok="exc" not in e and e.get("ret") is not False)
                counts["granted" if pend["ok"] else "refused"] += 1
            elif e["op"] in ("UpdateParams",) + (("Init", "InitBasin")):
                upd = True
            elif e["op"] == "settings":
                vs, val, _ = shape(e["structures"])
                if not tr:
                    tr.append(dict(e="begin", vs=vs, val=val))
                if pend:
                    tr.append(dict(pend, after=val))
                    pend = None
                if upd:
                    tr.append(dict(e="update", after=val))
                    upd = False
            elif e["op"] == "Run":
                t = same["%s.%d" % (k, m)]
                mine = evs[evs.index(e):][:3]
                theirs = [x for x in t if x["op"] in ("Run", "Record", "Snap", "Crash")]
                tr.append(dict(e="run", got=outcome(mine), same=outcome(theirs),
                               twin=shape(next(x for x in t if x["op"] == "settings")["structures"])[1]))
                counts["runs"] += 1
                m += 1
        if tr:
            traces.append((k, tr))
    stats.extra["counts"] = counts
    core.must_reject("TraceParameters", list(wrong(traces))[:12])
    stats.sample({"trace": [{x: y for x, y in e.items() if x not in ("after", "vs", "val", "twin")} for e in traces[0][1]]})
    for j in core.validate(stats, "TraceParameters", traces):
        stats.violations.append(("%s: %s" % (j.event["e"], j.note), byid[j.sc], {a: b for a, b in j.event.items() if a not in ("after", "twin")}))


def f32(x):
    return short(struct.unpack("f", struct.pack("f", float(x)))[0])


def short(v):
    return repr(int(v)) if v == int(v) and abs(v) < 1e15 else repr(v)


def outcome(evs):
    return _life.sha([{k: v for k, v in e.items() if k not in ("k", "c", "msg")} for e in evs])


def wrong(traces):
    n = 0
    for _, tr in traces:
        tr = json.loads(json.dumps(tr))
        sets = [e for e in tr if e["e"] == "set" and e["ok"]]
        if not sets:
            continue
        n += 1
        if n % 3 == 0:
            sets[-1]["ok"] = False
        elif n % 3 == 1:
            k, i, lv, j = next((k, i, lv, j) for k, v in enumerate(sets[-1]["after"]) for i, c in enumerate(v) for lv, x in enumerate(c) for j, _ in enumerate(x))
            sets[-1]["after"][k][i][lv][j] = "77"
        else:
            next(e for e in reversed(tr) if e["e"] == "run")["got"] = "other"
        yield tr
