"""Scheduled actions: applied exactly once, when due."""
import datetime

import core
import gen
from props import _runs

PER = {"day": 86400, "hour": 3600, "minute": 60}
STEPS = [(1, "day")] * 4 + [(2, "day"), (7, "day"), (1, "hour"), (6, "hour"), (12, "hour"), (5, "hour"), (20, "minute"), (10, "minute"),
         (7, "minute")]


def case(r, nsteps, step, unit, sec, start=None, spin=0, s=None):
    s = s or gen.cascade(r, n=1, snow=False, et=False)
    return gen.Case(r, s, nsteps=nsteps, nunits=1 if s.kind == "cascade" else None, step=step, unit=unit, sec=sec, start=start,
                    spinup=spin)


def date(c, t):
    return gen.num(c.start + (c.sec + t) / 86400)


def probes(c, items):
    """One action per group of items; the tag and the cursor identify the item."""
    ops, back = [], {}
    groups = {}
    for i, (kind, x, g) in enumerate(items, 1):
        groups.setdefault((kind, g if kind == "on" else -i), []).append((x, i))
    for (kind, g), xs in groups.items():
        tag = "%s%d" % (kind, g)
        if kind == "on":
            xs.sort(key=lambda q: q[0])
            ops.append(["ProbeDates", tag, "mark", [date(c, t) for t, _ in xs]])
            for j, (_, i) in enumerate(xs):
                back[tag, j] = i
        else:
            ops.append(["ProbeDates", tag, "mark", [], [list(md) for md in xs[0][0]]])
            back[tag, None] = xs[0][1]
    return ops, back


def from_behaviour(r, b, sid):
    """A behaviour of MC_Scheduler: 4 ticks a day, a year of 5 days."""
    start = gen.mjd(r.choice([2019, 2020, 2024]), r.choice([1, 2, 6, 12]), r.choice([25, 26, 27, 28]))
    base = [(datetime.date(1858, 11, 17) + datetime.timedelta(days=start + e)) for e in range(40)]
    dt = b["dt"] * 21600
    unit, step = ("day", b["dt"] // 4) if b["dt"] % 4 == 0 else ("hour", b["dt"] * 6)
    spin = r.choice([0, 2]) if b["spin"] else 0
    n = 6
    c = case(r, n, step, unit, b["s0"] * 21600, start, spin)
    items = []
    for kind, x in b["items"]:
        if kind == "on":
            items.append(("on", x * 21600, r.randint(0, 1)))
        else:
            # (29 February can not be a recurring date)
            mds = [(d.month, d.day) for e, d in enumerate(base) if e % 5 == x and e < 25 and (d.month, d.day) != (2, 29)]
            items.append(("every", mds, 0))
    ops, back = probes(c, items)
    full = list(c.ops()) + ops + [["ActionCounts"]]
    runs = []
    for h in b["h"]:
        if h[0] == "run":
            full += [["Run"], ["Sink"]]
        elif h[0] == "reset":
            full.append(["Reset"])
    return {"id": sid, "ops": full}, c, items, back


def random_one(r, sid, big):
    step, unit = r.choice(STEPS)
    dt = PER[unit] * step
    n = r.choice([1, 3, 10, 30, 60, 400 if unit == "day" else 150, 800 if big and step == 1 and unit == "day" else 40])
    sec = r.choice([0, 0, 0, 3600 * r.randint(1, 23), 60 * r.randint(1, 1439)])
    c = case(r, n, step, unit, sec, gen.mjd(r.randint(1981, 2030), r.randint(1, 12), r.randint(1, 28)), r.choice([0, 0, 0, 1, 2]))
    items = []
    for _ in range(r.choice([1, 3, 8, 20])):
        k = r.randint(-2, n + 1)
        t = r.choice([k * dt, k * dt, k * dt + r.randint(0, max(dt // 60 - 1, 0)) * 60, 0, dt])
        items.append(("on", t, r.randint(0, 2)))
    for _ in range(r.choice([0, 1, 1, 2, 3])):
        e = r.randint(0, max(1, n * dt // 86400))
        d = datetime.date(1858, 11, 17) + datetime.timedelta(days=c.start + e)
        mds = [(d.month, d.day)]
        while r.random() < .3:
            mds.append(r.choice([(r.randint(1, 12), r.randint(1, 33)), (2, 29), (d.month, 31), (d.month, 0), (d.month % 12 + 1, r.randint(1, 28))]))
        mds = [md for k, md in enumerate(mds) if md not in mds[:k]]
        items.append(("every", mds, 0))
    r.shuffle(items)
    ops, back = probes(c, items)
    r.shuffle(ops)
    full = list(c.ops()) + ops + [["ActionCounts"]]
    for _ in range(r.choice([1, 1, 2, 3])):
        full += [["Run"], ["Sink"], ["Reset"]]
    return {"id": sid, "ops": full}, c, items, back


def series_one(r, sid):
    """Dated changes of real land covers, and the recorded extents."""
    step, unit = r.choice(STEPS)
    n = r.choice([4, 9, 20])
    sec = r.choice([0, 0, 3600 * r.randint(1, 23)])
    while True:
        s = gen.cascade(r) if unit != "day" else r.choice([gen.socont, gen.hbv, gen.cascade])(r)
        if len(s.covers) > 1:
            break
    c = case(r, n, step, unit, sec, s=s, spin=r.choice([0, 0, 1]))
    dt = PER[unit] * step
    plan, acts = {}, [[], []]
    for u in c.b.units:
        fr = c.b.fr[u]
        names = [x for x, _ in s.covers[1:] if x in fr]
        spare = int(fr.get(s.covers[0][0], 0) * 64)
        for name in names:
            x = r.randint(0, spare)
            spare -= x
            room = int(fr[name] * 64) + x
            ch = []
            for t in sorted(set(r.choice([r.randint(-1, n), r.randint(-1, n) + r.random()]) for _ in range(r.choice([0, 1, 2, 4])))):
                sec_t = int(t * dt) // 60 * 60
                if ch and sec_t <= ch[-1][0]:
                    continue
                f = r.choice([0, room, r.randint(0, room)]) / 64
                ch.append([sec_t, gen.num(f)])
                r.choice(acts).append([date(c, sec_t), u, name, gen.num(f * c.b.areas[u])])
            plan[u, name] = ch
    ops = list(c.ops())
    ops[len(s.ops):len(s.ops)] = [["RecordFractions"]]
    for a in acts:
        r.shuffle(a)
        if a:
            ops.append(["ActLandCover", a])
    for _ in range(r.choice([1, 2])):
        ops += [["Run"], ["Record"], ["Reset"]]
    return {"id": sid, "ops": ops}, c, plan


def check(stats, tier):
    big = tier == "thorough"
    core.model_check(stats, "MC_Scheduler", "MC_Scheduler_deep" if big else "MC_Scheduler")
    for b in ("again", "long", "late", "cursor"):
        core.must_violate("MC_Scheduler", "MC_Scheduler_" + b)
    r = core.rng("P08", tier)
    sc, meta, ser = [], {}, {}
    beh = core.simulate("MC_Scheduler", "MC_Scheduler_sim", 3000 if big else 500, 40)
    for i, b in enumerate(beh[:1000 if big else 150]):
        s, *m = from_behaviour(r, b, "tlc%d" % i)
        sc.append(s)
        meta[s["id"]] = m
    stats.extra["behaviours_replayed"] = len(meta)
    for i in range(600 if big else 120):
        s, *m = random_one(r, "rnd%d" % i, big)
        sc.append(s)
        meta[s["id"]] = m
    for i in range(400 if big else 80):
        s, *m = series_one(r, "ser%d" % i)
        sc.append(s)
        ser[s["id"]] = m
    out = core.run_harness(sc)
    traces, byid = [], {s["id"]: s for s in sc}
    for sid, evs in out.items():
        f = _runs.failed(evs)
        if f:
            stats.violations.append(("run failed: " + str(f.get("msg", f.get("exc", f["op"]))), byid[sid], f))
            continue
        tr = []
        if sid in meta:
            c, items, back = meta[sid]
            dt = PER[c.timer[4]] * c.timer[3]
            base = dict(day=c.start, s0=c.sec, dt=dt, n=c.n, items=[[k, x] for k, x, _ in items])
            ret = False
            for e in evs:
                if e["op"] == "ActionCounts":
                    tr.append(dict(e="queue", count=e["items"], dates=[t for k, t, _ in items if k == "on"]))
                elif e["op"] == "Run":
                    ret = e.get("ret", False)
                elif e["op"] == "Sink":
                    log = [[x["now"], back.get((x["tag"], None)) or back.get((x["tag"], x["cur"]), 0)] for x in e["sink"]]
                    if any(x[1] == 0 for x in log):
                        stats.violations.append(("unknown item applied", byid[sid], {}))
                        log = [x for x in log if x[1]]
                    tr.append(dict(e="run", ret=ret, log=log, **base))
        else:
            c, plan = ser[sid]
            dt = PER[c.timer[4]] * c.timer[3]
            for e in evs:
                if e["op"] == "Record":
                    for (u, name), ch in plan.items():
                        if name in e["frlab"]:
                            v = e["frval"][e["frlab"].index(name)]
                            j = e["ids"].index(u)
                            tr.append(dict(e="series", n=c.n, dt=dt, changes=ch, init=gen.num(c.b.fr[u][name]),
                                           values=[row[j] for row in v]))
        traces.append((sid, tr))
    stats.scenarios = len(sc)
    stats.sample({"trace": traces[0][1][1]})
    for sid, tr in traces:
        ev = next((e for e in tr if e["e"] == "run" and any(e["items"][x[1] - 1][0] == "on" for x in e["log"])), None)
        if ev:
            k = next(k for k, x in enumerate(ev["log"]) if ev["items"][x[1] - 1][0] == "on")
            core.must_reject("TraceScheduler", [[dict(ev, log=ev["log"][:k] + ev["log"][k + 1:])]])
            break
    for j in core.validate(stats, "TraceScheduler", traces):
        stats.violations.append(("%s:%s" % (j.event["e"], j.note), byid[j.sc], j.event))
