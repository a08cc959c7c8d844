"""The simulation clock: every date of the period, once, in order."""
import core
import gen

UNIT = {"week": 604800, "day": 86400, "hour": 3600, "minute": 60}


def check(stats, tier):
    big = tier == "thorough"
    core.model_check(stats, "MC_Clock", workers=4)
    r = core.rng("P11", tier)
    sc, meta = [], {}
    for i in range(400 if big else 80):
        ops, ms = [], []
        for _ in range(5):
            u = r.choice(["day", "hour", "minute", "minute", "week"])
            step = r.choice([1, 1, 2, 3, 5, 6, 7, 10, 12, 15, 30, 48, 72, 90, 100, 144, r.randint(1, 45), r.randint(46, 3000)])
            dt = UNIT[u] * step
            d = r.choice([gen.mjd(r.randint(1950, 2060), r.randint(1, 12), r.randint(1, 28))])
            s = 0 if u in ("day", "week") and r.random() < .5 else 60 * r.randint(0, 1439)
            nmax = r.choice([0, 1, 5, 60, 400, 2500 if big else 900])
            n = min(r.randint(0, nmax), max(1, 1900000000 // max(dt, 1)) - 1)
            ln = n * dt + r.choice([0, 0, 60 * r.randint(0, max(0, dt // 60 - 1))])
            kind = r.random()
            if kind < .06:
                ln = -60 * r.randint(1, 100000)
            elif kind < .1:
                step, dt = (0, 0) if r.random() < .5 else (-step, -dt)
            ms.append(dict(e="clock", day=d, sec=s, len=ln, dt=dt))
            ops.append(["Clock", repr(d + s / 86400), repr(d + (s + ln) / 86400), step, u, n + 4 if dt > 0 and ln >= 0 else 0])
        sid = "clk%d" % i
        sc.append({"id": sid, "ops": ops})
        meta[sid] = ms
    runs = {}
    for i in range(160 if big else 40):
        u = r.choice(["day", "hour", "minute"])
        step = r.choice({"day": [1], "hour": [1, 1, 2, 3, 6, 12, 24, 36, 48], "minute": [5, 10, 15, 20, 30, 60, 90, 144, 1440, 2160]}[u])
        n = r.choice([1, 2, 5, 20, 48, 97])
        sec = r.choice([0, 0, 60 * r.randint(1, 1439)])
        c = gen.Case(r, gen.cascade(r, n=1, snow=False, et=False), nsteps=n, nunits=1, step=step, unit=u, sec=sec)
        dt = UNIT[u] * step
        spin = r.choice([0, 0, 1, 3]) if u != "day" else r.choice([0, 2, n])
        ops = list(c.s.ops) + [c.timer] + ([["Spinup", spin]] if spin else []) + c.b.ops + [["Init"]] + c.f.ops
        ops += [["ProbeStep", "p", "mark"], ["Run"], ["Timer?"], ["RecordLite"], ["Sink"]]
        if r.random() < .4:
            ops += [["Reset"], ["Run"], ["Timer?"], ["RecordLite"], ["Sink"]]
        sid = "run%d" % i
        sc.append({"id": sid, "ops": ops})
        runs[sid] = dict(day=c.start, sec=sec, len=(n - 1) * dt, dt=dt)
    for i in range(20):
        c = gen.Case(r, gen.cascade(r, n=1, snow=False, et=False), nsteps=3, nunits=1)
        bad = r.choice(["order", "zero", "neg", "unit"])
        t = list(c.timer)
        if bad == "order":
            t[1], t[2] = t[2], t[1]
        elif bad == "zero":
            t[3] = 0
        elif bad == "neg":
            t[3] = -1
        else:
            t[4] = r.choice(["month", "second", "fortnight"])
        sid = "bad%d" % i
        sc.append({"id": sid, "ops": list(c.s.ops) + [t] + c.b.ops + [["Init"]] + c.f.ops + [["Run"]]})
    out = core.run_harness(sc)
    byid = {s["id"]: s for s in sc}
    traces = []
    for sid, evs in out.items():
        if evs and evs[-1]["op"] == "Crash":
            stats.violations.append(("crash", byid[sid], evs[-1]))
        elif sid in meta:
            for m, e in zip(meta[sid], evs):
                if "exc" in e:
                    e = dict(e, valid=False, n=-1, dates=[], over=False, reset="NaN")
                traces.append((sid, [dict(m, valid=e["valid"], n=e["n"], dates=e["dates"], over=e["over"], reset=e["reset"])]))
        elif sid in runs:
            r4 = {}
            tr = []
            for e in evs:
                if e["op"] == "Run":
                    r4 = dict(ret=e.get("ret", False) and "exc" not in e)
                elif e["op"] == "Timer?":
                    r4["n"] = e["n"]
                elif e["op"] == "RecordLite":
                    r4["axis"] = e["time"]
                    r4["nq"] = len([x for x in e["q"] if x != "NaN"])
                elif e["op"] == "Sink":
                    r4["seen"] = [x["now"] for x in e["sink"]]
                    tr.append(dict(e="run", **runs[sid], **r4))
            traces.append((sid, tr))
        else:
            traces.append((sid, [dict(e="badrun", ret=any(e["op"] == "Run" and e.get("ret") and "exc" not in e for e in evs))]))
    stats.scenarios = len(sc)
    stats.sample({"trace": [{k: v for k, v in traces[0][1][0].items() if k != "dates"}]})
    for j in core.validate(stats, "TraceClock", traces):
        stats.violations.append(("%s:%s" % (j.event["e"], j.note), byid[j.sc], {k: v for k, v in j.event.items() if k not in ("dates", "axis", "seen")}))
