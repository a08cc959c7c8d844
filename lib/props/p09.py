"""Forcing: which series are accepted, and the value that drives each unit in each step."""
import core
import gen

SEC = {"day": 86400, "hour": 3600, "minute": 60}
NAMES = {"precipitation": ["precipitation", "p", "P"], "temperature": ["temperature", "t", "T"],
         "temperature_min": ["temperature_min", "t_min"], "temperature_max": ["temperature_max", "T_max"],
         "radiation": ["solar_radiation", "r_solar", "r"], "pet": ["pet", "etp", "PET"]}
STEPS = [("day", 1)] * 4 + [("day", 2), ("day", 3), ("hour", 1), ("hour", 1), ("hour", 2), ("hour", 3), ("hour", 6), ("hour", 12),
                            ("hour", 24), ("hour", 36), ("minute", 10), ("minute", 15), ("minute", 30), ("minute", 60),
                            ("minute", 90), ("minute", 1440), ("minute", 2160)]


def value(r, v):
    lo, hi = {"precipitation": (0, 40), "temperature": (-12, 15), "temperature_min": (-15, 0), "temperature_max": (0, 20),
              "radiation": (0, 300), "pet": (0, 6)}[v]
    return gen.num(r.randint(lo * 64, hi * 64) / 64)


class Offer:
    """A series offered to the model: the operation, and what it is for the specification."""

    def __init__(self, r, c, v, bad=None, form=None):
        unit, step = c.su
        dt = SEC[unit] * step
        day, sec = c.start, c.sec
        form = form or r.choice(["TS", "X", "X", "CTS", "CTS", "NC"])
        other = [k for k in STEPS if SEC[k[0]] * k[1] != dt]
        if bad == "step":
            unit, step = r.choice(other)
        dd = SEC[unit] * step
        whole = 60 if unit == "minute" else 3600

        def period(defect=None):
            k = r.choice([0, 0, 1, 2, 5])
            off = -k * dd - (r.randrange(0, dd, whole) if r.random() < .3 else 0)
            n = (-off + (c.n - 1) * dt + dd - 1) // dd + 1 + r.choice([0, 0, 1, 4])
            if defect == "late":
                off = r.choice([1, 2]) * dd if r.random() < .6 else r.randrange(whole, dd + whole, whole)
            elif defect == "early":
                n = max(1, ((c.n - 1) * dt - off - 1) // dd + 1 - r.choice([0, 0, 1, 3]))
            return off, max(n, 1)

        ids = [0] if form == "TS" else list(c.b.units) + [max(c.b.units) + 1 + j for j in range(r.choice([0, 0, 2]))]
        if bad == "missing" and form != "TS":
            ids.remove(r.choice(c.b.units))
        if bad == "twice" and form != "TS":
            ids.append(r.choice(ids))
        r.shuffle(ids)
        shared = form != "X"
        odd = r.randrange(len(ids)) if ids else 0
        base = period(bad if shared and bad in ("late", "early") else None)
        self.data = []
        for j, i in enumerate(ids):
            off, n = base
            if not shared:
                off, n = period(bad if j == odd and bad in ("late", "early") else None)
            self.data.append(dict(id=i, off=off, n=n, v=[value(r, v) for _ in range(n)]))
        self.regular = True
        at = lambda off: repr(day + (sec + off) / 86400)
        name = r.choice(NAMES[v])
        self.var, self.bad, self.form = v, bad, form
        self.steps = dd
        if form in ("CTS", "NC"):
            d = self.data[0] if self.data else dict(off=0, n=2, v=[])
            times = [at(d["off"] + k * dd) for k in range(d["n"])]
            if d["n"] == 1:
                self.regular = False         # a single date does not tell the step
            if bad == "gap" and len(times) > 3:
                del times[r.randrange(2, len(times) - 1)]
                for x in self.data:
                    x["v"] = x["v"][:len(times)]
                self.regular = False
            if bad == "name":
                name, self.regular = r.choice(["precip", "q", "tmin"]), False
        if form == "TS":
            d = self.data[0]
            a = [at(d["off"]), at(d["off"] + (d["n"] - 1) * dd), step, unit]
            if r.random() < .5:
                self.op = ["TS", v] + a + [d["v"]]
            else:
                self.op = ["TSX", v, True, step, unit, [[0, a[0], a[1], d["v"]]]]
            if bad == "count":
                d["n"] = 0
                d["v"] = d["v"] + ["1.0"]
                self.op[-1] = d["v"] if self.op[0] == "TS" else [[0, a[0], a[1], d["v"]]]
        elif form == "X":
            rows = [[d["id"], at(d["off"]), at(d["off"] + (d["n"] - 1) * dd), d["v"]] for d in self.data]
            if bad == "count" and rows:
                rows[odd][3] = rows[odd][3] + ["1.0"]
                self.data[odd]["n"] = 0
            if bad == "mixed" and len(rows) > 1:
                # one unit's data has another step
                u2, s2 = r.choice(other)
                d2 = SEC[u2] * s2
                n2 = (self.data[odd]["n"] * dd) // d2 + 2
                rows[odd] = [ids[odd], at(self.data[odd]["off"]), at(self.data[odd]["off"] + (n2 - 1) * d2), [value(r, v) for _ in range(n2)], s2, u2]
                self.regular = False
            self.op = ["TSX", v, False, step, unit, rows]
        elif form == "CTS":
            self.op = ["CTS", name, times, ids, [[d["v"][k] for d in self.data] for k in range(len(times))]]
        else:
            self.nc = (times, ids, name, [d["v"] for d in self.data])
        self.ev = dict(e="add", ser=dict(var=v, step=dd, data=self.data), regular=self.regular)


def nc_ops(r, offers, k):
    """One file holding the series of several offers (same dates and units)."""
    f = "f%d.nc" % k
    t, ids = offers[0].nc[:2]
    precise = any(not float(x).is_integer() for x in t)
    return [["NcWrite", f, "double" if precise or r.random() < .5 else "float", r.random() < .6, t, ids,
             [[o.nc[2], o.nc[3]] for o in offers]], ["TSParse", f]]


def scenario(r, i, tier):
    su = r.choice(STEPS)
    step = SEC[su[0]] * su[1]
    s = gen.cascade(r, n=1, snow=r.random() < .6, et=True) if r.random() < .7 else gen.network(r)
    n = r.choice([1, 2, 3, 5, 8, 12])
    sec = 0 if su[0] == "day" and r.random() < .7 else r.choice([0, 3600 * r.randint(1, 23)] + ([60 * r.randint(1, 1439)] if su[0] == "minute" else []))
    c = gen.Case(r, s, nsteps=n, step=su[1], unit=su[0], sec=sec, state=False)
    c.su = su
    days = n * step / 86400
    ops = list(s.ops) + [c.timer]
    if r.random() < .3 and days >= 1:
        ops.append(["Spinup", r.choice([1, int(days), int(days) + 2])])
    ops += c.b.ops + [["Init"], ["ProbeStep", "s", "snap"]]
    evs = []          # (kind, expectation) parallel to the observable operations
    needs = sorted(s.vars)
    nf = [0]

    def offer(v, bad=None, form=None):
        o = Offer(r, c, v, bad, form)
        if o.form == "NC":
            nf[0] += 1
            ops.extend(nc_ops(r, [o], nf[0]))
        else:
            ops.append(o.op)
        evs.append(("add", o))

    def offers(complete=True):
        vs = list(needs)
        if r.random() < .2:
            vs.append(r.choice([v for v in NAMES if v not in needs] or needs))
        r.shuffle(vs)
        skip = None if complete else r.choice(needs)
        for v in vs:
            for _ in range(r.choice([0, 0, 1, 2])):
                offer(v, r.choice(["late", "early", "step", "twice", "gap", "name", "count", "mixed"]))
            if v == skip:
                continue
            if not complete and r.random() < .3:
                offer(v, "missing", r.choice(["X", "CTS", "NC"]))
            else:
                offer(v)
            if r.random() < .2:
                offer(v)     # already linked
        ops.append(["Attach"])
        evs.append(("attach", None))

    def run():
        ops.extend([["Run"], ["Sink"]])
        evs.append(("run", None))

    if r.random() < .1:
        run()
    if r.random() < .25:
        offers(complete=False)
        run()
        ops.extend([["Reset"], ["ClearTS"]])
        evs.append(("clear", None))
    offers()
    run()
    for _ in range(r.choice([0, 1, 2])):
        ops.append(["Reset"])
        if r.random() < .5:
            ops.append(["ClearTS"])
            evs.append(("clear", None))
            if r.random() < .25:
                run()
                ops.append(["Reset"])
            offers()
        run()
    begin = dict(e="begin", step=step, n=n, units=c.b.units, needs=needs)
    return {"id": "fo%d" % i, "ops": ops}, begin, evs


def trace(begin, exp, evs):
    tr = [begin]
    q = list(exp)
    for e in evs:
        k = e["op"]
        ok = "exc" not in e and bool(e.get("ret"))
        if k in ("TS", "TSX", "CTS", "TSParse"):
            _, o = q.pop(0)
            if k == "TSParse":
                ok = ok and e.get("added") == [True]
            tr.append(dict(o.ev, ok=ok, how=k, bad=o.bad or ""))
        elif k == "Attach":
            q.pop(0)
            tr.append(dict(e="attach", ok=ok))
        elif k == "ClearTS":
            q.pop(0)
            tr.append(dict(e="clear"))
        elif k == "Run":
            q.pop(0)
            tr.append(dict(e="run", ok=ok, steps=[]))
        elif k == "Sink":
            tr[-1]["steps"] = [[[u["id"], v, x] for u in s["s"]["units"] for v, x in sorted(u["fo"].items())] for s in e["sink"]]
            if not tr[-1]["ok"]:
                tr[-1]["steps"] = []
    return tr


def check(stats, tier):
    big = tier == "thorough"
    core.model_check(stats, "MC_Forcing", "MC_Forcing_deep" if big else "MC_Forcing")
    core.must_violate("MC_Forcing", "MC_Forcing_norewind")
    core.must_violate("MC_Forcing", "MC_Forcing_unit0")
    r = core.rng("P09", tier)
    sc, meta = [], {}
    for i in range(4000 if big else 350):
        s, b, e = scenario(r, i, tier)
        sc.append(s)
        meta[s["id"]] = (b, e)
    out = core.run_harness(sc)
    byid = {s["id"]: s for s in sc}
    traces = []
    for sid, evs in out.items():
        if evs and (evs[-1]["op"] == "Crash" or any(e["op"] == "Init" and not e.get("ret") for e in evs)):
            stats.violations.append(("crash", byid[sid], evs[-1]))
            continue
        traces.append((sid, trace(*meta[sid], evs)))
    stats.scenarios += len(sc)
    acc = [e for _, t in traces for e in t if e["e"] == "add"]
    stats.extra["series"] = dict(offered=len(acc), accepted=sum(e["ok"] for e in acc))
    good = next(t for _, t in traces if any(e["e"] == "run" and e["ok"] for e in t))
    import json
    bad = json.loads(json.dumps(good))
    x = next(e for e in bad if e["e"] == "run" and e["ok"])["steps"][0][0]
    x[2] = repr(float(x[2]) + 1 / 64)
    wrong = json.loads(json.dumps(good))
    for e in wrong:
        if e["e"] == "add":
            e["ok"] = not e["ok"]
    core.must_reject("TraceForcing", [bad, wrong])
    for j in core.validate(stats, "TraceForcing", traces):
        ev = j.event
        stats.violations.append((j.note, byid[j.sc], {k: v for k, v in ev.items() if k in ("e", "ok", "how", "bad", "regular")}))
