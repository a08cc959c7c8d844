"""Calendar: dates and times."""
import core

FMT = {  # (order, separator, time form, glue) accepted by each declared format
    "ISOdate": [("ymd", "-", "", "")],
    "YYYY_MM_DD": [("ymd", s, "", "") for s in "-./"] + [("ymd", "", "", "")],
    "ISOdateTime": [("ymd", "-", "hms", "T"), ("ymd", "-", "hms", " ")],
    "YYYY_MM_DD_hh_mm": [("ymd", s, "hm", " ") for s in "-./"],
    "YYYY_MM_DD_hh_mm_ss": [("ymd", s, "hms", " ") for s in "-./"] + [("ymd", "", "hmscompact", "")],
    "DD_MM_YYYY": [("dmy", s, "", "") for s in "-./"] + [("dmy", "", "", "")],
    "DD_MM_YYYY_hh_mm": [("dmy", s, "hm", " ") for s in "-./"],
    "DD_MM_YYYY_hh_mm_ss": [("dmy", s, "hms", " ") for s in "-./"],
}
FMT["guess"] = [f for k in ("YYYY_MM_DD", "YYYY_MM_DD_hh_mm", "YYYY_MM_DD_hh_mm_ss", "ISOdateTime", "DD_MM_YYYY",
                            "DD_MM_YYYY_hh_mm", "DD_MM_YYYY_hh_mm_ss") for f in FMT[k] if f != ("ymd", ".", "", "")]


def dim(y, m):
    return 29 if m == 2 and (y % 4 == 0 and y % 100 or y % 400 == 0) else [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][m - 1]


def mjd(y, m, d):
    import datetime
    return (datetime.date(y, m, d) - datetime.date(1858, 11, 17)).days


def text(order, sep, t, glue, y, m, d, h, mi, s):
    a = "%04d" % y, "%02d" % m, "%02d" % d
    o = sep.join(a) if order == "ymd" else sep.join((a[2], a[1], a[0]))
    if t:
        o += glue + {"hms": "%02d:%02d:%02d" % (h, mi, s), "hm": "%02d:%02d" % (h, mi),
                     "hmscompact": "%02d%02d%02d" % (h, mi, s)}[t]
    return o


def check(stats, tier):
    big = tier == "thorough"
    core.model_check(stats, "MC_Calendar", workers=1)
    r = core.rng("P20", tier)
    ops, meta = [], []

    def pick():
        c = r.random()
        y = r.choice([1900, 2000, 2100, 2020, 2021, 1999]) if c < .3 else r.randint(1901, 2099)
        m = r.choice([1, 2, 3, 12]) if r.random() < .4 else r.randint(1, 12)
        d = r.choice([1, dim(y, m)]) if r.random() < .4 else r.randint(1, dim(y, m))
        return y, m, d, r.choice([0, 23, r.randint(0, 23)]), r.choice([0, 59, r.randint(0, 59)]), r.choice([0, 59, r.randint(0, 59)])

    N = 1500 if big else 250
    for _ in range(N):
        t = pick()
        ops.append(["MJD", *t]); meta.append(dict(e="MJD", y=t[0], m=t[1], d=t[2], h=t[3], mi=t[4], s=t[5]))
        b = (t[0], r.choice([2, 4, 6, 9, 11, 13, 0]), r.choice([29, 30, 31, 32, 0]))
        ops.append(["MJD", *b, 0, 0, 0]); meta.append(dict(e="MJD", y=b[0], m=b[1], d=b[2], h=0, mi=0, s=0))
        x = repr(mjd(*t[:3]) + (t[3] * 3600 + t[4] * 60 + t[5] + r.uniform(-.3, .3)) / 86400)
        ops.append(["FromMJD", x]); meta.append(dict(e="FromMJD", x=x))
        x = repr(mjd(*t[:3]) + r.choice([0, r.randint(0, 86399)]) / 86400)
        ops.append(["DayOfYear", x]); meta.append(dict(e="Doy", x=x))
        u, n = r.choice(["week", "day", "hour", "minute"]), r.choice([0, 1, r.randint(1, 5000)])
        ops.append(["IncDate", x, n, u]); meta.append(dict(e="Inc", x=x, u=u, n=n))
    for fmt, forms in FMT.items():
        for form in forms:
            for k in range(12 if big else 4):
                t = pick()
                legal = True
                if k == 0:    # not a date
                    legal = False
                    t = (t[0],) + r.choice([(2, 30), (13, 10), (4, 31), (11, 31), (6, 32)]) + t[3:]
                    if form[1] == "":      # compact forms: leave no other reading
                        t = (2023, 2, 30) + t[3:]
                s = text(*form, *t)
                ops.append(["ParseDate", s, fmt])
                meta.append(dict(e="Parse", fmt=fmt, order=form[0], sep=form[1], time=form[2], glue=form[3], text=s,
                                 legal=legal, y=t[0], m=t[1], d=t[2], h=t[3], mi=t[4], s=t[5]))
    sc = [{"id": "cal%d" % i, "ops": ops[i:i + 400]} for i in range(0, len(ops), 400)]
    out = core.run_harness(sc)
    traces = []
    for i, s in enumerate(sc):
        part = meta[i * 400:(i + 1) * 400]
        evs = out[s["id"]]
        if len(evs) != len(part):
            stats.violations.append(("crash", s, {"events": evs[-3:]}))
            continue
        for k, (m, e) in enumerate(zip(part, evs)):
            traces.append(("%s.%d" % (s["id"], k), [dict(m, exc="exc" in e, r=e.get("r", "NaN"))]))
    stats.scenarios = len(sc)
    # one behaviour per event: no rejection hides another one
    rej = core.validate(stats, "TraceCalendar", traces)
    stats.sample({"event": traces[0][1][0]})
    byid = {s["id"]: s for s in sc}
    for j in rej:
        stats.violations.append(("%s:%s" % (j.event["e"], j.note), {"op": [o for o in byid[j.sc.split(".")[0]]["ops"]][int(j.sc.split(".")[1])]},
                                 {"event": j.event, "failed": j.note}))
