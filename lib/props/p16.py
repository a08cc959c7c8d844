"""Precipitation is split by temperature into rain and snow, all of which reaches every land cover."""
import json

import core
import gen
from props import p25

NEVER = "MC_Partition_reach"


def own_limits(r, c):
    """Correction factors, and temperatures at the limits themselves."""
    ops = c.s.ops
    at = [i for i, o in enumerate(ops) if o[0] == "PrecipSplitters"][0]
    snow = ops[at][1]
    extra = [["SelSplitter", "snow_rain_transition" if snow else "rain"]]
    if r.random() < .7:
        for n in (["rain", "snow"] if snow else ["rain"]):
            extra.append(["SplParSet", n + "_correction_factor", gen.num(r.choice([1.0, round(r.uniform(.5, 1.8), 3)]))])
    lim = []
    for o in ops[at:]:
        if o[0] == "SplParSet" and o[1] in ("threshold", "transition_start", "transition_end"):
            o[2] = gen.num(round(float(o[2]) * 4) / 4 + (.25 if o[1] == "transition_end" else 0))
            lim.append(o[2])
    ops[at + 1:at + 1] = extra
    if "cemaneige" in str(ops[at]):
        lim = ["-1.0", "3.0", "0.0"]
    for o in c.f.ops:
        if o[0] in ("TS", "TSD") and o[1].startswith("temperature") and lim:
            for row in ([o[6]] if o[0] == "TS" else o[7]):
                for k in range(len(row)):
                    if r.random() < .25:
                        row[k] = r.choice(lim)
    if "elevation" in c.s.props:
        for o in c.b.ops:
            if o[:2] == ["Prop", "elevation"] and r.random() < .3:
                o[2] = r.choice(["1500.0", "1499.5"])


def check(stats, tier):
    core.model_check(stats, "MC_Partition", "MC_Partition")
    core.must_violate("MC_Partition", NEVER)
    r = core.rng("P16", tier)
    cases = []
    for i in range(400 if tier == "thorough" else 140):
        k = i % 4
        sp = gen.SPLITTERS[1:][i % 3]
        if k == 0:
            s = gen.socont(r, splitter=sp)
        elif k == 1:
            ret = i % 8 == 1
            s = gen.covered(r, snow=True, splitter=sp, retention=ret, withrain=ret)
        elif k == 2:
            s = gen.hbv(r, snow=True, splitter=sp)
        else:
            s = r.choice([gen.gr, gen.network, gen.cascade])(r)
        c = gen.Case(r, s, nsteps=r.choice([8, 15]), **gen.step_choice(r, s))
        own_limits(r, c)
        cases.append(("r%d" % i, c))
    traces, byid = p25.run(stats, tier, "rain", cases)
    p25.judge(stats, traces, byid)
    core.must_reject("TraceLaws", [wrong(traces)])


def wrong(traces):
    """A trace with a wrong amount of rain."""
    for _, tr in traces:
        tr = json.loads(json.dumps(tr))
        j = tr[0]["splits"][0]["flows"][0] - 1
        for ev in tr:
            if ev["e"] == "step" and float(ev["o"][j]) > 1:
                ev["o"][j] = repr(float(ev["o"][j]) + 1e-5)
                return tr
    raise AssertionError
