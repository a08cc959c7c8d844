"""Snow slides and drifts between units as the redistribution laws say."""
import json

import core
import gen
from props import p25

KINDS = ["transport:snow_slide", "transport:snow_redistribution_frey", "transport:snow_redistribution_frey_dynamic"]


def wrong(traces, kind, par):
    for _, tr in traces:
        ps = [p for p in tr[0]["procs"] if p["type"] == kind]
        if ps:
            tr = json.loads(json.dumps(tr))
            for p in tr[0]["procs"]:
                if p["type"] == kind and par == "shares":
                    p["shares"] = [repr(float(x) * 1.001) for x in p["shares"]]
                elif p["type"] == kind:
                    p["par"][par] = repr(float(p["par"][par]) * 1.001)
            yield tr


def check(stats, tier):
    deep = tier == "thorough"
    for c in ["MC_Lateral_deep", "MC_Lateral_freydeep"] if deep else ["MC_Lateral", "MC_Lateral_frey"]:
        core.model_check(stats, "MC_Lateral", c)
    core.model_check(stats, "MC_Lateral", "MC_Lateral_flat")
    for k in ("1", "2"):
        core.must_violate("MC_Lateral", "MC_Lateral_reach" + k)
    r = core.rng("P13", tier)
    cases = []
    n = 1500 if deep else 150
    m = n * 4 // 5
    for i in range(n):
        kind = KINDS[i % 3]
        if i < m:
            s = r.choice([gen.socont, lambda *a, **k: gen.covered(*a, snow=True, **k)])(r, redist=kind)
        else:
            s = gen.changing(r, redist=kind)
        c = gen.Case(r, s, nsteps=r.choice([8, 15]), nunits=r.choice([2, 3, 4, 5]), **gen.step_choice(r, s))
        cases.append(("s%d" % i, c))
    traces, byid = p25.run(stats, tier, "lateral", cases, changes=lambda i: i >= m)
    p25.judge(stats, traces, byid)
    moved = 0
    for _, tr in traces:
        js = [j for p in tr[0]["procs"] if p["lateral"] for j in p["flows"]]
        moved += sum(ev["e"] == "step" and any(float(ev["o"][j - 1]) > 0 for j in js) for ev in tr[1:])
    stats.extra["steps with moving snow"] = moved
    if moved < n // 2:
        raise core.CheckError("too little snow moved: %d" % moved)
    stats.sample({"process": [p for p in traces[0][1][0]["procs"] if p["lateral"]][0]})
    for kind in KINDS:
        core.must_reject("TraceLaws", list(wrong(traces, kind, "shares"))[:12], some=True)
    core.must_reject("TraceLaws", list(wrong(traces, KINDS[0], "coeff"))[:12], some=True)
    core.must_reject("TraceLaws", list(wrong(traces, KINDS[1], "snow_density"))[:12], some=True)
    core.must_reject("TraceLaws", list(wrong(traces, KINDS[2], "rho_settling"))[:12], some=True)

