"""Every solver advances the stores by its numerical scheme."""
import core
import gen
from props import p25

NAMES = ["rk4", "heun_explicit", "euler_explicit", "analytic_linear", "implicit_euler", "crank_nicolson", "exponential_euler"]
OTHER = {"rk4": "runge_kutta", "analytic_linear": "analytic", "implicit_euler": "euler_implicit", "crank_nicolson": "trapezoidal"}


def smooth(r, solver):
    """Chains and networks whose limits are seldom reached."""
    k = r.random()
    if k < .35:
        s = gen.cascade(r, n=r.choice([1, 2, 3]), solver=solver, snow=r.random() < .3, first_cap=r.random() < .5)
        for o in s.ops:
            if o[:2] == ["BrickPar", "capacity"]:
                o[2] = gen.num(round(r.uniform(200, 900), 2))
        return s
    if k < .6:
        return gen.hbv(r, solver=solver)
    if k < .75:
        return gen.socont(r, solver=solver)
    if k < .85:
        return gen.gr(r, discrete=False, solver=solver)
    return gen.network(r, solver=solver)


def wrong_scheme(traces):
    """Traces of one scheme, told to be of another one."""
    other = dict(zip(NAMES, NAMES[1:] + NAMES[:1]))
    return [[dict(t[0], solver=other[t[0]["solver"]])] + t[1:] for _, t in traces]


def check(stats, tier):
    core.model_check(stats, "MC_Schemes", "MC_Schemes_deep" if tier == "thorough" else "MC_Schemes")
    core.must_violate("MC_Schemes", "MC_Schemes_reach")
    r = core.rng("P24", tier)
    cases = []
    for i in range(1400 if tier == "thorough" else 140):
        name = NAMES[i % 7]
        s = smooth(r, name)
        c = gen.Case(r, s, nsteps=r.choice([4, 8]), **gen.step_choice(r, s))
        cases.append(("s%d" % i, c))
    # other names of the schemes
    for c in (c for _, c in cases):
        if r.random() < .3:
            for o in c.s.ops:
                if o[0] == "Solver" and o[1] in OTHER:
                    o[1] = OTHER[o[1]]
    traces, byid = p25.run(stats, tier, "solver", cases)
    p25.judge(stats, traces, byid)
    for n in NAMES:
        core.must_reject("TraceLaws", wrong_scheme([t for t in traces if t[1][0]["solver"] == n][:10]), some=True)
