"""Contents and fluxes stay in their bounds."""
import core
import gen
from props import _runs


def check(stats, tier):
    r = core.rng("P03", tier)
    sc = []
    for i in range(400 if tier == "thorough" else 150):
        # every third: chains of full stores, where the limits of several stores interact
        s = (gen.any_structure(r) if i % 3 else
             gen.cascade(r, n=r.choice([2, 3, 4]), cap=True, tight=True, et=False,
                         solver=r.choice(["rk4", "euler_explicit", "heun_explicit"])))
        c = gen.Case(r, s, nsteps=r.choice([5, 12]), **gen.step_choice(r, s))
        sc.append(_runs.scenario(r, "n%d" % i, c))
    for i in range(150 if tier == "thorough" else 50):
        s = gen.variants(r) if i % 3 == 2 else gen.changing(r)
        c = gen.Case(r, s, nsteps=r.choice([5, 12]), **gen.step_choice(r, s))
        sc.append(_runs.scenario(r, "c%d" % i, c, changes=True))
    _runs.check_runs(stats, sc, "bounds")
