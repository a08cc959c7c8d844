"""The basin closes at every step, and so do the recorded totals of the run."""
import core
import gen
from props import _runs


def check(stats, tier):
    r = core.rng("P01", tier)
    sc = []
    for i in range(400 if tier == "thorough" else 150):
        s = gen.any_structure(r)
        if s.exchange:
            s = gen.gr(r, exchange=0)
        c = gen.Case(r, s, nsteps=r.choice([4, 9]), **gen.step_choice(r, s))
        sc.append(_runs.scenario(r, "b%d" % i, c, totals=True))
    for i in range(150 if tier == "thorough" else 50):
        s = gen.variants(r) if i % 3 == 2 else gen.changing(r)
        c = gen.Case(r, s, nsteps=r.choice([4, 8]), **gen.step_choice(r, s))
        sc.append(_runs.scenario(r, "c%d" % i, c, totals=True, changes=True))
    _runs.check_runs(stats, sc, "basin")
