"""Changes of land cover extents, on standing models and during runs."""
import core
import gen
from props import _runs

ROLES = (("", "w", "self"), ("_snowpack", "s", "snow"), ("_snowpack", "w", "snoww"), ("_canopy", "w", "canopy"))


class View:
    """The covers of each unit and what lies on them, in snapshots of one model."""

    def __init__(self, structures, snow):
        self.st, self.snow = structures, snow

    def names(self, unit):
        s = self.st[unit["sid"] - 1]
        return {s["hu"][i]["n"]: s["hu"][i]["type"] for i in s["lc"]}

    def unit(self, unit):
        nm = self.names(unit)
        by = {b["n"]: b for b in unit["b"]}
        w = {}
        for c, t in nm.items():
            w[c] = {role: by[c + suf][k] for suf, k, role in ROLES if c + suf in by}
            if t == "glacier" and by[c]["i"] != "Infinity":
                w[c]["ice"] = by[c]["i"]
        return dict(fr={c: by[c]["f"] for c in nm}, w=w)

    def rest(self, snap, unit_id):
        """Everything that a change of a cover of the unit must leave as it is."""
        out = []
        for u in snap["units"]:
            nm = self.names(u) if u["id"] == unit_id else {}
            on = {c + s for c in nm for s, _, _ in ROLES}
            out.append((u["id"], [(b["n"], b["w"], b["s"], b["i"], b["f"]) for b in u["b"] if b["n"] not in on]))
        return out, [(b["n"], b["w"]) for b in snap["sub"]]


def structure(r):
    k = r.random()
    if k < .5:
        return gen.covered(r)
    if k < .6:
        return gen.covered(r, generic=False)
    while True:
        s = gen.socont(r) if k < .8 else gen.hbv(r)
        if len(s.covers) > 1:
            return s


def standing(r, sid):
    """Changes made one by one on a model with water in it."""
    s = structure(r)
    c = gen.Case(r, s, nsteps=r.choice([1, 3, 6]))
    ops = c.ops() + [["settings"], ["Run"], ["Snap"]]
    todo = []
    fr = {u: dict(f) for u, f in c.b.fr.items()}
    names = [n for n, _ in s.covers]
    g = next((a for a in ("open", "ground", "generic", "generic_land_cover") if a in names), None)
    for _ in range(r.choice([1, 4, 10])):
        u = r.choice(c.b.units)
        n = r.choice(names)
        k = r.random()
        room = fr[u][n] + fr[u].get(g, 0) if g and n != g else fr[u][n]
        if k < .1:
            f = min(room, max(0.0, fr[u][n] + r.choice([-1, 1]) * r.choice([1, 3, 9]) / 1024))
        elif k < .35:
            f = r.randint(0, int(room * 64)) / 64
        elif k < .5:
            f = room
        elif k < .6:
            f = 0.0
        elif k < .7:
            f = room * r.random()
        elif k < .8:
            f = r.choice([1.0, r.random(), room + .01, room + r.random()])
        elif k < .86:
            f = r.choice([-0.25, -1e-3, 1.001, 2.0, float("nan"), float("inf")])
        elif k < .9:
            n, f = r.choice(["lake", names[0] + "_snowpack", ""]), r.random()
        else:
            # an extent computed from areas, as the actions do
            a = c.b.areas[u]
            others = sum(v * a for q, v in fr[u].items() if q not in (n, g))
            f = (a - others) / a if g and n != g else fr[u].get(n, 0.0)
        if n in fr[u] and g and n != g and f == f and 0 <= f <= room + 1e-12:
            fr[u][g] = max(0.0, room - f)
            fr[u][n] = f
        todo.append((u, n, gen.num(f)))
        ops += [["Fraction", u, n, gen.num(f)], ["Snap"]]
    ops += [["Reset"], ["Snap"]]
    return {"id": sid, "ops": ops, "todo": todo, "snow": s.snow, "kind": s.kind, "fr": c.b.fr}


def scheduled(r, sid, record=True):
    """Dated changes during a run, with a snapshot before and after each boundary."""
    s = structure(r)
    while len(s.covers) < 2 or not any(n in ("open", "ground", "generic", "generic_land_cover") for n, _ in s.covers):
        s = structure(r)
    c = gen.Case(r, s, nsteps=r.choice([4, 8, 12]), spinup=r.choice([0, 0, 0, 2]))
    ops = c.ops()
    if record:
        ops[len(s.ops):len(s.ops)] = [["RecordFractions", True]]
    items = gen.cover_changes(r, s, c.b, c.start, c.n, n=r.choice([1, 2, 3, 4]))
    ops += [["settings"], ["ProbeStep", "s", "snap"], ["ActLandCover", items],
            ["ProbeDates", "a", "snap", [repr(c.start + k + 0.1 / 86400) for k in range(1, c.n + 1)]], ["Snap", True]]
    for _ in range(r.choice([1, 2])):
        ops += [["Run"], ["Sink"], ["Totals"], ["Record"], ["Reset"], ["Snap"]]
    return {"id": sid, "ops": ops, "items": items, "snow": s.snow, "kind": s.kind, "fr": c.b.fr, "spin": c.spinup}



def traces(sc, evs, mode):
    v = View([e for e in evs if e["op"] == "settings"][0]["structures"], sc["snow"])
    out = [dict(e="begin", mode=mode)]
    snaps = [e["s"] for e in evs if e["op"] == "Snap"]

    def unit(snap, uid):
        return [u for u in snap["units"] if u["id"] == uid][0]

    def extents(snap, **kw):
        for u in snap["units"]:
            x = v.unit(u)["fr"]
            yield dict(e="extents", fr=x, want={k: repr(float(z)) for k, z in sc["fr"][u["id"]].items() if k in x},
                       **{k: z[u["id"]] for k, z in kw.items()})

    if "todo" in sc:
        rets = [e for e in evs if e["op"] == "Fraction"]
        for (u, n, f), e, b, a in zip(sc["todo"], rets, snaps, snaps[1:]):
            out.append(dict(e="change", c=n, f=dict(nan="NaN", inf="Infinity").get(f, f), ret=e.get("ret", False) and "exc" not in e,
                            before=v.unit(unit(b, u)), after=v.unit(unit(a, u)), rest=v.rest(b, u) == v.rest(a, u)))
        if mode == "extents":
            out += list(extents(snaps[-1]))
        return out
    first = {u["id"]: v.unit(u)["fr"] for u in snaps[0]["units"]}
    if mode == "extents":
        out += list(extents(snaps[0]))
        for s in snaps[1:]:
            out += list(extents(s, same=first))
    for e in evs:
        if e["op"] == "Sink":
            sink = e["sink"]
            for b, a in zip(sink, sink[1:]):
                if b["tag"] == "s" and a["tag"] == "a":
                    for u in b["s"]["units"]:
                        x, y = v.unit(u), v.unit(unit(a["s"], u["id"]))
                        if mode == "extents" or x != y:
                            out.append(dict(e="moved", before=x, after=y,
                                            rest=all(v.rest(b["s"], q["id"])[0][k] == v.rest(a["s"], q["id"])[0][k]
                                                     for k, q in enumerate(b["s"]["units"])) and b["s"]["sub"] == a["s"]["sub"]))
            if mode == "extents" and sum(x["tag"] == "a" for x in sink) != sum(x["tag"] == "s" for x in sink):
                out.append(dict(e="missing"))
        elif e["op"] == "Record" and mode == "extents" and e["frlab"]:
            for j, uid in enumerate(e["ids"]):
                for t in range(len(e["time"])):
                    fr = {n: e["frval"][k][t][j] for k, n in enumerate(e["frlab"]) if e["frval"][k][t][j] not in ("NaN", "nan")}
                    out.append(dict(e="extents", fr=fr))
    return out


def check(stats, tier, mode, pid):
    big = tier == "thorough"
    core.model_check(stats, "MC_Covers", "MC_Covers_deep" if big else "MC_Covers")
    core.must_violate("MC_Covers", "MC_Covers_keep")
    core.must_violate("MC_Covers", "MC_Covers_half")
    core.must_violate("MC_Covers", "MC_Covers_reach")
    r = core.rng(pid, tier)
    sc = [standing(r, "st%d" % i) for i in range(800 if big else 120)]
    sc += [scheduled(r, "rn%d" % i) for i in range(500 if big else 70)]
    return sc
