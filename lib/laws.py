"""Recorded runs as events of the process laws (spec/TraceLaws.tla)."""
import datetime

import gen
import ledger

LATE = 1000000000
SYNONYMS = {"runge_kutta": "rk4", "analytic": "analytic_linear", "euler_implicit": "implicit_euler", "trapezoidal": "crank_nicolson"}
SKIPPED = ("transport:", "routing:")


class Laws(ledger.Flat):
    def __init__(self, ops, structures, snap):
        self.st = structures
        self.snap0 = snap
        self.ops = ops
        super().__init__(structures, snap, ledger.laterals(ops))
        self.props = self._props(ops)

    def _props(self, ops):
        """Properties of the units."""
        out, cur = {}, None
        for o in ops:
            if o[0] == "Unit":
                cur = out.setdefault(o[1], {"slope": "0", "aspect": "N", "elev": o[3]})
            elif o[0] == "Prop":
                cur["elev" if o[1] == "elevation" else o[1]] = o[2]
            elif o[0] == "PropS":
                cur["aspect"] = o[2]
        return out

    def begin_laws(self, solver, dt, what):
        idx = {k: i + 1 for i, k in enumerate(self.sk)}
        procs, links, seats = [], [None] * len(self.fk), []
        where = {}

        def store(u, name, kind):
            return idx.get((u, name, kind)) or idx.get((0, name, kind), 0)

        for ui, u in [(i + 1, x) for i, x in enumerate(self.snap0["units"])] + [(0, None)]:
            st = self.st[(u["sid"] if u else 1) - 1]
            bricks = u["b"] if u else self.snap0["sub"]
            types = {b["n"]: b for b in st["hu" if u else "sub"]}
            covers = [b["n"] for b in st["hu"] if b["type"] in ledger.COVERS]
            for bi, b in enumerate(bricks):
                t = types[b["n"]]
                cover = t["type"] in ledger.COVERS or t["type"] == "snowpack" or bool(t["parent"])
                solver_brick = not (t["direct"] or cover)
                rank0 = LATE + 100000000 if solver_brick else ui * 1000000 + (bi + 1) * 1000
                for k in ("water", "snow", "ice"):
                    if (ui, b["n"], k) in idx:
                        where[ui, b["n"], k] = dict(rank=rank0, solver=solver_brick, neg=b["neg"])
                for pi, p in enumerate(t["p"]):
                    kind = ledger_source(t["type"], p["type"])
                    flows = [j + 1 for j, key in enumerate(self.fk) if key[:4] == ("b", ui, b["n"], pi)]
                    skip = p["type"].startswith(SKIPPED)
                    snow, nomelt = 0, False
                    if t["type"] == "snowpack":
                        snow = idx[ui, b["n"], "snow"]
                        # the snow lies above the water of the pack
                    elif t["type"] == "glacier" and kind == "ice" and float(t["par"].get("no_melt_when_snow_cover", "0")) != 0:
                        snow = idx[ui, b["n"] + "_snowpack", "snow"]
                        nomelt = True
                    sib = [q["par"] for q in t["p"] if q["type"] == "melt:degree_day"]
                    area = u["area"] if u else "1"
                    feeding = []
                    if p["type"] == "capillary:hbv":
                        for o in p["out"]:
                            f = [c["n"] for c in st["hu"] if c["n"] in covers and any(x["t"] == o["t"] for q in c["p"] for x in q["out"])]
                            feeding.append([idx[ui, c, "water"] for c in f])
                    props = self.props.get(u["id"], {}) if u else {}
                    procs.append(dict(u=ui, b=b["n"], src=idx[ui, b["n"], kind], flows=flows, type=p["type"], par=p["par"],
                                      rank=rank0 + pi + 1, solver=solver_brick, skip=skip, snow=snow, nomelt=nomelt,
                                      lateral=p["type"].startswith("transport:"), shares=self.shares(u, flows),
                                      sib=sib[0] if sib else {}, covers=feeding,
                                      props=dict(slope=props.get("slope", "0"), aspect=props.get("aspect", "N"), area=area)))
                    outs = p["out"] if len(p["out"]) == len(flows) else [None] * len(flows)
                    for m, j in enumerate(flows):
                        lateral = self.flows[j - 1]["recv"] != 0
                        links[j - 1] = dict(rank=rank0 + pi + 1, inst=bool(lateral or (outs[m] and outs[m]["inst"])),
                                            solver=solver_brick, k=len(procs), m=m + 1, chk=True)
        for j, key in enumerate(self.fk):
            if key[0] == "sp":
                links[j] = dict(rank=(key[1] + 1) * 1000000, inst=False, solver=False, k=0, m=0, chk=False)
        for k in self.sk:
            seats.append(dict(where[k], known=True))
        # what is fed by a process without a law here is unknown in the stages of the schemes
        change = True
        while change:
            change = False

            def unknown(i):
                nonlocal change
                if i and seats[i - 1]["solver"] and seats[i - 1]["known"]:
                    seats[i - 1]["known"] = False
                    change = True
            for p in procs:
                if not p["solver"]:
                    continue
                tg = [self.target(p["u"], self.flows[j - 1], idx) for j in p["flows"]]
                bad = p["skip"] or (solver in ("rk4", "heun_explicit") and not seats[p["src"] - 1]["known"])
                if p["type"] in ("capillary:hbv", "infiltration:gr4j") and solver in ("rk4", "heun_explicit"):
                    bad = bad or any(t and not seats[t - 1]["known"] for t in tg)
                if bad:
                    for j in p["flows"]:
                        if links[j - 1]["chk"]:
                            links[j - 1]["chk"] = False
                            change = True
                    unknown(p["src"])
                    for t in tg:
                        unknown(t)
        gr = any(p["type"] == "interception:gr4j" for p in procs)
        splits, reach = self.splitters() if what == "rain" else ([], [])
        return self.begin(procs=procs, links=links, seats=seats, solver=solver, dt=repr(dt), gr=gr, what=what, splits=splits,
                          reach=reach)

    def shares(self, u, flows):
        """Share of the connection that each lateral flow belongs to (flows of the same connection follow each other)."""
        if not any(self.flows[j - 1]["recv"] for j in flows):
            return []
        packs = {x["id"]: [b["n"] for b in x["b"] if b["n"].endswith("_snowpack")] for x in self.snap0["units"]}
        return [o[3] for o in self.ops if o[0] == "Lateral" and o[1] == u["id"] for _ in packs[o[2]]]

    def splitters(self):
        splits, reach = [], []
        for ui, u in enumerate(self.snap0["units"]):
            st = self.st[u["sid"] - 1]
            flow = {(k[2], k[3]): j + 1 for j, k in enumerate(self.fk) if k[0] == "sp" and k[1] == ui}
            for s in st["spl"]:
                feed = [flow[q["n"], k] for q in st["spl"] for k, o in enumerate(q["out"]) if o["t"] == s["n"]]
                splits.append(dict(u=ui + 1, name="%s (%s)" % (s["n"], s["type"]), type=s["type"], par=s["par"],
                                   elev=self.props[u["id"]]["elev"], flows=[flow[s["n"], k] for k in range(len(s["out"]))],
                                   **{"from": feed[0] if feed else 0}))
            snow = any(s["n"] == "snow_splitter" for s in st["spl"])
            names = {b["n"] for b in st["hu"]}
            for b in st["hu"]:
                if b["type"] in ledger.COVERS:
                    def to(kind, *nm):
                        return [j for (n, k), j in flow.items() if self.flows[j - 1]["tgt"] in nm and self.flows[j - 1]["c"] == kind]
                    # rain falls on the canopy, or on the snowpack that retains water, or on the cover
                    over = [b["n"], b["n"] + "_canopy", b["n"] + "_snowpack"]
                    reach.append([to("water", *over)] + ([to("snow", b["n"] + "_snowpack")] if snow else []))
        return splits, reach

    def target(self, u, f, idx):
        if f["tgt"] in ("", "outlet", "#splitter"):
            return 0
        w = f["recv"] or u
        return idx.get((w, f["tgt"], f["c"])) or idx.get((0, f["tgt"], f["c"]), 0)


def ledger_source(btype, ptype):
    if btype == "snowpack":
        return "water" if ptype in ("outflow:snow_holding", "refreeze:degree_day") else "snow"
    if btype == "glacier":
        return "ice" if ptype in ("melt:degree_day", "melt:degree_day_aspect", "melt:temperature_index") else "water"
    return "water"


def trace(case, ops, evs, what):
    """Events of one recorded run (see _runs.scenario)."""
    st = [e for e in evs if e["op"] == "settings"][0]["structures"]
    s0 = [e for e in evs if e["op"] == "Snap"][0]["s"]
    fl = Laws(ops, st, s0)
    solver = [o[1] for o in ops if o[0] == "Solver"][-1]
    solver = SYNONYMS.get(solver, solver)
    per = case.per
    out = [fl.begin_laws(solver, per / 86400, what), fl.event(s0, "init")]
    k = 0
    pet = case.f.values.get("pet")
    for e in evs:
        if e["op"] != "Sink":
            continue
        last = None
        for x in e["sink"]:
            if x["tag"] == "s":
                last = fl.event(x["s"])
                last["fo"] = [u["fo"] for u in x["s"]["units"]]
                last["pet"] = [gen.num(pet[u["id"]][k]) if pet else "0" for u in x["s"]["units"]]
                sec = case.sec + k * per
                d = gen.MJD0 + datetime.timedelta(days=int(case.start + sec // 86400))
                last["doy"] = d.timetuple().tm_yday
                out.append(last)
                k += 1
            else:
                ev = fl.event(x["s"], "moved")
                if ev["c"] != last["c"] or ev["f"] != last["f"]:
                    out.append(ev)
    return out
