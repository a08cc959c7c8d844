"""Flatten recorded snapshots into ledger events (spec/Ledger.tla)."""

COVERS = ("glacier", "open", "ground", "generic", "generic_land_cover")
ATMOSPHERE = ("et:", "interception:", "sublimation:")


def is_atmosphere(ptype):
    return ptype.startswith(ATMOSPHERE)


class Flat:
    """Topology of one model, from the settings dump and a first snapshot."""

    def __init__(self, structures, snap, laterals=()):
        self.units = [u["id"] for u in snap["units"]]
        self.areas = [u["area"] for u in snap["units"]]
        self.stores, self.flows = [], []
        self.sk, self.fk = [], []      # accessors
        pos = {u: i + 1 for i, u in enumerate(self.units)}
        bt = [{b["n"]: b for b in s["hu"]} for s in structures]
        for ui, u in enumerate(snap["units"]):
            self._stores(ui + 1, u["b"], bt[u["sid"] - 1])
        sub = {b["n"]: b for b in structures[0]["sub"]}
        self._stores(0, snap["sub"], sub)
        # receiving snowpacks of each unit, in order
        packs = {u["id"]: [b["n"] for b in u["b"] if bt[u["sid"] - 1][b["n"]]["type"] == "snowpack"] for u in snap["units"]}
        for ui, u in enumerate(snap["units"]):
            st = structures[u["sid"] - 1]
            conns = [l for l in laterals if l[0] == u["id"]]
            self._flows(ui + 1, u["b"], bt[u["sid"] - 1], st, lambda: [(pos[l[1]], p) for l in conns for p in packs[l[1]]], ui)
            for si, s in enumerate(st["spl"]):
                for k, o in enumerate(s["out"]):
                    self._flow(ui + 1, s["n"], "splitter", "", o["t"], o["c"], 0, ("sp", ui, s["n"], k), st, structures[0])
        self._flows(0, snap["sub"], sub, structures[0], lambda: [], None)

    def _stores(self, u, bricks, types):
        for b in bricks:
            t = types[b["n"]]
            ty = t["type"]
            kinds = ["water"] + (["snow"] if ty == "snowpack" else []) + (["ice"] if ty == "glacier" else [])
            frac = ty in COVERS or ty == "snowpack" or (ty == "interception_storage" and bool(t["parent"]))
            inf = float(t["par"].get("infinite_storage", "0")) != 0
            for k in kinds:
                self.stores.append(dict(u=u, b=b["n"], kind=k, type=ty, frac=frac, inf=inf and k == "ice", neg=b["neg"]))
                self.sk.append((u, b["n"], k))

    def _flow(self, u, b, ty, proc, tgt, c, recv, key, st, prim):
        names = {x["n"] for x in st["spl"]} | {x["n"] for x in prim["subspl"]}
        self.flows.append(dict(u=u, b=b, type=ty, proc=proc, tgt="#splitter" if tgt in names else tgt, c=c, recv=recv))
        self.fk.append(key)

    def _flows(self, u, bricks, types, st, lateral, ui):
        for b in bricks:
            t = types[b["n"]]
            for pi, p in enumerate(t["p"]):
                n = len(b["p"][pi]["o"])
                if is_atmosphere(p["type"]):
                    outs = [("", "water", 0)]
                else:
                    outs = []
                    for o in p["out"]:
                        if o["t"] == "lateral":
                            outs += [(nm, o["c"], recv) for recv, nm in lateral()]
                        else:
                            outs.append((o["t"], o["c"], 0))
                if len(outs) != n:
                    raise ValueError("%s/%s: %d outputs, expected %d" % (b["n"], p["n"], n, len(outs)))
                for k, (tg, c, recv) in enumerate(outs):
                    self._flow(u, b["n"], t["type"], p["type"], tg, c, recv, ("b", u, b["n"], pi, k), st, st)

    def begin(self, **kw):
        return dict(e="begin", areas=self.areas, stores=self.stores, flows=self.flows, **kw)

    def contents(self, snap):
        by = {}
        for ui, u in enumerate(snap["units"]):
            for b in u["b"]:
                by[ui + 1, b["n"]] = b
        for b in snap["sub"]:
            by[0, b["n"]] = b
        c, f, cap = [], [], []
        for u, n, k in self.sk:
            b = by[u, n]
            v = b[{"water": "w", "snow": "s", "ice": "i"}[k]]
            pend = b["pw"] if k == "water" else b["ps"] if k == "snow" else "0"
            if pend != "0":
                v = repr(float(v) + float(pend))
            c.append(v)
            f.append(b["f"])
            cap.append(b["cap"] if k == "water" else "none")
        return by, c, f, cap

    def event(self, snap, kind="step"):
        by, c, f, cap = self.contents(snap)
        ev = dict(e=kind, c=c, f=f)
        if kind == "step":
            o = []
            for key in self.fk:
                if key[0] == "sp":
                    s = [s for s in snap["units"][key[1]]["sp"] if s["n"] == key[2]][0]
                    o.append(s["o"][key[3]])
                else:
                    o.append(by[key[1], key[2]]["p"][key[3]]["o"][key[4]])
            ev.update(o=o, cap=cap, outlet=snap["outlet"],
                      p=[u["fo"].get("precipitation", "0") for u in snap["units"]])
        return ev


def laterals(ops):
    return [(o[1], o[2]) for o in ops if o[0] == "Lateral"]


def trace(case_ops, evs, mode, gr_routing=False):
    """Ledger events of one scenario (settings dump, Snap, Run, Sink of snapshots [, Totals])."""
    st = [e for e in evs if e["op"] == "settings"][0]["structures"]
    s0 = [e for e in evs if e["op"] == "Snap"][0]["s"]
    fl = Flat(st, s0, laterals(case_ops))
    out = [fl.begin(mode=mode), fl.event(s0, "init")]
    for e in evs:
        if e["op"] == "Sink":
            last = None
            ice = any(o[0] == "ActSnowToIce" for o in case_ops)
            for x in e["sink"]:
                if x["tag"] == "s":
                    last = fl.event(x["s"])
                    out.append(last)
                else:
                    ev = fl.event(x["s"], "moved")
                    ev["ice"] = ice
                    if ev["c"] != last["c"] or ev["f"] != last["f"]:
                        out.append(ev)
        elif e["op"] == "Totals":
            out.append(dict(e="totals", q=e["q"], et=e["et"], dw=e["dw"], ds=e["ds"], dg=e["dg"]))
    return out
