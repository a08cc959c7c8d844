"""Histories of runs, resets, saved states and parameter updates on the real code, as TraceLifecycle events."""
import hashlib
import json

import gen

SCALABLE = {"response_factor": .6, "percolation_rate": .5, "degree_day_factor": .8, "uh_base_time": 1.3,
            "routing_capacity": 1.3, "maxbas": 1.4, "capacity": 1.3, "beta": 1.1, "exchange_factor": .5,
            "exp_store_coeff": 1.5, "water_holding_capacity": .5, "alpha": .5, "lp": .9, "refreezing_factor": .5,
            "melt_factor": .7, "cold_content_factor": .8}


def params(s):
    """(brick, parameter, value) of the processes of a structure, from its operations."""
    brick, res = None, []
    spills = set()
    for o in s.ops:
        if o[0] in ("HuBrick", "SubBrick", "SelBrick", "LandCover"):
            brick = o[1]
        elif o[0] == "Process" and o[2] == "overflow":
            spills.add(brick)
    for o in s.ops:
        if o[0] in ("HuBrick", "SubBrick", "SelBrick", "LandCover"):
            brick = o[1]
        elif o[0] in ("ProcParSet", "BrickPar") and o[1] in SCALABLE:
            # a saved content above a lowered capacity needs an overflow
            if o[0] == "ProcParSet" or o[1] != "capacity" or brick in spills:
                res.append((brick, o[1], float(o[2])))
    return res


def change(r, s):
    """Operations that switch to the parameters p0 / p1."""
    ps = params(s)
    pick = [p for p in ps if r.random() < .4] or [r.choice(ps)] if ps else []
    seen, sel = set(), []
    for p in pick:
        if p[:2] not in seen and sum(q[:2] == p[:2] for q in ps) == 1:
            seen.add(p[:2])
            sel.append(p)
    p0 = [["SetParam", b, n, gen.num(v)] for b, n, v in sel] + [["UpdateParams"]]
    p1 = [["SetParam", b, n, gen.num(round(v * SCALABLE[n], 4))] for b, n, v in sel] + [["UpdateParams"]]
    return {"p0": p0, "p1": p1}, sel


OUTCOME = [["Record"], ["Totals"], ["Snap"]]


def history(ops, par):
    """Harness operations of one history."""
    res = []
    for o in ops:
        if o == "Run":
            res += [["Run"]] + OUTCOME
        elif o == "Reset":
            res += [["Reset"], ["Snap"], ["Timer?"]]
        elif o == "Save":
            res += [["Save"]]
        else:
            res += par[o]
    return res


def sha(x):
    return hashlib.sha1(json.dumps(x, sort_keys=True).encode()).hexdigest()[:16]


def contents(snap):
    """Contents of the stores and extents of the land covers."""
    b = lambda l: [(x["n"], x["w"], x["s"], x["i"], x.get("f")) for x in l]
    return sha([[(u["id"], b(u["b"])) for u in snap["units"]], b(snap["sub"])])


def record(ev):
    return sha({k: v for k, v in ev.items() if k not in ("k", "op", "c", "q")})


def rows(ev):
    """One digest per recorded step."""
    return [sha([ev["time"][t], [v[t] for v in ev["subval"]], [v[t] for v in ev["huval"]], [v[t] for v in ev["frval"]]])
            for t in range(len(ev["time"]))]


def events(marks, evs):
    """Trace events; marks: list of (kind, arg) in the order in which the scenario produced them."""
    it = iter(e for e in evs if e["op"] in ("Run", "Record", "Totals", "Snap", "Reset", "Timer?", "Save"))
    tr = []
    for kind, arg in marks:
        if kind == "model":
            s, t = next(it), next(it)
            tr.append(dict({"e": "model", "spin": 0, "acts": False, "s": "s0", "date": t["date"], "d": contents(s["s"])}, **arg))
        elif kind == "Run":
            run, rec, tot, snap = next(it), next(it), next(it), next(it)
            q = [v for n, v in zip(rec["sublab"], rec["subval"]) if n == "outlet"]
            tr.append({"e": "Run", "ok": run.get("ret") is True and "exc" not in run, "d": {
                "q": sha(q), "rec": record(rec), "tot": sha({k: v for k, v in tot.items() if k not in ("k", "c")}),
                "fin": contents(snap["s"]), "rows": rows(rec)}})
        elif kind == "Reset":
            run, snap, t = next(it), next(it), next(it)
            tr.append({"e": "Reset", "date": t["date"], "d": contents(snap["s"])})
        elif kind == "Save":
            next(it)
            tr.append({"e": "Save"})
        else:
            tr.append({"e": "Param", "p": kind})
    return tr


def model_ops(case, state="init", actions=()):
    """A model with its initial state, and the snapshot of it."""
    o = case.ops()
    if state == "init":
        o = o + [["SetInit"] + x[1:] for x in case.st]
    else:
        o = o + [["Save"]]
    return o + list(actions) + [["Snap"], ["Timer?"]]
