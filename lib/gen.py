"""Random hydrobricks configurations: structures, basins, forcing.

Everything is a list of harness operations (see harness/hbdrive.cpp)."""
import datetime

MJD0 = datetime.date(1858, 11, 17)


def mjd(y, m=1, d=1):
    return (datetime.date(y, m, d) - MJD0).days


def civil(n):
    d = MJD0 + datetime.timedelta(days=int(n))
    return d.year, d.month, d.day


def iso(n, secs=None):
    d = (MJD0 + datetime.timedelta(days=int(n))).isoformat()
    if secs is None:
        return d
    return d + " %02d:%02d:%02d" % (secs // 3600, secs % 3600 // 60, secs % 60)


def num(x):
    return repr(float(x))


SOLVERS = ["rk4", "euler_explicit", "heun_explicit", "rk4", "analytic_linear", "implicit_euler", "crank_nicolson",
           "exponential_euler"]
SNOW_MELT = ["melt:degree_day", "melt:degree_day_aspect", "melt:temperature_index", "melt:cemaneige"]


class Structure:
    """Settings operations of one model structure and what it needs from the basin and the forcing."""

    def __init__(self, kind):
        self.kind = kind
        self.ops = []
        self.covers = []          # (name, type)
        self.snow = False
        self.lateral = False
        self.full = False         # the stores start almost full
        self.vars = {"precipitation"}
        self.props = set()
        self.transit = False      # a unit hydrograph holds water
        self.exchange = False     # GR groundwater exchange (opens the balance)
        self.solver_free = False
        self.infinite_ice = False
        self.water = {}           # (where, store) -> capacity, where water may be put before the run
        self.parts = None         # variants of the structure, for units with other land covers

    def op(self, *a):
        self.ops.append(list(a))

    def par(self, r, name, lo, hi):
        self.op("ProcParSet", name, num(round(r.uniform(lo, hi), 3)))


def melt_par(s, r, melt, glacier=False):
    """Parameters of the melt process just added."""
    if melt == "melt:degree_day":
        s.par(r, "degree_day_factor", 1, 9)
        s.par(r, "melting_temperature", -1, 1)
    elif melt == "melt:degree_day_aspect":
        s.par(r, "degree_day_factor_n", 1, 5)
        s.par(r, "degree_day_factor_s", 3, 9)
        s.par(r, "degree_day_factor_ew", 2, 7)
        s.props.add("aspect")
    elif melt == "melt:temperature_index":
        s.par(r, "melt_factor", 1, 5)
        s.par(r, "radiation_coefficient", 0, 0.02)
        s.vars.add("radiation")
    elif melt == "melt:cemaneige":
        s.par(r, "degree_day_factor", 1, 9)
        s.par(r, "cold_content_factor", 0.05, 0.95)
        s.par(r, "mean_annual_snow", 50, 400)
    if melt != "melt:degree_day" and r.random() < .6:
        s.par(r, "melting_temperature", -1, 1)
    s.vars.add("temperature")


def et_par(s, r, kind):
    """Parameters of the evapotranspiration just added."""
    if kind == "et:power_law" and r.random() < .7:
        s.par(r, "exponent", .1, 3)
    elif kind == "et:exponential" and r.random() < .7:
        s.par(r, "alpha", .2, 6)
    elif kind == "et:hbv" and r.random() < .5:
        s.par(r, "et_correction_factor", .5, 1.5)


def pick_covers(r, glaciers, grounds=0):
    covers = [("ground", "generic_land_cover")]
    names = ["glacier", "glacier_ice", "glacier_debris"]
    for i in range(glaciers):
        covers.append((names[i if glaciers == 1 else i + 1], "glacier"))
    for i in range(grounds):
        covers.append((["forest", "meadow"][i], "generic_land_cover" if i == 0 else "open"))
    return covers


def snow_block(s, r, withrain=None, melt=None, retention=None, refreeze=None, sublim=None, redist=None):
    """Snowpacks over every land cover declared so far."""
    melt = melt or r.choice(SNOW_MELT[:1] * 3 + SNOW_MELT)
    retention = r.random() < .35 if retention is None else retention
    s.snow = True
    if retention:
        s.op("SnowpacksWR", melt, "outflow:snow_holding", bool(r.random() < .5 if withrain is None else withrain))
    else:
        s.op("Snowpacks", melt)
    for c, _ in s.covers:
        s.op("SelBrick", c + "_snowpack")
        s.op("SelProcess", "melt")
        melt_par(s, r, melt)
        if retention:
            s.op("SelProcess", "meltwater")
            s.par(r, "water_holding_capacity", 0, 0.3)
    if retention and melt == "melt:degree_day" and (r.random() < .7 if refreeze is None else refreeze):
        s.op("Refreeze", "refreeze:degree_day")
        for c, _ in s.covers:
            s.op("SelBrick", c + "_snowpack")
            s.op("SelProcess", "refreeze")
            s.par(r, "refreezing_factor", 0.02, 0.9)
    if (r.random() < .25 if sublim is None else sublim):
        k = r.choice(["sublimation:constant", "sublimation:pet"])
        s.op("Sublim", k)
        for c, _ in s.covers:
            s.op("SelBrick", c + "_snowpack")
            s.op("SelProcess", "sublimation")
            if k.endswith("pet"):
                s.par(r, "sublimation_pet_factor", 0, 0.5)
                s.vars.add("pet")
            else:
                s.par(r, "sublimation_rate", 0, 1.5)
    if any(t == "glacier" for _, t in s.covers) and r.random() < .35:
        k = r.choice(["transformation:snow_ice_constant", "transformation:snow_ice_swat"])
        s.op("SnowIce", k)
        for c, t in s.covers:
            if t == "glacier" and r.random() < .7:
                s.op("SelBrick", c + "_snowpack")
                s.op("SelProcess", "snow_ice_transfo")
                if k.endswith("constant"):
                    s.par(r, "snow_ice_transformation_rate", 0, 2)
                else:
                    s.par(r, "snow_ice_transformation_basal_acc_coeff", 0, .01)
                    s.op("ProcParSet", "north_hemisphere", r.choice(["0", "1"]))
    redist = (r.choice([None, None, None, "transport:snow_slide", "transport:snow_redistribution_frey",
                        "transport:snow_redistribution_frey_dynamic"]) if redist is None else redist)
    if redist:
        skip = r.random() < .3
        s.op("SnowRedist", redist, skip)
        s.lateral = True
        s.props.add("slope")
        for c, t in s.covers:
            if r.random() < .6 and not (skip and t == "glacier"):
                s.op("SelBrick", c + "_snowpack")
                s.op("SelProcess", "snow_redistribution")
                redist_par(s, r, redist)
    return retention


def redist_par(s, r, kind):
    """Parameters of the lateral redistribution."""
    if r.random() < .5:
        s.op("ProcParSet", "max_snow_depth", r.choice(["0", "150", "600", "1500"]))
    if kind.endswith("slide"):
        s.par(r, "coeff", 20, 1500)
        s.par(r, "exp", -2.1, -1.4)
        s.par(r, "min_slope", 5, 25)
        s.par(r, "max_slope", 30, 70)
        s.par(r, "min_snow_holding_depth", 0, 150)
        return
    s.par(r, "correction", .3, 3)
    s.par(r, "snow_holding_capacity", 0, 250)
    s.par(r, "rho_max", 320, 600)
    if kind.endswith("frey"):
        s.par(r, "snow_density", 80, 420)
        return
    s.par(r, "rho_min", 50, 150)
    s.par(r, "rho_fresh_max", 160, 310)
    s.par(r, "rho_settling", 0, .5)
    s.par(r, "rho_scale", .5, 3)
    s.par(r, "t_scale", -1, 2)


SPLITTERS = ["snow_rain:linear", "snow_rain:linear", "snow_rain:threshold", "snow_rain:cemaneige"]


def precip(s, r, snow, kind=None):
    if snow:
        k = kind or r.choice(SPLITTERS)
        s.op("PrecipSplitters", True, k)
        s.vars.add("temperature")
        if k == "snow_rain:cemaneige":
            s.vars |= {"temperature_min", "temperature_max"}
            s.props.add("elevation")
        elif k == "snow_rain:linear":
            s.op("SelSplitter", "snow_rain_transition")
            a = round(r.uniform(-2, 1), 2)
            s.op("SplParSet", "transition_start", num(a))
            s.op("SplParSet", "transition_end", num(a + round(r.uniform(0.5, 4), 2)))
        else:
            s.op("SelSplitter", "snow_rain_transition")
            s.op("SplParSet", "threshold", num(round(r.uniform(-1, 2), 2)))
    else:
        s.op("PrecipSplitters", False)


def socont(r, glaciers=None, soils=None, solver=None, **kw):
    s = Structure("socont")
    glaciers = r.choice([0, 1, 2]) if glaciers is None else glaciers
    soils = r.choice([1, 2]) if soils is None else soils
    s.covers = pick_covers(r, glaciers)
    solver = solver or r.choice(SOLVERS)
    s.op("LogAll", True)
    s.op("Solver", solver)
    precip(s, r, True, kw.pop("splitter", None))
    for n, t in s.covers:
        s.op("LandCover", n, t)
    snow_block(s, r, **kw)
    melt = r.choice(SNOW_MELT[:3])
    for n, t in s.covers:
        if t == "glacier":
            s.op("SelBrick", n)
            s.op("Process", "outflow_rain_snowmelt", "outflow:direct", "glacier_area_rain_snowmelt_storage")
            s.op("BrickPar", "no_melt_when_snow_cover", "1")
            if r.random() < .5:
                s.op("BrickPar", "infinite_storage", "1")
                s.infinite_ice = True
            s.op("Process", "melt", melt, "glacier_area_icemelt_storage")
            melt_par(s, r, melt)
            s.op("Inst")
    for b in ("glacier_area_rain_snowmelt_storage", "glacier_area_icemelt_storage"):
        s.op("SubBrick", b, "storage")
        s.op("Process", "outflow", "outflow:linear", "outlet")
        s.par(r, "response_factor", 0.05, 0.9)
    s.op("SelBrick", "ground")
    s.op("Process", "infiltration", "infiltration:socont", "slow_reservoir")
    s.op("Process", "runoff", "outflow:rest", "surface_runoff")
    s.op("Static")
    s.op("HuBrick", "slow_reservoir", "storage")
    s.op("BrickPar", "capacity", num(round(r.choice([r.uniform(5, 60), r.uniform(100, 600)]), 2)))
    s.op("Process", "et", "et:socont", "")
    s.vars.add("pet")
    s.op("Process", "outflow", "outflow:linear", "outlet")
    s.par(r, "response_factor", 0.01, 0.6)
    if soils == 2:
        s.op("Process", "percolation", "percolation:constant", "slow_reservoir_2")
        s.par(r, "percolation_rate", 0.05, 8)
    s.op("Process", "overflow", "overflow", "outlet")
    if soils == 2:
        s.op("HuBrick", "slow_reservoir_2", "storage")
        s.op("Process", "outflow", "outflow:linear", "outlet")
        s.par(r, "response_factor", 0.005, 0.2)
    s.op("HuBrick", "surface_runoff", "storage")
    if r.random() < .5:
        s.op("Process", "runoff", "runoff:socont", "outlet")
        s.par(r, "beta", 100, 3000)
        s.props.add("slope")
    else:
        s.op("Process", "outflow", "outflow:linear", "outlet")
        s.par(r, "response_factor", 0.3, 0.95)
    s.op("Log", "outlet")
    return s


def gr(r, kind=None, discrete=None, solver=None, exchange=None, snow=None):
    kind = kind or r.choice(["gr4j", "gr6j"])
    discrete = (r.random() < .6) if discrete is None else discrete
    s = Structure(kind + ("d" if discrete else "s"))
    s.solver_free = discrete
    s.transit = True
    s.covers = [("ground", "generic_land_cover")]
    s.vars |= {"pet"}
    s.op("LogAll", True)
    s.op("Solver", solver or r.choice(SOLVERS))
    precip(s, r, False)
    s.op("LandCover", "ground", "generic_land_cover")
    s.op("SelBrick", "ground")
    s.op("Process", "interception", "interception:gr4j", "")
    s.op("Process", "throughfall", "outflow:rest", "production_store" if discrete else "ground_soil")
    s.op("Inst")
    if not discrete:
        s.op("HuBrick", "ground_soil", "storage")
        s.op("Process", "production", "infiltration:gr4j", "production_store")
        s.op("Process", "runoff", "outflow:rest", "uh_input")
    s.op("HuBrick", "production_store", "storage")
    s.op("BrickPar", "capacity", num(round(r.uniform(50, 800), 2)))
    if discrete:
        s.op("Process", "production", "production:gr4j", "uh_input")
    else:
        s.op("Process", "percolation", "percolation:gr4j", "uh_input")
    s.op("Process", "et", "et:gr4j", "")
    if discrete:
        s.op("Direct")
    s.op("HuBrick", "uh_input", "storage")
    s.op("Process", "routing", "routing:" + kind, "outlet")
    ex = (r.choice([0, 0, 1]) if exchange is None else exchange)
    s.exchange = bool(ex)
    if ex:
        s.par(r, "exchange_factor", -3, 3)
    s.par(r, "routing_capacity", 10, 300)
    s.par(r, "uh_base_time", 0.6, 6)
    if kind == "gr6j":
        if ex:
            s.par(r, "exchange_threshold", -0.5, 1)
        s.par(r, "exp_store_coeff", 1, 20)
    if discrete:
        s.op("Direct")
    s.op("Log", "outlet")
    return s


def hbv(r, snow=None, canopy=None, solver=None, covers=None, **kw):
    s = Structure("hbv")
    snow = (r.random() < .7) if snow is None else snow
    canopy = (snow and r.random() < .4) if canopy is None else canopy
    s.covers = covers or ([("ground", "generic_land_cover")] if r.random() < .5 else
                          [("ground", "generic_land_cover"), ("forest", "generic_land_cover")])
    s.op("LogAll", True)
    s.op("Solver", solver or r.choice(SOLVERS))
    precip(s, r, snow, kw.pop("splitter", None))
    for n, t in s.covers:
        s.op("LandCover", n, "generic_land_cover" if t == "forest" and r.random() < 0 else t)
    if canopy and len(s.covers) > 1:
        c = s.covers[1][0]
        s.op("Canopy", c, c)     # the throughfall falls on the cover
        s.op("SelBrick", c + "_canopy")
        s.op("SelProcess", "throughfall")
        s.par(r, "capacity", 0.5, 4)
        s.vars.add("pet")
    if snow:
        kw.setdefault("retention", True)
        kw.setdefault("redist", "")
        snow_block(s, r, **kw)
    for c, _ in s.covers:
        s.op("SelBrick", c)
        s.op("Process", "infiltration", "infiltration:hbv", "soil_moisture")
        s.par(r, "beta", 1, 4)
        s.op("Process", "recharge", "outflow:rest", "upper_zone")
        s.op("Static")
    s.op("HuBrick", "upper_zone", "storage")
    if r.random() < .6:
        s.op("Process", "capillary", "capillary:hbv", "soil_moisture")
        s.par(r, "max_capillary_flux", 0, 2)
    s.op("Process", "percolation", "percolation:constant", "lower_zone")
    s.par(r, "percolation_rate", 0.1, 5)
    s.op("Process", "runoff", "runoff:hbv", "routing")
    s.par(r, "response_factor", 0.01, 0.3)
    s.par(r, "alpha", 0, 1)
    s.op("HuBrick", "lower_zone", "storage")
    s.op("Process", "outflow", "outflow:linear", "routing")
    s.par(r, "response_factor", 0.005, 0.2)
    s.op("HuBrick", "soil_moisture", "storage")
    s.op("BrickPar", "capacity", num(round(r.uniform(40, 400), 2)))
    s.op("Process", "et", "et:hbv", "")
    s.par(r, "lp", 0.3, 1)
    et_par(s, r, "et:hbv")
    s.vars.add("pet")
    s.op("Process", "overflow", "overflow", "routing")
    s.op("HuBrick", "routing", "storage")
    s.op("Process", "routing", "routing:hbv", "outlet")
    s.par(r, "maxbas", 1, 6)
    s.transit = True
    s.op("Log", "outlet")
    return s


ET = ["et:socont", "et:open_water", "et:linear", "et:power_law", "et:exponential"]


def cascade(r, n=None, solver=None, snow=False, cap=None, et=None, splitter=None, glaciers=0, first_cap=True,
            covers=None, canopy=(), tight=False, **snow_kw):
    """Covers feeding a chain of linear stores, with overflow and evaporation variants (tight: stores that start almost
    full and hold back the water of those above)."""
    s = Structure("cascade")
    s.full = tight
    n = n or r.choice([1, 2, 3])
    s.covers = covers or pick_covers(r, glaciers, r.choice([0, 1]))
    s.op("LogAll", True)
    solver = solver or r.choice(SOLVERS)
    # a full store may also hold back the water of the one above (the sequential solvers do not support that)
    hold = solver in ("rk4", "euler_explicit", "heun_explicit")
    s.op("Solver", solver)
    precip(s, r, snow, splitter)
    for nm, t in s.covers:
        s.op("LandCover", nm, t)
    for c in canopy:
        s.op("Canopy", c, c)
        s.op("SelBrick", c + "_canopy")
        s.op("SelProcess", "throughfall")
        s.par(r, "capacity", 0.5, 4)
        s.vars.add("pet")
    if snow:
        snow_block(s, r, **dict(dict(redist=""), **snow_kw))
    sub = r.random() < .4
    # water that bypasses the land cover
    for nm, t in s.covers:
        if snow and r.random() < .25:
            s.op("SelBrick", nm + "_snowpack")
            s.op("Process", "drain", "melt:degree_day", r.choice(["store_1", "outlet"] + ["basin_store"] * sub))
            melt_par(s, r, "melt:degree_day")
        if nm in canopy and r.random() < .3:
            s.op("SelBrick", nm + "_canopy")
            s.op("Process", "drip", "outflow:linear", r.choice(["store_1", "outlet"] + ["basin_store"] * sub))
            s.par(r, "response_factor", 0.02, 0.8)
    for nm, t in s.covers:
        s.op("SelBrick", nm)
        s.op("Process", "outflow", "outflow:direct", "store_1")
        if t == "glacier":
            if snow:
                s.op("BrickPar", "no_melt_when_snow_cover", "1")
            s.op("Process", "melt", "melt:degree_day", "store_1")
            melt_par(s, r, "melt:degree_day")
            s.op("Inst")
    caps = [(r.random() < .5) if cap is None else cap for _ in range(n)]
    # stores without overflow; what the store above cannot keep nor pass on has to go elsewhere
    held = [hold and i > 0 and caps[i] and r.random() < (.9 if tight else .5) for i in range(n)] + [False]
    for i in range(1, n + 1):
        s.op("HuBrick", "store_%d" % i, "storage")
        capped = caps[i - 1]
        if capped and (i > 1 or first_cap):
            cap_i = round(r.uniform(10, 120), 2)
            s.op("BrickPar", "capacity", num(cap_i))
            if tight:
                s.water["unit", "store_%d" % i] = cap_i
        if r.random() < .6 and et is not False:
            e = r.choice(ET) if capped and (i > 1 or first_cap) else "et:open_water"
            s.op("Process", "et", e, "")
            et_par(s, r, e)
            s.vars.add("pet")
        tgt = "store_%d" % (i + 1) if i < n else ("basin_store" if sub else "outlet")
        s.op("Process", "outflow", "outflow:linear", tgt)
        s.par(r, "response_factor", 0.02, 0.8)
        if capped and (i > 1 or first_cap) and not held[i - 1]:
            s.op("Process", "overflow", "overflow", "outlet" if held[i] else tgt)
    if sub:
        s.op("SubBrick", "basin_store", "storage")
        s.op("Process", "outflow", "outflow:linear", "outlet")
        s.par(r, "response_factor", 0.1, 0.8)
    s.op("Log", "outlet")
    return s


def covered(r, generic=True, snow=None, **kw):
    """A cascade under any set of land covers, with canopies, with or without a generic cover."""
    covers = [(r.choice(["open", "ground", "ground", "generic", "generic_land_cover"]), "generic_land_cover")] if generic else []
    pool = [("glacier", "glacier"), ("glacier_debris", "glacier"), ("forest", "generic_land_cover"), ("meadow", "open"),
            ("wetland", "generic_land_cover"), ("forest_edge", "generic_land_cover")]
    covers += r.sample(pool, r.choice([1, 2, 3]) if generic else r.choice([2, 3]))
    snow = r.random() < .75 if snow is None else snow
    canopy = [c for c, t in covers if t != "glacier" and r.random() < (.6 if c == "forest" else .2)]
    return cascade(r, snow=snow, covers=covers, canopy=canopy if snow else (), **kw)


def step_choice(r, s):
    """Length of the time step (the GR models are daily models)."""
    if s.kind.startswith("gr"):
        return dict(step=1, unit="day")
    k = r.choice([(1, "day")] * 5 + [(2, "day"), (3, "day"), (6, "hour"), (1, "hour")])
    return dict(step=k[0], unit=k[1])


def any_structure(r, **kw):
    k = r.choice(["socont"] * 4 + ["gr"] * 2 + ["hbv"] * 3 + ["cascade"] * 2 + ["network"] * 4)
    if k == "network":
        return network(r)
    if k == "socont":
        return socont(r, **kw)
    if k == "gr":
        return gr(r)
    if k == "hbv":
        return hbv(r)
    return cascade(r, snow=r.random() < .5)


def network(r, solver=None, snow=None, covers=None):
    """Any network: covers, stores of the units (some computed directly) and of the basin, each with several processes
    that give to any store further on, to the outlet or to the atmosphere."""
    s = Structure("network")
    s.covers = covers or pick_covers(r, r.choice([0, 0, 1, 2]), r.choice([0, 1, 2]))
    s.op("LogAll", True)
    s.op("Solver", solver or r.choice(SOLVERS))
    snow = r.random() < .6 if snow is None else snow
    precip(s, r, snow)
    for nm, t in s.covers:
        s.op("LandCover", nm, t)
    if snow:
        snow_block(s, r)
    # stores in the order of their declaration: (name, kind, capacity)
    nd, nu, nb = r.choice([0, 0, 1, 2]), r.choice([1, 2, 3, 4]), r.choice([0, 0, 1, 2, 3])
    stores = [("direct_%d" % i, "direct") for i in range(nd)] + [("store_%d" % i, "unit") for i in range(nu)]
    stores += [("basin_%d" % i, "basin") for i in range(nb)]
    stores = [(n, k, round(r.choice([r.uniform(2, 30), r.uniform(30, 300)]), 2) if r.random() < .45 else None) for n, k in stores]
    s.water = {("sub" if k == "basin" else "unit", n): c for n, k, c in stores}

    def give(after, kinds=("direct", "unit", "basin")):
        later = [n for n, k, _ in stores[after:] if k in kinds]
        return r.choice(later) if later and r.random() < .8 else "outlet"

    def linear(name, after):
        s.op("Process", name, "outflow:linear", give(after))
        s.par(r, "response_factor", 0.02, 0.95)

    for nm, t in s.covers:
        s.op("SelBrick", nm)
        if t == "glacier":
            if snow:
                s.op("BrickPar", "no_melt_when_snow_cover", r.choice(["1", "1", "0"]))
            s.op("Process", "melt", "melt:degree_day", give(0))
            melt_par(s, r, "melt:degree_day")
            if r.random() < .4:
                s.op("Inst" if s.ops[-3][3].startswith("direct") else "Static")
        capped = [n for n, k, c in stores if c]
        mark = len(s.ops)
        k = r.random()
        if capped and k < .4:
            s.op("Process", "infiltration", "infiltration:socont", r.choice(capped))
        elif k < .6:
            s.op("Process", "percolation", "percolation:constant", give(0))
            s.par(r, "percolation_rate", 0, 8)
        elif k < .75:
            s.op("Process", "threshold", "outflow:threshold", give(0))
            s.op("ProcParSet", "capacity", num(round(r.uniform(0, 20), 2)))
        if r.random() < .3:
            s.op("Process", "et", "et:open_water", "")
            s.vars.add("pet")
        if r.random() < .3:
            linear("outflow", 0)
        else:
            s.op("Process", "runoff", "outflow:direct" if len(s.ops) == mark and r.random() < .7 else "outflow:rest", give(0))
    for i, (n, kind, cap) in enumerate(stores):
        s.op("SubBrick" if kind == "basin" else "HuBrick", n, "storage")
        if kind == "direct":
            s.op("Direct")
        if cap:
            s.op("BrickPar", "capacity", num(cap))
        if r.random() < .5 and kind != "basin":
            e = r.choice(ET) if cap else "et:open_water"
            s.op("Process", "et", e, "")
            et_par(s, r, e)
            s.vars.add("pet")
        k = r.random()
        if k < .25:
            s.op("Process", "percolation", "percolation:constant", give(i + 1))
            s.par(r, "percolation_rate", 0, 8)
        elif k < .4:
            s.op("Process", "threshold", "outflow:threshold", give(i + 1))
            s.op("ProcParSet", "capacity", num(round(r.uniform(0, 60), 2)))
        elif k < .5:
            linear("fast", i + 1)
        if kind != "direct" or r.random() < .6:
            linear("outflow", i + 1)
        else:
            s.op("Process", "outflow", "outflow:rest", give(i + 1))
        if cap:
            s.op("Process", "overflow", "overflow", give(i + 1))
    s.op("Log", "outlet")
    return s


GENERIC = ("open", "ground", "generic", "generic_land_cover")
CONTEXT = ("SelBrick", "LandCover", "HuBrick", "SubBrick", "SelSubBrick")
NO_CONTEXT = ("Snowpacks", "SnowpacksWR", "Refreeze", "Sublim", "SnowIce", "SnowRedist", "PrecipSplitters", "HuSplitter",
              "SubSplitter", "Log", "Solver", "LogAll")


def without(s, r, gone):
    """The structure without some land covers, with other parameters or the same."""
    v = Structure(s.kind)
    v.covers = [c for c in s.covers if c[0] not in gone]
    mine = lambda b: any(b == c or b in (c + "_snowpack", c + "_canopy") for c in gone)
    brick = None
    other = r.random() < .5
    for o in s.ops:
        if o[0] in CONTEXT:
            brick = o[1]
        elif o[0] in NO_CONTEXT:
            brick = None
        elif o[0] == "Canopy":
            brick = o[1] + "_canopy"
        if brick and mine(brick):
            continue
        if other and o[0] == "ProcParSet" and o[1] in ("response_factor", "degree_day_factor", "percolation_rate", "melt_factor"):
            o = o[:2] + [num(round(float(o[2]) * r.uniform(.6, 1), 4))]
        v.ops.append(o)
    v.snow, v.full, v.water, v.infinite_ice = s.snow, s.full, s.water, s.infinite_ice
    return v


def variants(r, base=None, n=None):
    """Variants of a structure for units with other land covers, in any order; one of them has all the covers."""
    while True:
        mixed = base is None and r.random() < .35
        s = base() if base else r.choice([lambda: covered(r), lambda: socont(r), lambda: network(r), lambda: hbv(r)])()
        if len(s.covers) > 1 and not s.exchange and not (mixed and s.kind != "cascade") and (len(s.covers) > 2 or r.random() < .5):
            break
    names = [c for c, _ in s.covers]
    keep = []
    if len(names) > 2 and r.random() < .5:
        # one within the other: a unit may fit several of them
        k = sorted(r.sample(range(len(names)), len(names) - 1))
        keep = [k] + ([sorted(r.sample(k, len(k) - 1))] if len(k) > 2 else [])
    for _ in range(20):
        k = sorted(r.sample(range(len(names)), r.randint(1, len(names) - 1)))
        if k not in keep and len(keep) < (n or r.choice([2, 2, 3, 4])) - 1:
            keep.append(k)
    parts = [s]
    for k in keep:
        if mixed and not s.lateral:
            sub = any(o[0] == "SubBrick" for o in s.ops)
            while True:
                v = cascade(r, covers=[s.covers[i] for i in k], snow=r.random() < .6, solver=next(o[1] for o in s.ops if o[0] == "Solver"))
                if any(o[0] == "SubBrick" for o in v.ops) == sub:
                    break
            parts.append(v)
        else:
            parts.append(without(s, r, [c for i, c in enumerate(names) if i not in k]))
    r.shuffle(parts)
    m = Structure("variants")
    m.parts = parts
    for i, v in enumerate(parts):
        if i:
            m.op("Structure")
        m.ops += v.ops
        m.vars |= v.vars | s.vars
        m.props |= v.props | s.props
    m.covers = list(s.covers)
    r.shuffle(m.covers)
    # the generic cover stays first
    m.covers.sort(key=lambda c: c[0] not in GENERIC)
    m.snow, m.lateral, m.full = any(v.snow for v in parts), s.lateral, False
    m.transit, m.infinite_ice = any(v.transit for v in parts), any(v.infinite_ice for v in parts)
    return m


def fitting(s, fr):
    """The variant for a unit with these extents."""
    if not s.parts:
        return s
    here = {c for c, x in fr.items() if x}
    sets = [{c for c, _ in v.covers} for v in s.parts]
    fit = [i for i in range(len(sets)) if sets[i] >= here]
    if here in sets:
        return s.parts[sets.index(here)]
    return s.parts[min(fit, key=lambda i: len(sets[i]))] if fit else s.parts[max(range(len(sets)), key=lambda i: len(sets[i]))]


def changing(r, **kw):
    """A structure whose land covers can change."""
    while True:
        s = covered(r, **(dict(kw, snow=True) if kw else {})) if r.random() < .5 else socont(r, **kw) if r.random() < .5 or kw else hbv(r)
        if len(s.covers) > 1 and s.covers[0][0] in GENERIC and not s.exchange:
            return s


def fractions(r, n):
    """n fractions with an exact unit sum (multiples of 1/64), some possibly zero."""
    if n == 1:
        return [1.0]
    cuts = sorted(r.randint(0, 64) for _ in range(n - 1))
    pts = [0] + cuts + [64]
    f = [(b - a) / 64 for a, b in zip(pts, pts[1:])]
    if f[0] == 0 and r.random() < .8:    # usually keep the generic cover
        j = max(range(n), key=lambda i: f[i])
        f[0], f[j] = f[j] / 2, f[j] / 2
    return f


class Basin:
    def __init__(self, r, s, nunits=None, areas=None, fr=None, laterals=None):
        n = nunits or r.choice([1, 2, 2, 3, 4])
        self.units = list(range(1, n + 1)) if r.random() < .4 else r.sample(range(1, r.choice([20, 5000])), n)
        self.ops = []
        self.areas = {}
        self.fr = {}
        asp = ["N", "S", "E", "W"]
        # from plots to the units of a large basin, where the runoff on a slope takes time
        scale = r.choice([1, 1e4] if "slope" in s.props else [1, 1, 1, 1e4])
        for i, u in enumerate(self.units):
            a = areas[i] if areas else r.choice([100.0, 1000.0, round(r.uniform(10, 5e4), 1)]) * scale
            self.areas[u] = a
            self.ops.append(["Unit", u, num(a), num(round(r.uniform(800, 3200), 1))])
            f = fr[i] if fr else fractions(r, len(s.covers))
            if s.parts and not fr and r.random() < .7:
                # the covers of one of the variants
                here = [c for c, _ in r.choice(s.parts).covers]
                f = fractions(r, len(here))
                f = [f[here.index(c)] if c in here else 0.0 for c, _ in s.covers]
            if s.parts and not fr and r.random() < .3:
                # few of the covers
                here = r.sample(s.covers, r.choice([1, 1, 2]) if len(s.covers) > 2 else 1)
                f = fractions(r, len(here))
                f = [f[here.index(c)] if c in here else 0.0 for c in s.covers]
            self.fr[u] = {}
            built = {c for c, _ in fitting(s, {c: x for (c, _), x in zip(s.covers, f)}).covers}
            for (n, t), x in zip(s.covers, f):
                if s.parts and not x and r.random() < .5 and n not in built:
                    continue
                self.ops.append(["Cover", n, t, num(x)])
                self.fr[u][n] = x
            if "elevation" in s.props:
                self.ops.append(["Prop", "elevation", num(round(r.uniform(800, 2800), 1)), "m"])
            if "slope" in s.props:
                sl = round(r.uniform(5, 60), 1)
                self.ops.append(["Prop", "slope", num(sl), "degrees"])
            if "aspect" in s.props:
                self.ops.append(["PropS", "aspect_class", r.choice(asp)])
        if s.lateral:
            us = list(self.units)
            r.shuffle(us)      # the declaration order is not the downhill order
            for i in range(len(us) - 1):
                tg = us[i + 1:]
                k = min(len(tg), r.choice([1, 1, 2]))
                ch = r.sample(tg, k)
                w = [1.0] if k == 1 else [0.25, 0.75]
                for t, x in zip(ch, w):
                    self.ops.append(["Lateral", us[i], t, num(x), ""])


def forcing_values(r, var, n, regime=None):
    out = []
    wet = r.uniform(.2, .9)
    t0 = r.uniform(-8, 12)
    for k in range(n):
        if var == "precipitation":
            x = 0.0 if r.random() > wet else r.choice([r.uniform(0, 3), r.uniform(0, 25), r.uniform(0, 120)])
        elif var == "temperature":
            x = t0 + r.uniform(-6, 6)
        elif var == "temperature_min":
            x = r.uniform(-12, 4)
        elif var == "temperature_max":
            x = r.uniform(-5, 15)      # now and then below the minimum
        elif var == "radiation":
            x = r.uniform(0, 350)
        else:
            x = r.choice([0.0, r.uniform(0, 6)])
        out.append(round(x, 3))
    return out


class Forcing:
    def __init__(self, r, s, basin, start, nsteps, step=1, unit="day", pad=0):
        self.ops = []
        self.values = {}
        per = {"day": 1, "hour": 1 / 24, "minute": 1 / 1440}[unit] * step
        end = start + (nsteps - 1) * per
        for v in sorted(s.vars):
            if r.random() < .5:
                vals = forcing_values(r, v, nsteps)
                self.values[v] = {u: vals for u in basin.units}
                self.ops.append(["TS", v, num(start), num(end), step, unit, [num(x) for x in vals]])
            else:
                m = {u: forcing_values(r, v, nsteps) for u in basin.units}
                self.values[v] = m
                us = r.sample(basin.units, len(basin.units))
                self.ops.append(["TSD", v, num(start), num(end), step, unit, us, [[num(x) for x in m[u]] for u in us]])
        self.ops.append(["Attach"])


def initial_state(r, whole, basin, p=.8):
    """Contents written before the run (through the public state interface)."""
    ops = []
    for u in basin.units:
        s = fitting(whole, basin.fr[u])
        for n, t in s.covers:
            if s.snow and r.random() < p:
                ops.append(["Set", str(u), n + "_snowpack", "snow", num(round(r.choice([0, r.uniform(0, 60), r.uniform(0, 900)]), 2))])
            if t == "glacier" and not s.infinite_ice and r.random() < p:
                ops.append(["Set", str(u), n, "ice", num(round(r.choice([0, r.uniform(0, 40), r.uniform(0, 5000)]), 2))])
        for (where, n), cap in s.water.items():
            if s.full:
                ops.append(["Set", str(u), n, "water", num(round(cap * r.uniform(.8, 1), 2))])
            elif where == "unit" and r.random() < .5:
                ops.append(["Set", str(u), n, "water", num(round(min(cap or 1e9, r.choice([r.uniform(0, 5), r.uniform(0, 300), 1e9 if cap else 0])), 2))])
    for (where, n), cap in (whole.parts or [whole])[0].water.items():
        if where == "sub" and r.random() < .5:
            ops.append(["Set", "sub", n, "water", num(round(min(cap or 1e9, r.uniform(0, 200)), 2))])
    return ops


class Case:
    """A complete runnable model: ops up to and including the attached forcing."""

    def __init__(self, r, s=None, nsteps=None, nunits=None, solver=None, spinup=0, start=None, state=True,
                 step=1, unit="day", sec=0, **bk):
        self.s = s or any_structure(r)
        self.b = Basin(r, self.s, nunits, **bk)
        self.n = nsteps or r.choice([5, 8, 12])
        self.start = start if start is not None else mjd(r.choice([2019, 2020]), r.choice([1, 2, 6, 9, 12]), r.randint(1, 28))
        per = {"day": 86400, "hour": 3600, "minute": 60}[unit] * step
        self.end_s = (self.n - 1) * per
        self.per = per          # seconds per step
        self.sec = sec          # time of day of the start
        e_s = sec + self.end_s
        plain = unit == "day" and not sec
        e = iso(self.start + self.end_s // 86400) if plain else iso(self.start + e_s // 86400, e_s % 86400)
        b0 = iso(self.start) if plain else iso(self.start, sec)
        self.timer = ["Timer", b0, e, step, unit]
        self.f = Forcing(r, self.s, self.b, self.start + sec / 86400 if sec else self.start, self.n, step, unit)
        self.st = initial_state(r, self.s, self.b) if state else []
        self.spinup = spinup

    def ops(self, init=None):
        init = init or ("InitBasin" if self.s.parts else "Init")
        o = list(self.s.ops) + [self.timer]
        if self.spinup:
            o.append(["Spinup", self.spinup])
        return o + self.b.ops + [[init]] + self.f.ops + self.st


def cover_changes(r, s, basin, start, nsteps, n=None):
    """Scheduled changes of the non-generic covers, admissible in any order and from any saved state."""
    items = []
    for u in basin.units:
        fr = basin.fr[u]
        names = [c for c, _ in s.covers[1:] if c in fr]
        if s.parts:
            # with the generic cover, and only what the unit was built with
            here = [c for c, _ in fitting(s, fr).covers]
            names = [c for c in names if c in here and s.covers[0][0] in here and s.covers[0][0] in GENERIC]
        if not names:
            continue
        # a share of the unit for each of them, from the extent of the generic cover
        spare = int(fr.get(s.covers[0][0], 0) * 64)
        room = {}
        last = {c: fr[c] for c in names}
        for c in names:
            x = r.randint(0, spare)
            spare -= x
            room[c] = int(fr[c] * 64) + x
        for d in sorted(r.sample(range(-1, nsteps + 2), min(n or r.choice([1, 2, 3]), nsteps))):
            c = r.choice(names)
            f = r.choice([0, room[c], r.randint(0, room[c]), r.randint(0, room[c])]) / 64
            if r.random() < .35:
                # a small change
                f = min(room[c] / 64, max(0, last[c] + r.choice([-1, 1]) * r.choice([1, 2, 4]) / 1024))
            last[c] = f
            items.append([num(start + d), u, c, num(f * basin.areas[u])])
    return items


def glacier_tables(r, s, basin, cover, rows=None):
    """Areas (row 0: the declared extent) and volumes [m w.e. x m2], decreasing to zero."""
    ids = [u for u in basin.units if basin.fr[u].get(cover, 0) > 0]
    if not ids:
        return None
    rows = rows or r.choice([3, 5, 9])
    areas, vols = [], []
    a0 = [basin.areas[u] * basin.fr[u][cover] for u in ids]
    th = [r.uniform(50, 2000) for _ in ids]
    for k in range(rows):
        x = 1 - k / (rows - 1)
        areas.append([num(a * (x ** .6)) if k else num(a) for a in a0])
        vols.append([num(a * h * x) for a, h in zip(a0, th)])
    return ids, areas, vols


def actions(r, case, p=.6, covers=True):
    """Scheduled actions that suit the structure."""
    s, b = case.s, case.b
    ops = []
    if covers and len(s.covers) > 1 and r.random() < p:
        it = cover_changes(r, s, b, case.start, case.n)
        if it:
            ops.append(["ActLandCover", it])
    gl = [c for c, t in s.covers if t == "glacier"]
    if gl and s.snow and not s.infinite_ice and r.random() < p:
        d = datetime.date.fromordinal(MJD0.toordinal() + case.start + r.randint(1, max(1, case.n - 1)))
        ops.append(["ActSnowToIce", d.month, d.day, r.choice(gl)])
    return ops
