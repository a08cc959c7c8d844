-------------------------------- MODULE Laws --------------------------------
(***************************************************************************)
(* The laws of the processes: what a process asks of its store.             *)
(*                                                                         *)
(* Rates(p, x, e) is the sequence of the rates [mm/day], one per output, of *)
(* a process p = [type, par] on a store with content x in the environment e *)
(*   fo     forcing of the unit      pet   evaporative demand left           *)
(*   cap    capacity of the store    s0    its content before this step's    *)
(*   dep    instantaneous deposits         deposits                          *)
(*   swe    snow of the snowpack     snowy snow lies on the glacier          *)
(*   tgt    per output: [c, cap, w]  content, capacity and weight of the     *)
(*                                   target                                  *)
(*   props  slope [degrees], aspect, area of the ground  dt, doy  sib        *)
(*   g      cold content of the snowpack, after this step                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, Num

Max0(x) == NMax(0, x)
Ratio(c, cap) == NMax(0, NMin(1, NDiv(c, cap)))
OneMinus(x) == NSub("1", x)

(* degree-day family *)
Excess(e, p) == Max0(NSub(e.fo.temperature, p.par.melting_temperature))
(* the snow deeper than the water left on the ice keeps it from melting *)
Melt(p, e, factor) == NMul(Excess(e, p), factor)
AspectFactor(p, a) ==
  CASE a \in {"N", "north"} -> p.par.degree_day_factor_n
    [] a \in {"S", "south"} -> p.par.degree_day_factor_s
    [] OTHER -> p.par.degree_day_factor_ew
(* cold content of CemaNeige *)
Cold(p, g, e) == NMin(0, NAdd(NMul(p.par.cold_content_factor, g),
                              NMul(OneMinus(p.par.cold_content_factor), NSub(e.fo.temperature, p.par.melting_temperature))))
CemaNeige(p, x, e) ==
  IF NLt(e.g, 0) \/ NLeq(e.fo.temperature, p.par.melting_temperature) THEN 0
  ELSE LET cn == NMul("0.9", p.par.mean_annual_snow)
           cover == IF NLt(0, cn) THEN NMin(1, NDiv(x, cn)) ELSE 1
       IN NMul(NAdd(NMul("0.9", cover), "0.1"), Melt(p, e, p.par.degree_day_factor))

(* GR4J *)
Cube(x) == NMul(x, NMul(x, x))
GrTanh(a, x1) == NTanh(NMin(NDiv(a, x1), "13"))
GrInfiltration(s, pn, x1) ==
  IF NLeq(pn, 0) THEN 0
  ELSE LET r == NDiv(s, x1) w == GrTanh(pn, x1)
       IN NDiv(NMul(x1, NMul(OneMinus(NMul(r, r)), w)), NAdd("1", NMul(r, w)))
GrEvaporation(s, en, x1) ==
  IF NLeq(en, 0) THEN 0
  ELSE LET r == NDiv(s, x1) w == GrTanh(en, x1)
       IN NDiv(NMul(s, NMul(NSub("2", r), w)), NAdd("1", NMul(OneMinus(r), w)))
GrPercolation(s, x1) ==
  LET r == NDiv(s, x1)
      q == NDiv(NMul(r, Cube(r)), "25.62890625")
  IN NMul(s, OneMinus(NPow(NAdd("1", q), "-0.25")))
GrProduction(s0, pn, en, x1) ==
  LET ps == GrInfiltration(s0, pn, x1)
      s1 == NAdd(s0, ps)
      es == GrEvaporation(s1, en, x1)
  IN NAdd(NSub(pn, ps), GrPercolation(NSub(s1, es), x1))

(* inclined plane of GSM-SOCONT *)
Pi == "3.141592653589793"
Tan(d) == LET a == NDiv(NMul(d, Pi), "180.0") IN NDiv(NSin(a), NCos(a))
SocontRunoff(p, x, e) ==
  LET h == NDiv(NMul("2", x), "1000")
      q == NDiv(NMul(p.par.beta, NMul(NPow(Tan(e.props.slope), "0.5"), NPow(h, NDiv("5", "3.0")))), e.props.area)
  IN NMin(NMul(q, "86400000"), x)

Swat(p, x, e) ==
  LET ref == IF NLeq(p.par.north_hemisphere, 0) /\ NLeq(0, p.par.north_hemisphere) THEN 264 ELSE 81
      a == NDiv(NMul(NMul("2", Pi), NOfInt(e.doy - ref)), "365.0")
  IN NMul(NMul(p.par.snow_ice_transformation_basal_acc_coeff, NAdd("1", NSin(a))), x)

One(p, x, e) ==
  CASE p.type = "melt:degree_day" -> Melt(p, e, p.par.degree_day_factor)
    [] p.type = "melt:degree_day_aspect" -> Melt(p, e, AspectFactor(p, e.props.aspect))
    [] p.type = "melt:temperature_index" -> Melt(p, e, NAdd(p.par.melt_factor, NMul(p.par.radiation_coefficient, e.fo.radiation)))
    [] p.type = "melt:cemaneige" -> CemaNeige(p, x, e)
    [] p.type = "refreeze:degree_day" ->
         NMul(NMul(p.par.refreezing_factor, e.sib.degree_day_factor),
              Max0(NSub(e.sib.melting_temperature, e.fo.temperature)))
    [] p.type = "sublimation:constant" -> p.par.sublimation_rate
    [] p.type = "sublimation:pet" -> NMul(e.pet, p.par.sublimation_pet_factor)
    [] p.type = "transformation:snow_ice_constant" -> p.par.snow_ice_transformation_rate
    [] p.type = "transformation:snow_ice_swat" -> Swat(p, x, e)
    [] p.type = "et:socont" -> NMul(e.pet, NPow(Ratio(x, e.cap), "0.5"))
    [] p.type = "et:linear" -> NMul(e.pet, Ratio(x, e.cap))
    [] p.type = "et:power_law" -> NMul(e.pet, NPow(Ratio(x, e.cap), p.par.exponent))
    [] p.type = "et:exponential" -> NMul(e.pet, OneMinus(NExp(NNeg(NMul(p.par.alpha, Ratio(x, e.cap))))))
    [] p.type = "et:hbv" ->
         LET lim == NMul(p.par.lp, e.cap)
             pot == NMul(p.par.et_correction_factor, e.pet)
         IN IF NLeq(lim, 0) THEN pot ELSE NMul(pot, NMin(1, NDiv(x, lim)))
    [] p.type = "et:open_water" -> NMin(e.pet, Max0(NDiv(x, e.dt)))
    [] p.type = "et:gr4j" -> GrEvaporation(NAdd(e.s0, GrInfiltration(e.s0, e.dep, e.cap)), e.pet, e.cap)
    [] p.type = "interception:gr4j" -> NMin(x, e.pet)
    [] p.type = "production:gr4j" -> GrProduction(e.s0, e.dep, e.pet, e.cap)
    [] p.type = "percolation:gr4j" -> GrPercolation(x, e.cap)
    [] p.type = "infiltration:gr4j" -> GrInfiltration(e.tgt[1].c, x, e.tgt[1].cap)
    [] p.type = "infiltration:socont" -> LET r == Ratio(e.tgt[1].c, e.tgt[1].cap) IN NMul(x, OneMinus(NMul(r, r)))
    [] p.type = "infiltration:hbv" -> NMul(x, OneMinus(NPow(Ratio(e.tgt[1].c, e.tgt[1].cap), p.par.beta)))
    [] p.type = "runoff:socont" -> SocontRunoff(p, x, e)
    [] p.type = "runoff:hbv" -> NMul(p.par.response_factor, NPow(x, NAdd("1", p.par.alpha)))
    [] p.type = "outflow:linear" -> NMul(p.par.response_factor, x)
    [] p.type = "outflow:direct" -> x
    [] p.type = "outflow:rest" -> Max0(NSub(x, e.others))
    [] p.type = "outflow:threshold" -> NDiv(Max0(NSub(x, p.par.capacity)), e.dt)
    [] p.type = "outflow:snow_holding" -> NDiv(Max0(NSub(x, NMul(p.par.water_holding_capacity, e.swe))), e.dt)
    [] p.type = "percolation:constant" -> p.par.percolation_rate
    [] p.type = "overflow" -> 0

Capillary(p, e) ==
  [k \in 1..Len(e.tgt) |-> NMul(NMul(p.par.max_capillary_flux, e.tgt[k].w), OneMinus(Ratio(e.tgt[k].c, e.tgt[k].cap)))]

(* an empty store gives nothing *)
Threshold == "1e-8"
Rates(p, x, e, n) ==
  IF NLeq(x, Threshold) \/ e.snowy THEN [k \in 1..n |-> 0]
  ELSE IF p.type = "capillary:hbv" THEN Capillary(p, e)
  ELSE <<One(p, x, e)>>
=============================================================================
