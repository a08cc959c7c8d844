------------------------------- MODULE MC_Laws -------------------------------
(* What the laws guarantee, on a grid of contents, parameters and forcing: every point of *)
(* the grid is a state, evaluated in floating point with java/Num.                        *)
EXTENDS Laws, FiniteSets
CONSTANTS Fine
VARIABLE q
X == IF Fine THEN {"0", "1e-9", "1e-6", "0.3", "2", "17", "60", "99.9", "100"} ELSE {"0", "1e-9", "0.3", "17", "100"}
Temp == IF Fine THEN {"-12", "-0.5", "0", "0.5", "1", "14"} ELSE {"-12", "0", "1", "14"}
Pet == {"0", "1.5", "7"}
Small == {"0", "0.4", "1"}
Cap == "100"
TargetC == {"0", "30", "100"}
Types ==
  {"melt:degree_day", "melt:temperature_index", "melt:cemaneige", "refreeze:degree_day", "sublimation:pet", "et:socont", "et:linear",
   "et:power_law", "et:exponential", "et:hbv", "et:open_water", "et:gr4j", "interception:gr4j", "production:gr4j",
   "percolation:gr4j", "infiltration:gr4j", "infiltration:socont", "infiltration:hbv", "runoff:socont", "runoff:hbv",
   "outflow:linear", "outflow:rest", "outflow:threshold", "outflow:snow_holding", "transformation:snow_ice_swat", "capillary:hbv"}
Par(a, b) == [degree_day_factor |-> NMul("8", a), melting_temperature |-> b, melt_factor |-> NMul("4", a),
              radiation_coefficient |-> "0.01", cold_content_factor |-> a, mean_annual_snow |-> "40",
              refreezing_factor |-> a, sublimation_pet_factor |-> a, exponent |-> NAdd("0.1", a), alpha |-> NMul("3", a),
              lp |-> a, et_correction_factor |-> "1", beta |-> NAdd("1", NMul("3", a)), response_factor |-> a,
              capacity |-> NMul("50", a), water_holding_capacity |-> a, north_hemisphere |-> b,
              snow_ice_transformation_basal_acc_coeff |-> NMul("0.1", a), max_capillary_flux |-> a]
Init == q \in [t : Types, x : X, T : Temp, pet : Pet, a : Small, b : {"0", "1"}, c : TargetC]
Next == UNCHANGED q
Env(e, T, pet) == [fo |-> [temperature |-> T, radiation |-> "120"], pet |-> pet, cap |-> Cap, s0 |-> e.c, dep |-> e.x, swe |-> e.c,
           snowy |-> FALSE, tgt |-> <<[c |-> e.c, cap |-> Cap, w |-> "1"]>>, props |-> [slope |-> "20", area |-> "2000", aspect |-> "N"],
           dt |-> "1", doy |-> IF e.b = "0" THEN 20 ELSE 200, sib |-> Par(e.a, e.b), others |-> NMul(e.a, e.x), g |-> Cold([par |-> Par(e.a, e.b)], "-2", [fo |-> [temperature |-> T]])]
P == [type |-> q.t, par |-> Par(q.a, q.b)]
R == Rates(P, q.x, Env(q, q.T, q.pet), 1)[1]
RT(T) == Rates(P, q.x, Env(q, T, q.pet), 1)[1]
RP(pet) == Rates(P, q.x, Env(q, q.T, pet), 1)[1]
RX(x) == Rates(P, x, Env([q EXCEPT !.x = x], q.T, q.pet), 1)[1]
Le(a, b) == NLeqT(a, b, "1e-9")
In(s) == q.t \in s
Melts == {"melt:degree_day", "melt:temperature_index", "melt:cemaneige"}
ETs == {"et:socont", "et:linear", "et:power_law", "et:exponential", "et:hbv", "et:open_water", "interception:gr4j", "et:gr4j"}

(* no flux is negative, none comes from an empty store *)
Sign == Le(0, R) /\ NFinite(R)
EmptyGivesNothing == NLeq(q.x, "1e-8") => NLeq(R, 0)
(* melt and refreezing exclude each other; both stop at the melting temperature *)
Gate == /\ In(Melts) => (NLeq(q.T, q.b) => NLeq(R, 0))
        /\ In({"refreeze:degree_day"}) => (NLeq(q.b, q.T) => NLeq(R, 0))
MeltGrows == In(Melts \ {"melt:cemaneige"}) => \A T \in Temp : NLeq(q.T, T) => Le(R, RT(T))
(* evaporation stays below the demand, and grows with it and with the content *)
Demand == In(ETs) => Le(R, q.pet)
DemandGrows == In(ETs) => \A p \in Pet : NLeq(q.pet, p) => Le(R, RP(p))
ContentGrows == In((ETs \ {"et:gr4j"}) \cup {"runoff:hbv", "runoff:socont", "outflow:linear", "outflow:threshold", "outflow:snow_holding",
                    "percolation:gr4j", "infiltration:gr4j", "infiltration:socont", "infiltration:hbv"}) =>
                \A x \in X : NLeq(q.x, x) => Le(R, RX(x))
(* a part of what is there *)
Partial == In({"infiltration:gr4j", "infiltration:socont", "infiltration:hbv", "interception:gr4j", "percolation:gr4j", "runoff:socont",
               "outflow:linear", "outflow:rest", "outflow:threshold", "outflow:snow_holding", "et:open_water"}) => Le(R, q.x)
(* infiltration never overfills, and stops when the soil is full *)
Fills == /\ In({"infiltration:gr4j"}) => Le(NAdd(q.c, R), Cap)
         /\ In({"infiltration:gr4j", "infiltration:socont", "infiltration:hbv", "capillary:hbv"}) => (q.c = Cap => Le(R, 0))
(* the production store of GR4J: what arrives is stored, evaporated or passed on *)
Production == In({"production:gr4j"}) =>
  LET s1 == NSub(NAdd(q.c, q.x), R)
      es == Rates([P EXCEPT !.type = "et:gr4j"], q.x, Env(q, q.T, q.pet), 1)[1]
  IN NLt("1e-8", q.x) => /\ Le(es, s1)
                         /\ Le(0, NSub(s1, es))
Rest == In({"outflow:rest"}) => (NLt("1e-8", q.x) => NClose(NAdd(R, NMul(q.a, q.x)), q.x, "1e-9"))
(* states the model has to reach *)
Never1 == ~(In(Melts) /\ NLt("20", R))
Never2 == ~(In({"runoff:socont"}) /\ NLt(0, R) /\ NLt(R, q.x))
=============================================================================
