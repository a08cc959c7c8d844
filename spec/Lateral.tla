------------------------------- MODULE Lateral -------------------------------
(***************************************************************************)
(* Lateral redistribution of snow between units.                            *)
(*                                                                         *)
(* A snowpack gives what it cannot hold on its slope to the snowpacks of    *)
(* the units it is connected to: the share of a connection, then the cover  *)
(* fraction of each receiving snowpack.                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, Num

LMax0(x) == NMax(0, x)
FreshSnow == "250.0"                      \* density of the snow [kg/m3] when it is not tracked
Water == "1000.0"
DepthToSwe(d, rho) == NDiv(NMul(d, rho), Water)

(* snow slides: depth held by the slope [mm] *)
Hold(p, slope) ==
  LET s == NMax(slope, p.min_slope)
      h == IF NLt(p.max_slope, slope) THEN p.min_snow_holding_depth
           ELSE NMul(NMul(p.coeff, NPow(s, p.exp)), "1000.0")
      low == NMax(h, p.min_snow_holding_depth)
  IN IF NLt(0, p.max_snow_depth) THEN NMin(low, p.max_snow_depth) ELSE low
SlideRate(p, swe, slope) == NMin("1000.0", LMax0(NSub(swe, DepthToSwe(Hold(p, slope), FreshSnow))))

(* Frey and Holzmann: a part of what exceeds the holding capacity, the less the denser the snow *)
FreyShare(p, rho, slope) ==
  IF NLeq(p.rho_max, rho) THEN 0
  ELSE NMul(NMul(NDiv(NSub(p.rho_max, rho), p.rho_max), NExp(NNeg(NDiv(rho, p.rho_max)))),
            NDiv(NMax(0, NMin("90.0", slope)), "90.0"))
FreyRate(p, rho, swe, slope) ==
  NMin("1000.0", NMul(NMul(LMax0(NSub(swe, DepthToSwe(p.snow_holding_capacity, rho))), FreyShare(p, rho, slope)), p.correction))

(* density of the snow of a pack *)
FreshDensity(p, t) ==
  LET x == NAdd(NDiv(t, p.rho_scale), p.t_scale)
      sig == NDiv(x, NPow(NAdd("1", NMul(x, x)), "0.5"))
  IN NAdd(NMul(NMul(NSub(p.rho_fresh_max, p.rho_min), NAdd(sig, "1")), "0.5"), p.rho_min)
Settled(p, rho, dt) == NAdd(rho, NMul(NSub(p.rho_max, rho), NMax(0, NMin("1", NMul(p.rho_settling, dt)))))
Density(p, rho, prev, swe, t, dt) ==
  LET fresh == LMax0(NSub(swe, prev))
      old == LMax0(NMin(prev, swe))
  IN IF NLeq(swe, "1e-8") THEN FreshDensity(p, t)
     ELSE NDiv(NAdd(NMul(old, Settled(p, rho, dt)), NMul(fresh, FreshDensity(p, t))), NAdd(old, fresh))

(* a receiver that is overloaded takes nothing *)
Overload(p, rho) == DepthToSwe(NMul("1.5", p.max_snow_depth), rho)
Refuses(p, rho, x) == NLt(0, p.max_snow_depth) /\ NLt(Overload(p, rho), x)
Unsure(p, rho, x) == NLt(0, p.max_snow_depth) /\ NClose(Overload(p, rho), x, "1e-6")
(* tgt[n] = [raw content, fraction f, share w] *)
Spread(p, rho, rate, tgt) ==
  [n \in 1..Len(tgt) |-> IF Refuses(p, rho, tgt[n].raw) THEN 0 ELSE NMul(NMul(rate, tgt[n].w), tgt[n].f)]
=============================================================================
