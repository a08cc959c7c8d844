------------------------------ MODULE Partition ------------------------------
(* How the precipitation of a unit is split into rain and snow, and handed to its covers. *)
EXTENDS Integers, Sequences, Num

(* fraction of the precipitation that is solid: type of the transition, its parameters *)
(* (par), the forcing fo and the elevation of the unit                                  *)
LinearSolid(t, a, b) == IF NLeq(t, a) THEN 1 ELSE IF NLeq(b, t) THEN 0 ELSE NDiv(NSub(b, t), NSub(b, a))
Solid(type, par, fo, elevation) ==
  CASE type = "snow_rain:threshold" -> IF NLeq(fo.temperature, par.threshold) THEN 1 ELSE 0
    [] type = "snow_rain:linear" -> LinearSolid(fo.temperature, par.transition_start, par.transition_end)
    [] type = "snow_rain:cemaneige" ->
         IF NLeq("1500", elevation) THEN LinearSolid(fo.temperature, "-1", "3")
         ELSE LET lo == fo.temperature_min
                  hi == NMax(fo.temperature_max, lo)
              IN IF NLeq(hi, 0) THEN 1 ELSE IF NLeq(0, lo) THEN 0 ELSE NDiv(NNeg(lo), NSub(hi, lo))
    [] type = "rain" -> 0
Rain(type, par, fo, elevation) ==
  NMul(NMul(fo.precipitation, NSub("1", Solid(type, par, fo, elevation))), par.rain_correction_factor)
Snow(type, par, fo, elevation) ==
  NMul(NMul(fo.precipitation, Solid(type, par, fo, elevation)), par.snow_correction_factor)
=============================================================================
