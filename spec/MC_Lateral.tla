----------------------------- MODULE MC_Lateral -----------------------------
(* Snow on a slope of four units, of which the second one is split between two covers:     *)
(* 1 -> 2 (all), 2 -> 3 (share W) and 2 -> 4 (what remains), 3 -> 4. One unit after the     *)
(* other gives its excess; snow falls for some steps.                                      *)
EXTENDS Lateral, FiniteSets, TLC
CONSTANTS W, Steps, Kind, Frac, Limit, Ground
VARIABLES x, rho, prev, k, fallen, was

Falls == {<<"0", "2">>, <<"30", "-3">>, <<"250", "-12">>}      \* snow, temperature
Slopes == CASE Ground = "steep" -> <<"60", "40", "35", "5">>
            [] Ground = "flat" -> <<"0", "30", "12", "0">>
Packs == 1..5                        \* packs 2 and 3 lie on unit 2
Unit == <<1, 2, 2, 3, 4>>
F == <<"1", Frac, NSub("1", Frac), "1", "1">>
A == <<"1000", "500", "2000", "300">>
Par == [min_slope |-> "10", max_slope |-> "55", coeff |-> "200", exp |-> "-1.998", min_snow_holding_depth |-> "50", max_snow_depth |-> Limit,
        rho_max |-> "450", snow_holding_capacity |-> "200", correction |-> "1", rho_min |-> "100", rho_fresh_max |-> "300",
        rho_settling |-> "0.1", rho_scale |-> "1.2", t_scale |-> "1"]
To(i) == CASE i = 1 -> <<[t |-> 2, w |-> "1"], [t |-> 3, w |-> "1"]>>
           [] i \in {2, 3} -> <<[t |-> 4, w |-> W], [t |-> 5, w |-> NSub("1", W)]>>
           [] i = 4 -> <<[t |-> 5, w |-> "1"]>>
           [] OTHER -> <<>>
AreaOf(i) == NMul(A[Unit[i]], F[i])
Rho(i) == IF Kind = "slide" THEN FreshSnow ELSE rho[i]
Amounts(i, c) ==
  LET rate == IF Kind = "slide" THEN SlideRate(Par, c[i], Slopes[Unit[i]]) ELSE FreyRate(Par, rho[i], c[i], Slopes[Unit[i]])
  IN Spread(Par, Rho(i), rate, [n \in 1..Len(To(i)) |-> [raw |-> c[To(i)[n].t], f |-> F[To(i)[n].t], w |-> To(i)[n].w]])
Give(i, c) ==
  LET a == TLCEval(Amounts(i, c))
      got(t) == NSum([n \in 1..Len(a) |-> IF To(i)[n].t = t THEN NDiv(NMul(a[n], AreaOf(i)), AreaOf(t)) ELSE 0])
  IN TLCEval([t \in Packs |-> IF t = i THEN NSub(c[i], NSum(a)) ELSE NAdd(c[t], got(t))])
RECURSIVE All(_, _)
All(i, c) == IF i > 5 THEN c ELSE All(i + 1, Give(i, c))
Volume(c) == NSum([i \in Packs |-> NMul(c[i], AreaOf(i))])

Init == /\ x = [i \in Packs |-> 0] /\ rho = [i \in Packs |-> FreshSnow] /\ prev = [i \in Packs |-> 0]
        /\ k = 0 /\ fallen = 0 /\ was = [i \in Packs |-> 0]
Next == /\ k < Steps
        /\ \E s \in Falls :
             LET c == TLCEval([i \in Packs |-> NAdd(x[i], s[1])])
                 z == All(1, c)
             IN /\ x' = z
                /\ was' = c
                /\ rho' = [i \in Packs |-> Density(Par, rho[i], prev[i], z[i], s[2], "1")]
                /\ fallen' = NAdd(fallen, NMul(s[1], Volume([i \in Packs |-> "1"])))
        /\ prev' = x'
        /\ k' = k + 1

(* redistribution neither makes nor loses snow *)
Conserved == NClose(Volume(x), fallen, "1e-9")
NonNegative == \A i \in Packs : NLeqT(0, x[i], "1e-9")
(* nothing goes uphill: the highest unit only loses, the lowest one only gains *)
Downhill == NLeqT(x[1], was[1], "1e-9") /\ NLeqT(was[5], x[5], "1e-9")
(* what the slope holds stays *)
Held == \A i \in Packs : LET h == IF Kind = "slide" THEN DepthToSwe(Hold(Par, Slopes[Unit[i]]), FreshSnow) ELSE 0
                         IN NLeqT(NMin(was[i], h), x[i], "1e-9")
(* flat land gives nothing with Frey; the density stays within its bounds *)
Flat == (Kind # "slide" /\ NLeq(Slopes[1], 0)) => NClose(x[1], was[1], "1e-12")
Dense == \A i \in Packs : NLeqT("100", rho[i], "1e-9") /\ NLeqT(rho[i], "450", "1e-9")
NeverMoves == \A i \in Packs : NClose(x[i], was[i], "1e-9")
NeverRefuses == \A i \in Packs : ~Refuses(Par, Rho(i), x[i])
=============================================================================
