----------------------------- MODULE MC_Routing -----------------------------
(* The GR4J and GR6J routing over every sequence of wet and dry days for several *)
(* parameter sets: the water balance with the exchange, the signs, the shares.    *)
EXTENDS Routing, FiniteSets
CONSTANTS T, Kinds, Net      \* Net: the exchange is part of the balance
X2s == {"-2", "0", "1.5"}
X4s == {"0.3", "1.2", "2.5"}
X5s == {"0", "0.4"}
Rain == {"0", "8", "60"}
VARIABLES p, s, in, out, ex, days
vars == <<p, s, in, out, ex, days>>
Init == /\ \E k \in Kinds, a \in X2s, b \in X4s, c \in X5s : 
             /\ k = "gr4j" => c = "0"
             /\ p = [kind |-> k, x2 |-> a, x3 |-> "30", x5 |-> c, x6 |-> "4", w1 |-> UH1(b), w2 |-> UH2(b)]
        /\ s = GrFresh(p) /\ in = 0 /\ out = 0 /\ ex = 0 /\ days = 0
Next == /\ days < T /\ days' = days + 1 /\ UNCHANGED p
        /\ \E x \in Rain :
             LET n == GrStep(p, s, x)
             IN s' = n /\ in' = NAdd(in, x) /\ ex' = NAdd(ex, n.net)
                /\ out' = NAdd(out, NAdd(n.qr, NAdd(n.qx, n.qd)))
Spec == Init /\ [][Next]_vars
Balance == NClose(NAdd(in, IF Net THEN ex ELSE 0), NAdd(out, GrHeld(s)), "1e-9")
Signs == NLeq(0, s.r) /\ NLeq(0, s.qr) /\ NLeq(0, s.qd) /\ NLeq(0, s.qx) /\ (p.kind = "gr4j" => NLeq(0, s.qx) /\ NLeq(s.x, 0))
(* the release never empties the routing store, and keeps it below its capacity *)
Within == NLt(s.r, p.x3)
(* the shares are positive, sum to one, the second hydrograph is symmetrical when it fills its steps *)
WholeShares == /\ NClose(NSum(p.w1), "1", "1e-12") /\ NClose(NSum(p.w2), "1", "1e-12")
               /\ \A j \in 1..Len(p.w1) : NLeq(0, p.w1[j])
               /\ \A j \in 1..Len(p.w2) : NLeq(0, p.w2[j])
               /\ Len(p.w2) \in {2 * Len(p.w1) - 1, 2 * Len(p.w1)}
Triangles == \A m \in {"0.4", "1", "1.5", "2", "3.7", "6"}, dt \in {"0.25", "1", "2"} :
  LET v == Triangle(m, dt)
  IN /\ NClose(NSum(v), "1", "1e-12")
     /\ \A j \in 1..Len(v) : NLt(0, v[j])
     /\ NLeq(m, dt) => Len(v) = 1
     /\ \A j \in 1..Len(v) : LET k == Len(v) + 1 - j IN NClose(NMul(dt, NOfInt(Len(v))), m, "1e-12") => NClose(v[j], v[k], "1e-12")
Dry == NLeq(0, s.x)
=============================================================================
