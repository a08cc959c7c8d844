------------------------------ MODULE Routing -------------------------------
(***************************************************************************)
(* Unit hydrographs and the routing stores of the GR4J, GR6J and HBV models. *)
(*                                                                          *)
(* The water of one time step leaves in the shares w[1], w[2], ... of a unit *)
(* hydrograph, the first one in the same step. What is in transit is a       *)
(* sequence q as long as w: q[j] leaves j steps from now.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, Num, TLC

Fresh(n) == [j \in 1..n |-> 0]
At(q, j) == IF j <= Len(q) THEN q[j] ELSE 0
(* another hydrograph for the water in transit *)
Fit(q, n) == TLCEval([j \in 1..n |-> At(q, j)])
(* due in the step, and left in transit after it *)
Due(w, q, in) == NAdd(q[1], NMul(w[1], in))
Shift(w, q, in) == TLCEval([j \in 1..Len(w) |-> NAdd(At(q, j + 1), NMul(At(w, j + 1), in))])
(* what was due and could not leave is due in the next step *)
Later(q, late) == TLCEval([j \in 1..Len(q) |-> IF j = 1 THEN NAdd(q[1], late) ELSE q[j]])

Max0(x) == NMax(0, x)
(* ------------------------------------------------------- the hydrographs *)
(* shares of a cumulated curve over n steps *)
Shares(C(_), n) == TLCEval([j \in 1..n |-> NSub(C(NOfInt(j)), C(NOfInt(j - 1)))])
Steps(x) == NToInt(NCeil(x))
(* GR: base of x4 steps, and twice as long and symmetrical *)
Base(x4) == IF NLeq(x4, 0) THEN "0.5" ELSE x4
S1(t, x4) == IF NLeq(x4, t) THEN "1" ELSE NPow(NDiv(t, x4), "2.5")
S2(t, x4) == CASE NLeq(NMul("2", x4), t) -> "1"
               [] NLt(t, x4) -> NMul("0.5", NPow(NDiv(t, x4), "2.5"))
               [] OTHER -> NSub("1", NMul("0.5", NPow(NSub("2", NDiv(t, x4)), "2.5")))
UH1(x) == LET x4 == Base(x) IN Shares(LAMBDA t : S1(t, x4), Steps(x4))
UH2(x) == LET x4 == Base(x) IN Shares(LAMBDA t : S2(t, x4), Steps(NMul("2", x4)))
(* HBV: a triangle of a number of days, at least one step *)
Tri(t, m) == LET z == NDiv(t, m)  y == NSub("1", z)
             IN CASE NLeq(m, t) -> "1"
                  [] NLeq(z, "0.5") -> NMul("2", NMul(z, z))
                  [] OTHER -> NSub("1", NMul("2", NMul(y, y)))
Triangle(days, dt) == LET m == NMax("1", NDiv(days, dt)) IN Shares(LAMBDA t : Tri(t, m), Steps(m))
(* ----------------------------------------------------- the routing stores *)
(* release of the routing store *)
Power(r, x3) == NMul(r, NSub("1", NPow(NAdd("1", NPow(NDiv(r, x3), "4")), "-0.25")))
(* release of the exponential store, which may be below zero *)
Clamp(a) == NMax("-33", NMin("33", a))
Bottomless(x, x6) ==
  LET a == Clamp(NDiv(x, x6))
  IN CASE NLt("7", a) -> NAdd(x, NDiv(x6, NExp(a)))
       [] NLt(a, "-7") -> NMul(x6, NExp(a))
       [] OTHER -> NMul(x6, NLog(NAdd(NExp(a), "1")))
Exchange4(r, x2, x3) == IF NLeq(x3, 0) THEN 0 ELSE NMul(x2, NPow(NDiv(r, x3), "3.5"))
Exchange6(r, x2, x3, x5) == IF NLeq(x3, 0) THEN 0 ELSE NMul(x2, NSub(NDiv(r, x3), x5))
(* state of a GR routing: hydrographs a (90 %) and b (10 %), stores r and x *)
GrFresh(p) == [a |-> Fresh(Len(p.w1)), b |-> Fresh(Len(p.w2)), r |-> 0, x |-> 0, qr |-> 0, qx |-> 0, qd |-> 0, net |-> 0]
GrStep(p, s, in) ==
  LET in1 == NMul("0.9", in)  in2 == NMul("0.1", in)
      u1 == Due(p.w1, s.a, in1)  u2 == Due(p.w2, s.b, in2)
      six == p.kind = "gr6j"
      F == IF six THEN Exchange6(s.r, p.x2, p.x3, p.x5) ELSE Exchange4(s.r, p.x2, p.x3)
      r0 == NAdd(s.r, IF six THEN NMul("0.6", u1) ELSE u1)
      r1 == TLCEval(Max0(NAdd(r0, F)))
      qr == TLCEval(IF NLeq(p.x3, 0) THEN 0 ELSE Power(r1, p.x3))
      x1 == IF six THEN NAdd(NAdd(s.x, NMul("0.4", u1)), F) ELSE 0
      qx == TLCEval(IF six THEN Bottomless(x1, p.x6) ELSE 0)
      qd == TLCEval(Max0(NAdd(u2, F)))
  IN [a |-> Shift(p.w1, s.a, in1), b |-> Shift(p.w2, s.b, in2), r |-> TLCEval(NSub(r1, qr)), x |-> TLCEval(NSub(x1, qx)),
      qr |-> qr, qx |-> qx, qd |-> qd,
      net |-> TLCEval(NAdd(NAdd(NSub(r1, r0), NSub(qd, u2)), IF six THEN F ELSE 0))]
GrHeld(s) == NAdd(NAdd(NSum(s.a), NSum(s.b)), NAdd(s.r, s.x))
=============================================================================
