------------------------------ MODULE MC_Schemes ------------------------------
(* One store with an outflow k S, or k S^2 / 100, and a constant inflow, advanced by every scheme.       *)
EXTENDS Schemes, Sequences, FiniteSets
CONSTANTS S0, In, K, H
VARIABLES q
Init == q \in [s : S0, in : In, k : K, h : H, square : BOOLEAN]
Next == UNCHANGED q
Q(s) == IF q.square THEN NMul(NDiv(q.k, "100"), NMul(s, s)) ELSE NMul(q.k, s)
F(s) == NSub(q.in, Q(s))
Step(r, h) == NAdd(q.s, NMul(h, r))
Euler == Step(F(q.s), q.h)
Heun == LET a == F(q.s) IN Step(HeunMean(a, F(Step(a, q.h))), q.h)
RK4 == LET a == F(q.s)
           b == F(Step(a, NDiv(q.h, "2.0")))
           c == F(Step(b, NDiv(q.h, "2.0")))
           d == F(Step(c, q.h))
       IN Step(RK4Mean(a, b, c, d), q.h)
(* the linear store has an exact solution; so has the quadratic one without inflow *)
Exact == IF q.square THEN NDiv(q.s, NAdd("1", NMul(NMul(NDiv(q.k, "100"), q.s), q.h))) ELSE LinearEnd(q.s, q.in, q.k, q.h)
HasExact == q.square => NLeq(q.in, 0)
Tangent == LET e == FiniteDifference(q.s, q.in, q.h)
               k == NDiv(NSub(Q(NAdd(q.s, e)), Q(q.s)), e)
           IN TangentEnd(q.s, F(q.s), k, q.h)
Implicit == NDiv(NAdd(q.s, NMul(q.h, q.in)), NAdd("1", NMul(q.k, q.h)))
Crank == NDiv(NAdd(q.s, NMul(q.h, NSub(q.in, NDiv(Q(q.s), "2.0")))), NAdd("1", NDiv(NMul(q.k, q.h), "2.0")))
Err(x) == NAbs(NSub(x, Exact))
Le(a, b) == NLeqT(a, b, "1e-9")

(* with steps that are not too long, a scheme of higher order is closer *)
Short == NLeq(NMul(q.k, q.h), "0.5") /\ (q.square => NLeq(NMul(NMul(NDiv(q.k, "50"), q.s), q.h), "0.5"))
Order == (HasExact /\ Short) => Le(Err(Heun), Err(Euler)) /\ Le(Err(RK4), Err(Heun))
RK4Accuracy == (HasExact /\ Short) => NLeqT(Err(RK4), NMul("0.001", NMax(q.s, NMul(q.in, q.h))), "1e-9")
TangentExact == ~q.square => NClose(Tangent, Exact, "1e-6")
(* unconditional bounds of the schemes for stiff stores *)
Stable == ~q.square => /\ Le(0, Implicit) /\ Le(Implicit, NAdd(q.s, NMul(q.h, q.in)))
                       /\ Le(0, Exact) /\ Le(Exact, NAdd(q.s, NMul(q.h, q.in)))
CrankOrder == (~q.square /\ Short) => Le(Err(Crank), Err(Implicit))
(* two half steps of the exact scheme are a whole one *)
Compose == ~q.square =>
  NClose(LinearEnd(LinearEnd(q.s, q.in, q.k, NDiv(q.h, "2.0")), q.in, q.k, NDiv(q.h, "2.0")), LinearEnd(q.s, q.in, q.k, q.h), "1e-9")
(* the outflow is what closes the balance *)
Closes == HasExact => NClose(NMul(q.h, MeanOut(q.in, q.s, Exact, q.h)), NSub(NAdd(q.s, NMul(q.h, q.in)), Exact), "1e-9")
(* the steady state is kept *)
Steady == (~q.square /\ NClose(q.in, Q(q.s), "1e-12")) => \A x \in {Euler, Heun, RK4, Exact, Tangent, Implicit, Crank} : NClose(x, q.s, "1e-9")
Never == ~(NLt("0.1", NAbs(NSub(Euler, RK4))) /\ ~q.square /\ Short)
=============================================================================
