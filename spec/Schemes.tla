------------------------------- MODULE Schemes -------------------------------
(* How the numerical schemes combine the rates of a time step of h days.                 *)
EXTENDS Integers, Num

HeunMean(a, b) == NDiv(NAdd(a, b), "2.0")
RK4Mean(a, b, c, d) == NDiv(NAdd(NAdd(a, NMul(2, b)), NAdd(NMul(2, c), d)), "6.0")
Decay(k, h) == NExp(NNeg(NMul(k, h)))
(* content after h days of an inflow net and of an outflow k S, from s *)
LinearEnd(s, net, k, h) == NAdd(NMul(s, Decay(k, h)), NMul(NDiv(net, k), NSub("1", Decay(k, h))))
(* the same for an outflow linearised around s: net and slope are those at s *)
TangentEnd(s, net, k, h) == NMax(0, NAdd(s, NMul(NDiv(net, k), NSub("1", Decay(k, h)))))
(* mean outflow between two contents *)
MeanOut(in, s, end, h) == NMax(0, NSub(in, NDiv(NSub(end, s), h)))
FiniteDifference(s, in, h) == NMax("0.001", NMul("0.001", NMax(s, NAdd(s, NMul(h, in)))))
=============================================================================
