-------------------------------- MODULE Num --------------------------------
(***************************************************************************)
(* Numbers of the specification.                                           *)
(*                                                                         *)
(* Every quantity of hydrobricks (depths in mm, fractions, dates in days)  *)
(* is a real number.  The modules of this specification only use the       *)
(* operators below on quantities, so that the same definitions are         *)
(*   - model checked on small integers, with the definitions of this file, *)
(*   - and evaluated on the real numbers recorded from the implementation, *)
(*     with the override java/Num.java: there a quantity is the decimal    *)
(*     string of a double ("0.1"), operators are IEEE-754 arithmetic, and  *)
(*     the override returns an integer whenever both operands are integers *)
(*     (so one class path serves both uses).                               *)
(***************************************************************************)
EXTENDS Integers, Sequences

NAdd(a, b) == a + b
NSub(a, b) == a - b
NMul(a, b) == a * b
NDiv(a, b) == a \div b
NNeg(a) == -a
NAbs(a) == IF a < 0 THEN -a ELSE a
NMin(a, b) == IF a < b THEN a ELSE b
NMax(a, b) == IF a > b THEN a ELSE b
NLeq(a, b) == a <= b
NLt(a, b) == a < b
(* a and b are the same number up to tol, absolutely or relatively. *)
NClose(a, b, tol) == a = b
(* a <= b up to the tolerance. *)
NLeqT(a, b, tol) == a <= b
RECURSIVE NSum(_)
NSum(s) == IF s = <<>> THEN 0 ELSE Head(s) + NSum(Tail(s))
(* sum of element-wise products *)
RECURSIVE NDot(_, _)
NDot(s, t) == IF s = <<>> THEN 0 ELSE Head(s) * Head(t) + NDot(Tail(s), Tail(t))
(* Transcendental functions, float rounding: meaningful with the override only. *)
NExp(a) == a
NLog(a) == a
NPow(a, b) == a
NTanh(a) == a
NSin(a) == a
NCos(a) == a
NAtan(a) == a
NFloor(a) == a
NCeil(a) == a
NF32(a) == a          \* rounded to single precision, as parameters are stored
NIsNaN(a) == FALSE
NFinite(a) == TRUE    \* neither NaN nor infinite
NOfInt(i) == i        \* integer -> quantity
NToInt(a) == a        \* quantity (integral) -> integer
=============================================================================
