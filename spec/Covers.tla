------------------------------- MODULE Covers -------------------------------
(* The land covers of a hydro unit: their extents, and the water, snow and ice   *)
(* that lie on them, when the extent of one of them changes.                     *)
(*   u.one        the fraction of a cover that fills the unit                    *)
(*   u.fr[c]      fraction of the unit covered by c                              *)
(*   u.w[c][role] depth over the extent of c; roles: "self" (own water), "snow", *)
(*                "snoww" (water in the snowpack), "canopy", "ice"; a cover has  *)
(*                some of them                                                   *)
EXTENDS Integers, Sequences, FiniteSets, Num, TLC

Names(u) == DOMAIN u.fr
Aliases == <<"open", "ground", "generic", "generic_land_cover">>
(* the generic cover gives and takes the area of all changes ("": there is none) *)
Generic(u) ==
  LET p == {i \in 1..Len(Aliases) : Aliases[i] \in Names(u)}
  IN IF p = {} THEN "" ELSE Aliases[CHOOSE i \in p : \A j \in p : i <= j]
RECURSIVE SumOf(_, _)
SumOf(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN NAdd(f[x], SumOf(f, S \ {x}))
Total(fr) == SumOf(fr, DOMAIN fr)
IsZeroQ(x) == NLeqT(x, 0, "1e-13") /\ NLeqT(0, x, "1e-13")
(* a partition of the unit *)
Partition(fr, one, tol) == /\ \A c \in DOMAIN fr : NLeqT(0, fr[c], tol) /\ NLeqT(fr[c], one, tol)
                           /\ NClose(Total(fr), one, tol)

InRange(f, one) == NFinite(f) /\ NLeq(0, f) /\ NLeq(f, one)
(* what the generic cover keeps when cover c gets f *)
Left(u, c, f) == NSub(NAdd(u.fr[Generic(u)], u.fr[c]), f)
(* the change can be made; tol: rounding of the fractions *)
Possible(u, c, f, tol) ==
  /\ c \in Names(u)
  /\ InRange(f, u.one)
  /\ CASE Generic(u) = "" -> NClose(NAdd(NSub(Total(u.fr), u.fr[c]), f), u.one, tol)
       [] Generic(u) = c -> TRUE
       [] OTHER -> NLeqT(0, Left(u, c, f), tol)

NewFr(u, c, f) ==
  LET g == Generic(u) IN
  IF g = "" THEN [u.fr EXCEPT ![c] = f]
  ELSE IF g = c THEN [u.fr EXCEPT ![c] = NSub(u.one, NSub(Total(u.fr), u.fr[c]))]   \* what the others leave
  ELSE [u.fr EXCEPT ![c] = f, ![g] = NMax(0, Left(u, c, f))]

(* the strip of land that changes hands takes along what lies on it *)
Roles(u, c) == DOMAIN u.w[c]
Liquid == {"self", "snoww", "canopy"}
Depth(u, c, r) == IF r \in Roles(u, c) THEN u.w[c][r] ELSE 0
NewW(u, c, f) ==
  LET g == Generic(u)
      fr2 == NewFr(u, c, f)
      same == g = "" \/ g = c \/ IsZeroQ(NSub(f, u.fr[c]))
      don == IF NLt(u.fr[c], f) THEN g ELSE c
      rec == IF don = g THEN c ELSE g
      strip == NSub(fr2[rec], u.fr[rec])
      lost == {r \in Liquid \cap Roles(u, don) : r \notin Roles(u, rec)}   \* goes to the own water of the receiver
      arrives == [r \in Roles(u, rec) |-> NAdd(Depth(u, don, r), IF r = "self" THEN SumOf(u.w[don], lost) ELSE 0)]
  IN IF same THEN u.w
     ELSE [x \in DOMAIN u.w |->
             IF x = rec
             THEN [r \in Roles(u, rec) |-> NDiv(NAdd(NMul(u.w[rec][r], u.fr[rec]), NMul(arrives[r], strip)), fr2[rec])]
             ELSE IF x = don
             THEN [r \in Roles(u, don) |-> IF IsZeroQ(fr2[don]) THEN 0 ELSE u.w[don][r]]
             ELSE u.w[x]]
Change(u, c, f, tol) == IF Possible(u, c, f, tol) THEN [u EXCEPT !.fr = NewFr(u, c, f), !.w = NewW(u, c, f)] ELSE u

(* volumes per area of the unit *)
VolumeOf(u, R) == SumOf([c \in DOMAIN u.w |-> NMul(u.fr[c], SumOf(u.w[c], R \cap Roles(u, c)))], DOMAIN u.w)
=============================================================================
