------------------------------ MODULE MC_Ledger ------------------------------
(* Design model of the ledger: two hydro units of different areas, each with    *)
(* land covers (on a part of the unit) above a store (over the whole unit), a   *)
(* basin store, evaporation, overflow and a lateral flux.  Fluxes are emitted    *)
(* one after the other, in any order and amount, as long as the source holds     *)
(* the water and a capped target can take it (an emission that leaves a capped   *)
(* store above its capacity is followed by its overflow).                        *)
(* Local bookkeeping (every flux is lost once and gained once, rescaled to the   *)
(* area of the target) implies the balance of the basin: Balance.                *)
EXTENDS Ledger
CONSTANTS A1, A2, MaxP, MaxC, Cap
VARIABLES fr, c0, c, o, p, phase
vars == <<fr, c0, c, o, p, phase>>

ONE == 2
S(u, b, f) == [u |-> u, b |-> b, kind |-> "water", type |-> IF f THEN "generic" ELSE "storage", frac |-> f, inf |-> FALSE]
F(u, b, proc, tgt, recv) == [u |-> u, b |-> b, type |-> "storage", proc |-> proc, tgt |-> tgt, c |-> "water", recv |-> recv]
stores == <<S(1, "g", TRUE), S(1, "r", FALSE), S(2, "g", TRUE), S(2, "r", FALSE), S(0, "b", FALSE)>>
flows == <<F(1, "", "", "g", 0), F(2, "", "", "g", 0),
           F(1, "g", "infiltration", "r", 0), F(2, "g", "infiltration", "r", 0), F(1, "g", "slide", "g", 2),
           F(1, "r", "et", "", 0), F(1, "r", "outflow", "b", 0), F(2, "r", "overflow", "outlet", 0), F(2, "r", "outflow", "b", 0),
           F(0, "b", "outflow", "outlet", 0)>>
T == ScaledTopology(<<A1, A2>>, stores, flows, ONE)
I == 1..Len(stores)
J == 1..Len(flows)
Capped == 4      \* the store r of unit 2
Overflow == 8

Init == /\ fr \in {f \in [I -> {1, 2}] : \A i \in I : ~stores[i].frac => f[i] = ONE}
        /\ c0 \in {x \in [I -> 0..1] : TRUE} /\ c = c0 /\ o = [j \in J |-> 0] /\ p = 0 /\ phase = "emit"
(* precipitation: the splitter of a unit gives the same depth to its cover *)
Rain(j, x) == /\ phase = "emit" /\ j \in {1, 2} /\ x \in 1..MaxP /\ o[j] = 0 /\ p + x <= MaxP
              /\ c[T.flows[j].tgt] + x <= MaxC
              /\ c' = [c EXCEPT ![T.flows[j].tgt] = @ + x] /\ o' = [o EXCEPT ![j] = x] /\ p' = p + x
              /\ UNCHANGED <<fr, c0, phase>>
(* a flux: x is lost by the source *)
Emit(j, x) ==
  LET f == T.flows[j]
      y == (x * WNum(T, f, fr)) \div WDen(T, f, fr)
  IN /\ phase = "emit" /\ j \in J \ {1, 2, Overflow} /\ x \in 1..MaxC /\ o[j] = 0
     /\ (x * WNum(T, f, fr)) % WDen(T, f, fr) = 0
     /\ x <= c[f.src]
     /\ f.tgt > 0 => c[f.tgt] + y <= MaxC
     /\ c' = [i \in I |-> c[i] - (IF i = f.src THEN x ELSE 0) + (IF i = f.tgt THEN y ELSE 0)]
     /\ o' = [o EXCEPT ![j] = y]
     /\ UNCHANGED <<fr, c0, p, phase>>
(* the excess over the capacity leaves through the overflow before the step ends *)
Close ==
  LET f == T.flows[Overflow]
      x == NMax(0, c[Capped] - Cap)
      xx == IF (x * WNum(T, f, fr)) % WDen(T, f, fr) = 0 THEN x ELSE x + 1   \* whole depths only, in this model
      ok == xx <= c[Capped] /\ (xx * WNum(T, f, fr)) % WDen(T, f, fr) = 0
  IN /\ phase = "emit"
     /\ ok
     /\ c' = [c EXCEPT ![Capped] = @ - xx]
     /\ o' = [o EXCEPT ![Overflow] = (xx * WNum(T, f, fr)) \div WDen(T, f, fr)]
     /\ phase' = "closed" /\ UNCHANGED <<fr, c0, p>>
Next == Close \/ \E j \in J : \E x \in 1..MaxC : Rain(j, x) \/ Emit(j, x)
Spec == Init /\ [][Next]_vars

RainVolume == NSum([j \in 1..2 |-> o[j] * StoreArea(T, T.flows[j].tgt, fr)])
(* the same identities the recorded steps are checked against *)
Balance == Volume(T, c, fr) - Volume(T, c0, fr) =
           RainVolume - (OutletDepth(T, o) * T.total * ONE + AtmosphereVolume(T, o, fr))
Local == \A i \in I : c[i] = After(T, c0, i, o, fr)
Splitters == SplitterVolume(T, o, fr) = RainVolume
Bounds == \A i \in I : c[i] >= 0
Capacity == phase = "closed" => c[Capped] <= Cap
(* not vacuous: states that must be reachable (checked by their negation in MC_Ledger_reach) *)
Unreached == ~(phase = "closed" /\ o[5] > 0 /\ o[Overflow] > 0)
=============================================================================
