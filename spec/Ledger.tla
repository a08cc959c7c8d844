------------------------------- MODULE Ledger -------------------------------
(***************************************************************************)
(* Stores and fluxes of a basin: who gains what when a flux is emitted.     *)
(*                                                                         *)
(* Topology (constant during a behaviour):                                 *)
(*   areas[u]      area of hydro unit u                                    *)
(*   stores[i]     [u, b, kind, type, frac, inf]                           *)
(*                 unit (0: the whole basin), brick name, content kind     *)
(*                 ("water", "snow", "ice"), brick type, whether the store *)
(*                 lies on a land cover, whether it is inexhaustible       *)
(*   flows[j]      [u, b, type, proc, tgt, c, recv]                        *)
(*                 unit, brick, brick type, process type ("" for a         *)
(*                 splitter), target name, kind carried, receiving unit of *)
(*                 a lateral flux (0 otherwise)                            *)
(* An amount is always observed in the target's own depth (mm over the     *)
(* area of the target).                                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Num, TLC

SnowWaterProcesses == {"outflow:snow_holding", "refreeze:degree_day"}
IceProcesses == {"melt:degree_day", "melt:degree_day_aspect", "melt:temperature_index"}

(* the content a process draws from *)
SourceKind(btype, ptype) ==
  CASE btype = "snowpack" -> IF ptype \in SnowWaterProcesses THEN "water" ELSE "snow"
    [] btype = "glacier" -> IF ptype \in IceProcesses THEN "ice" ELSE "water"
    [] OTHER -> "water"

IndexOf(stores, u, b, k) ==
  LET s == {i \in 1..Len(stores) : stores[i].u = u /\ stores[i].b = b /\ stores[i].kind = k}
  IN IF s = {} THEN 0 ELSE CHOOSE i \in s : TRUE
(* a target is looked up in the unit first, then in the basin *)
TargetIndex(stores, u, b, k) ==
  LET i == IndexOf(stores, u, b, k) IN IF i # 0 THEN i ELSE IndexOf(stores, 0, b, k)

OUTLET == -1
ATMOSPHERE == -2
SPLITTER == -3
Resolve(stores, f) ==
  LET src == IF f.proc = "" THEN 0 ELSE IndexOf(stores, f.u, f.b, SourceKind(f.type, f.proc))
      tgt == CASE f.tgt = "" -> ATMOSPHERE
               [] f.tgt = "outlet" -> OUTLET
               [] f.tgt = "#splitter" -> SPLITTER
               [] f.recv # 0 -> IndexOf(stores, f.recv, f.tgt, f.c)
               [] OTHER -> TargetIndex(stores, f.u, f.tgt, f.c)
  IN [src |-> src, tgt |-> tgt, u |-> f.u, recv |-> f.recv]

RECURSIVE Areas(_, _)
Areas(a, n) == IF n = 0 THEN 0 ELSE NAdd(Areas(a, n - 1), a[n])

IsZero(x) == NLeq(x, 0) /\ NLeq(0, x)

(* Depth in the target per depth lost by the source: numerator and denominator.   *)
(* T.one is the fraction of a cover that fills its unit (1 for recorded fractions, *)
(* the number of fraction steps in the design model).                              *)
FlowFraction(T, fl, fr) == LET s == T.stores[fl.src] IN IF s.frac THEN fr[fl.src] ELSE T.one
Narrows(T, fl) == T.stores[fl.src].frac /\ ~T.stores[fl.tgt].frac
Plain(fl) == fl.tgt = ATMOSPHERE \/ fl.u = 0
WNum(T, fl, fr) ==
  CASE Plain(fl) -> 1
    [] fl.tgt = OUTLET -> NMul(T.areas[fl.u], FlowFraction(T, fl, fr))
    [] fl.tgt = SPLITTER -> FlowFraction(T, fl, fr)
    [] fl.recv # 0 -> IF IsZero(fr[fl.tgt]) THEN 0 ELSE NMul(T.areas[fl.u], FlowFraction(T, fl, fr))
    [] OTHER -> NMul(IF T.stores[fl.tgt].u = 0 THEN T.areas[fl.u] ELSE 1,
                     IF Narrows(T, fl) THEN FlowFraction(T, fl, fr) ELSE 1)
WDen(T, fl, fr) ==
  CASE Plain(fl) -> 1
    [] fl.tgt = OUTLET -> NMul(T.total, T.one)
    [] fl.tgt = SPLITTER -> T.one
    [] fl.recv # 0 -> NMul(T.areas[fl.recv], fr[fl.tgt])
    [] OTHER -> NMul(IF T.stores[fl.tgt].u = 0 THEN T.total ELSE 1, IF Narrows(T, fl) THEN T.one ELSE 1)

ScaledTopology(areas, stores, flows, one) ==
  LET rs == [j \in 1..Len(flows) |-> Resolve(stores, flows[j])]
  IN [areas |-> areas, stores |-> stores, total |-> Areas(areas, Len(areas)), one |-> one, flows |-> rs,
      outs |-> [i \in 1..Len(stores) |-> SelectSeq([j \in 1..Len(rs) |-> j], LAMBDA j : rs[j].src = i)],
      ins |-> [i \in 1..Len(stores) |-> SelectSeq([j \in 1..Len(rs) |-> j], LAMBDA j : rs[j].tgt = i)],
      outlet |-> SelectSeq([j \in 1..Len(rs) |-> j], LAMBDA j : rs[j].tgt = OUTLET)]

Topology(areas, stores, flows) == ScaledTopology(areas, stores, flows, 1)

(* depth lost by the source of flux j when the target received o[j] *)
Lost(T, j, o, fr) ==
  LET w == WNum(T, T.flows[j], fr) IN
  IF IsZero(w) THEN 0 ELSE NDiv(NMul(o[j], WDen(T, T.flows[j], fr)), w)
Out(T, i, o, fr) == NSum([n \in 1..Len(T.outs[i]) |-> Lost(T, T.outs[i][n], o, fr)])
In(T, i, o) == NSum([n \in 1..Len(T.ins[i]) |-> o[T.ins[i][n]]])

(* the transition: contents after a step in which the fluxes moved o *)
After(T, c, i, o, fr) ==
  IF T.stores[i].inf THEN c[i] ELSE NSub(NAdd(c[i], In(T, i, o)), Out(T, i, o, fr))

(* basin volume (area-weighted) of the contents c and of the fluxes *)
StoreArea(T, i, fr) ==
  LET s == T.stores[i] IN
  NMul(IF s.u = 0 THEN T.total ELSE T.areas[s.u], IF s.frac THEN fr[i] ELSE T.one)
Volume(T, c, fr) == NSum([i \in 1..Len(T.stores) |-> IF T.stores[i].inf THEN 0 ELSE NMul(c[i], StoreArea(T, i, fr))])
OutletDepth(T, o) == NSum([n \in 1..Len(T.outlet) |-> o[T.outlet[n]]])
(* volume released by inexhaustible stores *)
Released(T, o, fr) ==
  NSum([i \in 1..Len(T.stores) |-> IF T.stores[i].inf THEN NMul(NSub(Out(T, i, o, fr), In(T, i, o)), StoreArea(T, i, fr)) ELSE 0])
AtmosphereVolume(T, o, fr) ==
  NSum([j \in 1..Len(T.flows) |->
          IF T.flows[j].tgt = ATMOSPHERE
          THEN NMul(o[j], StoreArea(T, T.flows[j].src, fr)) ELSE 0])
(* water that enters through splitters: amounts delivered to stores and outlet *)
SplitterVolume(T, o, fr) ==
  NSum([j \in 1..Len(T.flows) |->
          IF T.flows[j].src # 0 THEN 0
          ELSE IF T.flows[j].tgt = OUTLET THEN NMul(o[j], NMul(T.total, T.one))
          ELSE IF T.flows[j].tgt > 0 THEN NMul(o[j], StoreArea(T, T.flows[j].tgt, fr)) ELSE 0])
=============================================================================
