----------------------------- MODULE TraceLedger -----------------------------
(* Recorded steps of the real code as transitions of the ledger.                 *)
(*   begin  the topology (areas, stores, flows) and the mode                     *)
(*   init   contents before the first step                                       *)
(*   step   contents, fractions, flow amounts, capacities, outlet and forcing    *)
(*   moved  contents and fractions after actions at a step boundary                *)
(*   totals recorded totals of the whole run                                     *)
(* mode "store": every store closes;  "basin": the basin closes, with the        *)
(* recorded totals;  "bounds": contents and fluxes stay in their bounds.         *)
EXTENDS Ledger
VARIABLES l, st, dead

Tol == "1e-6"
Zero(T) == [i \in 1..Len(T.stores) |-> 0]
Begin(ev) == IF "stores" \in DOMAIN ev
             THEN [T |-> Topology(ev.areas, ev.stores, ev.flows), m |-> ev, c |-> <<>>, f |-> <<>>, c0 |-> <<>>, f0 |-> <<>>,
                   cz |-> <<>>, fz |-> <<>>, d |-> 0, dz |-> 0,
                   p |-> 0, q |-> 0, a |-> 0, r |-> 0]
             ELSE 0
Shape(T, ev) == Len(ev.c) = Len(T.stores) /\ Len(ev.f) = Len(T.stores)
Flows(T, ev) == Len(ev.o) = Len(T.flows)
Closes(T, c, ev) ==
  \A i \in 1..Len(T.stores) :
    IF T.stores[i].frac /\ IsZero(ev.f[i]) THEN NClose(ev.c[i], c[i], Tol)
    ELSE NClose(ev.c[i], After(T, c, i, ev.o, ev.f), Tol)
(* a cover without area delivers nothing *)
Inert(T, ev) ==
  \A j \in 1..Len(T.flows) :
    LET fl == T.flows[j] IN
    (fl.src # 0 /\ T.stores[fl.src].frac /\ IsZero(ev.f[fl.src])) => IsZero(ev.o[j])
Nonneg(T, ev) ==
  \A i \in 1..Len(T.stores) : (T.stores[i].inf \/ NFinite(ev.c[i])) /\ (T.stores[i].neg \/ NLeqT(0, ev.c[i], "1e-9"))
InCapacity(T, ev) ==
  \A i \in 1..Len(T.stores) : ev.cap[i] = "none" \/ NLeqT(ev.c[i], ev.cap[i], Tol)
FluxSigns(T, ev) == \A j \in 1..Len(T.flows) : NFinite(ev.o[j]) /\ NLeqT(0, ev.o[j], "1e-9")
Precip(T, ev) == NSum([u \in 1..Len(T.areas) |-> NMul(ev.p[u], T.areas[u])])
BasinCloses(T, c, ev) ==
  NClose(NDiv(NSub(Volume(T, ev.c, ev.f), Volume(T, c, ev.f)), T.total),
         NDiv(NSub(NAdd(Precip(T, ev), Released(T, ev.o, ev.f)),
                   NAdd(NMul(ev.outlet, T.total), AtmosphereVolume(T, ev.o, ev.f))), T.total), Tol)
(* what splitters deliver is the precipitation *)
Delivered(T, ev) == NClose(NDiv(SplitterVolume(T, ev.o, ev.f), T.total), NDiv(Precip(T, ev), T.total), Tol)
(* volume of water and snow: land changes carry it along (ice is left to the glacier) *)
Fluid(T, c, f) == NSum([i \in 1..Len(T.stores) |-> IF T.stores[i].kind = "ice" THEN 0 ELSE NMul(c[i], StoreArea(T, i, f))])
(* snow turned into ice stays in the basin *)
Kept(T, c, f, ice) == IF ice THEN Volume(T, c, f) ELSE Fluid(T, c, f)
Near(x, y) == NClose(x, y, "1e-5")

Checks(s, ev) ==
  LET T == s.T
      m == s.m IN
  CASE ev.e = "init" -> {<<"shape", Shape(T, ev)>>}
    [] ev.e = "step" ->
         IF ~(Shape(T, ev) /\ Flows(T, ev)) THEN {<<"shape", FALSE>>}
         ELSE (IF m.mode = "store"
               THEN {<<"stores", Closes(T, s.c, ev)>>,
                     <<"outlet", NClose(ev.outlet, OutletDepth(T, ev.o), Tol)>>,
                     <<"zero-area cover", Inert(T, ev)>>}
               ELSE {}) \cup
              (IF m.mode = "basin"
               THEN {<<"basin balance", BasinCloses(T, s.c, ev)>>,
                     <<"precipitation delivered", Delivered(T, ev)>>}
               ELSE {}) \cup
              (IF m.mode = "bounds"
               THEN {<<"non-negative contents", Nonneg(T, ev)>>, <<"capacity", InCapacity(T, ev)>>,
                     <<"flux signs", FluxSigns(T, ev)>>,
                     <<"discharge", NFinite(ev.outlet) /\ NLeqT(0, ev.outlet, "1e-9")>>}
               ELSE {})
    [] ev.e = "moved" ->
         IF ~Shape(T, ev) THEN {<<"shape", FALSE>>}
         ELSE IF m.mode = "basin"
         THEN {<<"water lost by actions", NClose(NDiv(Kept(T, s.c, s.f, ev.ice), T.total), NDiv(Kept(T, ev.c, ev.f, ev.ice), T.total), Tol)>>}
         ELSE IF m.mode = "bounds" THEN {<<"non-negative contents", Nonneg(T, ev)>>} ELSE {}
    [] ev.e = "totals" ->
         {<<"total discharge", Near(ev.q, NDiv(s.q, T.total))>>,
          <<"total evapotranspiration", Near(ev.et, NDiv(s.a, T.total))>>,
          <<"total storage change",
             Near(NAdd(ev.dw, NAdd(ev.ds, ev.dg)), NDiv(NSub(Volume(T, s.cz, s.fz), Volume(T, s.c0, s.f0)), T.total))>>,
          <<"closing of the totals",
             Near(NAdd(NAdd(ev.q, ev.et), NAdd(ev.dw, NAdd(ev.ds, ev.dg))), NDiv(NAdd(NAdd(s.p, s.r), s.dz), T.total))>>}
    [] OTHER -> {<<"unknown " \o ev.e, FALSE>>}
Post(s, ev) ==
  CASE ev.e = "init" -> [s EXCEPT !.c = ev.c, !.f = ev.f, !.c0 = ev.c, !.f0 = ev.f, !.cz = ev.c, !.fz = ev.f]
    [] ev.e = "moved" -> [s EXCEPT !.c = ev.c, !.f = ev.f,
                                   !.d = IF s.m.mode = "basin" THEN NAdd(s.d, NSub(Volume(s.T, ev.c, ev.f), Volume(s.T, s.c, s.f))) ELSE 0]
    [] ev.e = "step" ->
         IF s.m.mode = "basin"
         THEN [s EXCEPT !.c = ev.c, !.f = ev.f, !.cz = ev.c, !.fz = ev.f, !.dz = s.d, !.p = NAdd(s.p, Precip(s.T, ev)), !.q = NAdd(s.q, NMul(ev.outlet, s.T.total)),
                        !.a = NAdd(s.a, AtmosphereVolume(s.T, ev.o, ev.f)), !.r = NAdd(s.r, Released(s.T, ev.o, ev.f))]
         ELSE [s EXCEPT !.c = ev.c, !.f = ev.f]
    [] OTHER -> s
TB == INSTANCE TraceBase
Spec == TB!Spec
=============================================================================
