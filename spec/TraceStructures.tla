-------------------------- MODULE TraceStructures ---------------------------
(* How the real code built the units of models with variants, and how they run.              *)
(* begin: variants (covers, bricks, splitters: sequences of names); units: covers of each      *)
(* built: was the model accepted                                                              *)
(* unit: k-th unit, its variant, its bricks and splitters, the extent of its covers            *)
(* file: variants recorded in the saved file                                                   *)
(* step: values of a unit in this model (v) and in a model with its variant only (w)           *)
EXTENDS Structures, Num, TLC
VARIABLES l, st, dead
Begin(ev) == [vs |-> [i \in 1..Len(ev.variants) |-> Set(ev.variants[i].covers)], variants |-> ev.variants,
              units |-> [i \in 1..Len(ev.units) |-> Set(ev.units[i])], fr |-> ev.fr, sid |-> [i \in 1..Len(ev.units) |-> 0]]
Checks(s, ev) ==
  CASE ev.e = "built" -> {<<"built if and only if every unit has a variant with its covers", ev.ok = Buildable(s.vs, s.units)>>}
    [] ev.e = "unit" ->
     {<<"one of the variants that fit the unit best", ev.sid \in Fitting(s.vs, s.units[ev.k])>>} \cup
     (IF ev.sid \notin 1..Len(s.vs) THEN {} ELSE
       {<<"exactly the stores of its variant",
          Set(ev.bricks) = Set(s.variants[ev.sid].bricks) /\ Len(ev.bricks) = Cardinality(Set(ev.bricks))>>,
        <<"exactly the splitters of its variant",
          Set(ev.splitters) = Set(s.variants[ev.sid].splitters) /\ Len(ev.splitters) = Cardinality(Set(ev.splitters))>>,
        <<"every cover with its extent",
          \A c \in s.vs[ev.sid] : c \in DOMAIN ev.fr /\ NClose(ev.fr[c], IF c \in DOMAIN s.fr[ev.k] THEN s.fr[ev.k][c] ELSE "0", "0.000000000001")>>})
    [] ev.e = "file" -> {<<"the variants in the saved file", ev.sid = s.sid>>}
    [] ev.e = "step" -> {<<"the unit runs as if its variant were the only one", ev.v = ev.w>>}
    [] OTHER -> {<<"unknown", FALSE>>}
Post(s, ev) == IF ev.e = "unit" THEN [s EXCEPT !.sid[ev.k] = ev.sid] ELSE s
TB == INSTANCE TraceBase
Spec == TB!Spec
=============================================================================
