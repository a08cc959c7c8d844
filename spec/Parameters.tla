----------------------------- MODULE Parameters -----------------------------
(* Parameters of the components of a model, in every variant of its structure.      *)
(* A variant is a sequence of components [n: name, type, brick: BOOLEAN,            *)
(* par: for the component itself, then for each of its processes, the names of the  *)
(* parameters]. Values: [variant -> component -> level -> parameter].               *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
Covers == {"generic_land_cover", "generic", "ground", "open", "glacier"}
OfType(c, t) == c.brick /\ (c.type = t \/ (t = "land_cover" /\ c.type \in Covers))
(* an item of a request: [by: "name" | "type", s: the name or the type] *)
Named(v, n) == {i \in 1..Len(v) : v[i].n = n}
Matched(v, item) ==
  IF item.by = "type" THEN {i \in 1..Len(v) : OfType(v[i], item.s)}
  ELSE {i \in Named(v, item.s) : \A j \in Named(v, item.s) : i <= j}
Known(vs, item) == item.by = "type" \/ \E k \in 1..Len(vs) : Matched(vs[k], item) # {}
(* the place of the parameter: the component itself, else its first process that has it *)
Levels(c, p) == {x \in 1..Len(c.par) : \E y \in 1..Len(c.par[x]) : c.par[x][y] = p}
Level(c, p) == CHOOSE x \in Levels(c, p) : \A y \in Levels(c, p) : x <= y
Has(vs, item, p) ==
  IF item.by = "type" THEN \A k \in 1..Len(vs) : \A i \in Matched(vs[k], item) : Levels(vs[k][i], p) # {}
  ELSE \E k \in 1..Len(vs) : \E i \in Matched(vs[k], item) : Levels(vs[k][i], p) # {}
(* a request is granted when every item names something that has the parameter *)
Granted(vs, items, p) == items # <<>> /\ \A q \in 1..Len(items) : Known(vs, items[q]) /\ Has(vs, items[q], p)
(* the parameters that a request addresses: <<variant, component, level, index>> *)
Addressed(vs, items, p) ==
  UNION {UNION {{<<k, i, Level(vs[k][i], p), CHOOSE j \in 1..Len(vs[k][i].par[Level(vs[k][i], p)]) : vs[k][i].par[Level(vs[k][i], p)][j] = p>>
                 : i \in {x \in Matched(vs[k], items[q]) : Levels(vs[k][x], p) # {}}} : k \in 1..Len(vs)} : q \in 1..Len(items)}
SetAll(val, where, x) ==
  [k \in 1..Len(val) |-> [i \in 1..Len(val[k]) |-> [lv \in 1..Len(val[k][i]) |-> [j \in 1..Len(val[k][i][lv]) |->
     IF <<k, i, lv, j>> \in where THEN x ELSE val[k][i][lv][j]]]]]
After(vs, val, items, p, x) == IF Granted(vs, items, p) THEN SetAll(val, Addressed(vs, items, p), x) ELSE val
=============================================================================
