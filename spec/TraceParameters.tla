-------------------------- MODULE TraceParameters ---------------------------
(* Requests for parameters, and runs, of the real code.                                      *)
(* begin: variants (vs), values declared (val)                                               *)
(* set: items, parameter p, value x (as a single precision number), granted or not, values    *)
(*      after                                                                                *)
(* update: the model takes the parameters                                                     *)
(* run: what the run gave (got), what a model declared with the values `twin` gave (same)     *)
EXTENDS Parameters, Num
VARIABLES l, st, dead
Begin(ev) == [vs |-> ev.vs, val |-> ev.val, used |-> ev.val]
Next1(s, ev) == After(s.vs, s.val, ev.items, ev.p, ev.x)
(* of a type that no component has: either way *)
Open(s, ev) == \E q \in 1..Len(ev.items) : ev.items[q].by = "type" /\ \A k \in 1..Len(s.vs) : Matched(s.vs[k], ev.items[q]) = {}
Same(a, b) == \A k \in 1..Len(a) : \A i \in 1..Len(a[k]) : \A lv \in 1..Len(a[k][i]) : \A j \in 1..Len(a[k][i][lv]) : a[k][i][lv][j] = b[k][i][lv][j]
Shape(a) == [k \in 1..Len(a) |-> [i \in 1..Len(a[k]) |-> [lv \in 1..Len(a[k][i]) |-> Len(a[k][i][lv])]]]
Equal(a, b) == Shape(a) = Shape(b) /\ Same(a, b)
Checks(s, ev) ==
  CASE ev.e = "set" ->
       {<<"granted if and only if every item has the parameter", ev.ok = Granted(s.vs, ev.items, ev.p) \/ Open(s, ev)>>,
        <<IF ev.ok THEN "the values after the request" ELSE "a refused request changes nothing",
          Equal(ev.after, IF ev.ok THEN Next1(s, ev) ELSE s.val)>>}
    [] ev.e = "update" -> {<<"an update leaves the settings", Equal(ev.after, s.val)>>}
    [] ev.e = "run" ->
       {<<"(the twin is declared with the values in use)", Equal(ev.twin, s.used)>>,
        <<"the run is that of a model declared with these values", ev.got = ev.same>>}
    [] OTHER -> {<<"unknown", FALSE>>}
Post(s, ev) ==
  CASE ev.e = "set" -> [s EXCEPT !.val = ev.after]
    [] ev.e = "update" -> [s EXCEPT !.used = ev.after]
    [] OTHER -> s
TB == INSTANCE TraceBase
Spec == TB!Spec
=============================================================================
