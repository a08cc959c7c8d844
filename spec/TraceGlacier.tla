---------------------------- MODULE TraceGlacier ----------------------------
(* begin: kind ("delta" | "scaling"), A, W (rows by units, W in volume of water), ua: areas of the units  *)
(* init:  the table is given to a model with glacier fractions fr: ok; after it fr2 and ice depths d2     *)
(* apply: fractions and ice depths before (fr, d) and after (fr2, d2) an application                      *)
(* reset: the saved fractions and depths (fr, d) and those after a reset (fr2, d2)                        *)
(* still: the same at a boundary without application                                                    *)
EXTENDS Glacier, TLC, FiniteSets
VARIABLES l, st, dead
TOL == "1e-9"
Begin(ev) == ev
Areas(s, fr) == TLCEval([i \in 1..Len(fr) |-> NMul(fr[i], s.ua[i])])
Vols(s, fr, d) == TLCEval([i \in 1..Len(fr) |-> NMul(NMul(fr[i], s.ua[i]), d[i])])
Near(s, i, x, y, scale) == NLeq(NAbs(NSub(x, y)), NMul(scale, TOL))
AreaIs(s, ar, i, x) == Near(s, i, ar[i], x, s.ua[i])
Zero(x) == NLeq(x, "1e-7")
N(s) == Len(s.A)
Checks(s, ev) ==
  CASE ev.e = "init" ->
     LET ar == Areas(s, ev.fr)  U == 1..Len(ev.fr)
         fits == \A i \in U : Zero(ar[i]) \/ NClose(ar[i], s.A[1][i], TOL)
         room == \A i \in U : NLeqT(s.A[1][i], NMul(ev.free[i], s.ua[i]), TOL)
     IN {<<"accepted when the model has the extent of the first row (or none) and room for it, refused otherwise", ev.ok = (fits /\ room)>>} \cup
        (IF ~ev.ok \/ ~fits \/ ~room THEN {} ELSE
         LET ar2 == Areas(s, ev.fr2)  v2 == Vols(s, ev.fr2, ev.d2) IN
         {<<"the extent of the first row", \A i \in U : AreaIs(s, ar2, i, s.A[1][i])>>,
          <<"the ice of the first row", \A i \in U : NClose(v2[i], IF Zero(s.A[1][i]) THEN NOfInt(0) ELSE s.W[1][i], TOL)>>,
          <<"a depth of ice", \A i \in U : NFinite(ev.d2[i]) /\ NLeq("0", ev.d2[i])>>})
    [] ev.e = "still" ->
     {<<"nothing changes between the applications", ev.fr2 = ev.fr /\ ev.d2 = ev.d>>}
    [] ev.e = "reset" ->
     {<<"the extents and the ice of the table or of the saved state are restored", ev.fr2 = ev.fr /\ ev.d2 = ev.d>>}
    [] ev.e = "apply" ->
     LET U == 1..Len(ev.fr)
         ar == Areas(s, ev.fr)  v == Vols(s, ev.fr, ev.d)
         ar2 == Areas(s, ev.fr2)  v2 == Vols(s, ev.fr2, ev.d2)
         V == TLCEval(Total(v))  V0 == TLCEval(Total(s.W[1]))
         depth == \A i \in U : NFinite(ev.d2[i]) /\ NLeq("0", ev.d2[i])
         rest == {<<"a depth of ice", depth>>, <<"carried out", ev.ok>>}
     IN IF s.kind = "delta"
        THEN LET rows == RowsAt(Position(V, V0, N(s)), N(s), TOL)
                 good == {r \in rows : \A i \in U : AreaIs(s, ar2, i, s.A[r][i])}
             IN rest \cup
                {<<"the extents of the row of the ice lost", good # {}>>,
                 <<"no ice, no glacier", IF NLeq(V, "0") THEN \A i \in U : AreaIs(s, ar2, i, s.A[N(s)][i]) ELSE TRUE>>,
                 <<"the volume of ice is kept", NClose(Total(v2), V, TOL) \/ NLeq(V, NMul(V0, "1e-12"))>>,
                 <<"spread like in the table", \E r \in good : \A i \in U : Near(s, i, v2[i], Spread(V, s.A, s.W, r)[i], V)>>}
        ELSE rest \cup
             {<<"a vanished glacier stays away", \A i \in U : Zero(ev.fr[i]) => Zero(ev.fr2[i])>>,
              <<"no ice, no glacier", \A i \in U : Zero(v[i]) => Zero(ev.fr2[i])>>,
              <<"the extent of the row of the ice lost",
                \A i \in U : ~Zero(ev.fr[i]) /\ ~Zero(v[i]) =>
                   \E r \in RowsAt(Position(v[i], s.W[1][i], N(s)), N(s), TOL) : AreaIs(s, ar2, i, s.A[r][i])>>,
              <<"each unit keeps its ice", \A i \in U : ~Zero(ev.fr[i]) /\ ~Zero(v[i]) => Near(s, i, v2[i], v[i], v[i])>>}
    [] OTHER -> {<<"unknown", FALSE>>}
Post(s, ev) == s
TB == INSTANCE TraceBase
Spec == TB!Spec
=============================================================================
