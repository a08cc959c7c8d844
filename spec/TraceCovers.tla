----------------------------- MODULE TraceCovers -----------------------------
(* Recorded changes of the extents of land covers.                               *)
(*   change  a unit before and after a change (to fraction f of cover c, which   *)
(*           was accepted or not), and whether everything else stayed the same   *)
(*   moved   a unit before and after a step boundary with scheduled changes      *)
(*   extents the extents of a unit at some moment of a run (want: the declared   *)
(*           ones it has to have, if given)                                      *)
(* mode "extents" or "contents" chooses what is judged                           *)
EXTENDS Covers
VARIABLES l, st, dead
FTol == "1e-9"
WTol == "1e-7"
Begin(ev) == IF "mode" \in DOMAIN ev THEN ev.mode ELSE ""
Obs(x) == [one |-> 1, fr |-> x.fr, w |-> x.w]
\* fractions within rounding of the possible may be refused or accepted; see band
Decides(b, ev) ==
  IF Possible(b, ev.c, ev.f, "1e-15") THEN ev.ret
  ELSE IF Possible(b, ev.c, ev.f, "1e-7") THEN TRUE ELSE ~ev.ret
SameFr(a, b) == DOMAIN a.fr = DOMAIN b.fr /\ \A c \in DOMAIN a.fr : NClose(a.fr[c], b.fr[c], FTol)
SameW(a, b) == DOMAIN a.w = DOMAIN b.w /\ \A c \in DOMAIN a.w : DOMAIN a.w[c] = DOMAIN b.w[c] /\ \A r \in DOMAIN a.w[c] : NClose(a.w[c][r], b.w[c][r], WTol)
Checks(mode, ev) ==
  LET b == TLCEval(IF ev.e = "extents" THEN [fr |-> ev.fr] ELSE Obs(ev.before))
      a == TLCEval(IF ev.e = "extents" THEN [fr |-> ev.fr] ELSE Obs(ev.after))
  IN CASE ev.e = "change" ->
          LET nxt == TLCEval(IF ev.ret THEN [b EXCEPT !.fr = NewFr(b, ev.c, ev.f), !.w = NewW(b, ev.c, ev.f)] ELSE b)
          IN IF mode = "extents"
             THEN {<<"decision", Decides(b, ev)>>,
                   <<"extents", ~(ev.ret /\ ev.c \notin Names(b)) /\ SameFr(a, nxt)>>,
                   <<"refused: unchanged", ev.ret \/ (SameFr(a, b) /\ SameW(a, b) /\ ev.rest)>>,
                   <<"partition", Partition(a.fr, 1, FTol)>>}
             ELSE {<<"contents", SameW(a, nxt)>>, <<"nothing else", ev.rest>>}
       [] ev.e = "moved" ->
          (IF mode = "extents" THEN {<<"partition", Partition(a.fr, 1, FTol)>>}
           ELSE {<<"water conserved", NClose(VolumeOf(a, Liquid), VolumeOf(b, Liquid), WTol)>>,
                 <<"snow conserved", NClose(VolumeOf(a, {"snow"}), VolumeOf(b, {"snow"}), WTol)>>,
                 <<"ice not created", NLeqT(VolumeOf(a, {"ice"}), VolumeOf(b, {"ice"}), WTol)>>,
                 <<"nothing else", ev.rest>>})
       [] ev.e = "extents" ->
          {<<"partition", Partition(ev.fr, 1, FTol)>>,
           <<"declared extents", ~("want" \in DOMAIN ev) \/ \A c \in DOMAIN ev.fr : NClose(ev.fr[c], ev.want[c], "1.1e-4")>>,
           <<"same as before", ~("same" \in DOMAIN ev) \/ \A c \in DOMAIN ev.fr : ev.fr[c] = ev.same[c]>>}
       [] OTHER -> {<<"unknown", FALSE>>}
Post(s, ev) == s
TB == INSTANCE TraceBase
Spec == TB!Spec
=============================================================================
