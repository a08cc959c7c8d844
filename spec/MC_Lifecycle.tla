---------------------------- MODULE MC_Lifecycle ----------------------------
(* Design model: a concrete small model (store v, memory m of a process, extent f *)
(* changed by an action during the run, cursor of the pending action) whose        *)
(* operations are implemented part by part, against the names of Lifecycle.tla.   *)
(* Histories are also the source of the scenarios replayed on the real code (they *)
(* are printed by the simulator).                                               *)
EXTENDS Lifecycle, FiniteSets, Json
CONSTANTS MaxOps, Params, Steps, Spins, Broken
VARIABLES h,        \* history of operations
          c,        \* concrete model
          a,        \* abstract model (terms)
          mem,      \* outcome of every run so far, by term
          clean,    \* no action was pending-used before a run
          ran       \* the last run has not been reset
vars == <<h, c, a, mem, clean, ran>>

K7 == 7
P(p) == IF p = "p0" THEN 1 ELSE 2
Step(x, p, t) == [v |-> (x.v + x.m + P(p) * x.f + t) % K7, m |-> (x.m + x.v) % 3, f |-> x.f, k |-> x.k]
(* the action is due at the first boundary and used up by it *)
Act(x) == IF x.k = 0 THEN [x EXCEPT !.f = 1 - x.f, !.k = 1] ELSE x
RECURSIVE Go(_, _, _, _, _)
Go(x, p, acts, t, n) == IF t > n THEN x
                        ELSE Go(IF acts THEN Act(Step(x, p, t)) ELSE Step(x, p, t), p, acts, t + 1, n)
Start == [v |-> 1, m |-> 0, f |-> 1, k |-> 0]
SpinUp(x, p, n, init) == [Go(x, p, Broken = "actions in spin-up", 1, n) EXCEPT !.f = init.f]

Init == /\ \E s \in Spins, n \in Steps, ac \in BOOLEAN : a = Fresh(s, n, ac)
        /\ c = [cur |-> Start, init |-> Start] /\ h = <<>> /\ mem = {} /\ clean = TRUE /\ ran = FALSE
Run == /\ ~ran
       /\ LET s == IF a.spin = 0 THEN c.cur ELSE SpinUp(c.cur, a.par, SpinSteps(a), c.init)
              e == Go(s, a.par, a.acts, 1, a.n)
          IN /\ c' = [c EXCEPT !.cur = e]
             /\ mem' = mem \cup {<<OutTerm(a), [e EXCEPT !.k = 0]>>,
                               <<StartOf(a), [s EXCEPT !.k = 0]>>,
                               <<StartOf(a), [Go(c.cur, a.par, FALSE, 1, SpinSteps(a)) EXCEPT !.k = 0]>>}
             /\ clean' = (clean /\ s.k = 0)
       /\ a' = OfRun(a) /\ ran' = TRUE /\ h' = Append(h, "Run")
Reset == /\ c' = [c EXCEPT !.cur = IF Broken = "memory" THEN [c.init EXCEPT !.m = c.cur.m] ELSE c.init]
         /\ a' = OfReset(a) /\ ran' = FALSE /\ h' = Append(h, "Reset") /\ UNCHANGED <<mem, clean>>
(* saving keeps the actions pending *)
Save == /\ ran /\ c' = [c EXCEPT !.init = [c.cur EXCEPT !.k = 0]] /\ a' = OfSave(a) /\ h' = Append(h, "Save")
        /\ UNCHANGED <<mem, clean, ran>>
Param(p) == /\ ~ran /\ a.par # p /\ a' = OfParam(a, p) /\ h' = Append(h, p) /\ UNCHANGED <<c, mem, clean, ran>>
Next == Len(h) < MaxOps /\ (Run \/ Reset \/ Save \/ \E p \in Params : Param(p))
Spec == Init /\ [][Next]_vars

Reproducible == \A x, y \in mem : x[1] = y[1] => x[2] = y[2]
ActionsPending == clean
Behave == Len(h) = MaxOps => PrintT(<<"BEHAV", ToJson([ops |-> h])>>)
==============================================================================
