------------------------------ MODULE Lifecycle ------------------------------
(* Life of a model: spin-up, runs, resets, saved states, parameter updates.       *)
(*                                                                              *)
(* A model is deterministic: what a run produces is a function of the state it   *)
(* starts from, the parameters and the scheduled actions.  States are therefore   *)
(* named by terms that tell how they came about:                                 *)
(*   "s0"          the state in which the model was built                        *)
(*   K(s,p,j)      the state after the first j steps of the period, from s with   *)
(*                 parameters p and without actions                              *)
(*   A(s,p,n)      the same with the actions of the model, over n steps           *)
(* A reset goes back to the saved initial state - all of it: stores, extents of  *)
(* land covers, memory of the processes, pending actions, clock and records.      *)
(* Two runs with the same name are the same run.                                *)
(* A spin-up of k steps replaces the state from which a run starts by the state   *)
(* after k steps (at most the whole period): nothing of it is recorded, no action *)
(* is applied or used up by it, and the run starts at the first date with the     *)
(* declared extents of the land covers.                                         *)
EXTENDS Sequences, Integers, TLC

K(s, p, j) == IF j = 0 THEN s ELSE "K(" \o s \o "," \o p \o "," \o ToString(j) \o ")"
A(s, p, n) == "A(" \o s \o "," \o p \o "," \o ToString(n) \o ")"
(* spin: steps of spin-up asked for; n: steps of the period; acts: scheduled actions *)
Fresh(spin, n, acts) == [st |-> "s0", init |-> "s0", par |-> "p0", spin |-> spin, n |-> n, acts |-> acts]
SpinSteps(m) == IF m.spin > m.n THEN m.n ELSE m.spin
(* state from which the records of a run start *)
StartOf(m) == K(m.st, m.par, SpinSteps(m))
OutTerm(m) == IF m.acts THEN A(StartOf(m), m.par, m.n) ELSE K(StartOf(m), m.par, m.n)
RowTerm(m, j) == K(StartOf(m), m.par, j)
OfRun(m) == [m EXCEPT !.st = OutTerm(m)]
OfReset(m) == [m EXCEPT !.st = m.init]
OfSave(m) == [m EXCEPT !.init = m.st]
OfParam(m, p) == [m EXCEPT !.par = p]
==============================================================================
