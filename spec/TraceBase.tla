------------------------------ MODULE TraceBase ------------------------------
(***************************************************************************)
(* Conformance of recorded behaviours of the real code to a specification. *)
(*                                                                         *)
(* A specification module describes a part of hydrobricks by               *)
(*   Begin(ev)       the state at the start of a behaviour,                *)
(*   Checks(st, ev)  the guard of the transition for event ev, as a set of *)
(*                   pairs <<name of the clause, truth value>>,            *)
(*   Post(st, ev)    the state after it.                                   *)
(* The design models (modules MC_...) explore  Pre /\ st' = Post  exhaustively on    *)
(* small integers; here the same operators consume events recorded from    *)
(* the implementation.  An event with a false clause is not a transition   *)
(* of the specification: it is printed, and the rest of that behaviour is  *)
(* skipped.                                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, IOUtils, Json

CONSTANTS Begin(_), Checks(_, _), Post(_, _)
VARIABLES l,      \* next event
          st,     \* specification state
          dead    \* the current behaviour left the specification

Trace == ndJsonDeserialize(IOEnv.TRACE)

Init == l = 1 /\ st = 0 /\ dead = FALSE

Consume(ev) ==
  IF ev.e = "begin" THEN st' = Begin(ev) /\ dead' = FALSE
  ELSE IF dead THEN UNCHANGED <<st, dead>>
  ELSE LET bad == {c[1] : c \in {x \in Checks(st, ev) : ~x[2]}}
       IN IF bad = {} THEN st' = Post(st, ev) /\ dead' = FALSE
          ELSE /\ PrintT(<<"REJECT", l, bad>>)
               /\ dead' = TRUE
               /\ UNCHANGED st

Next == l <= Len(Trace) /\ l' = l + 1 /\ Consume(Trace[l])

Spec == Init /\ [][Next]_<<l, st, dead>>
=============================================================================
