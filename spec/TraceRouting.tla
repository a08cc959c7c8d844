---------------------------- MODULE TraceRouting -----------------------------
(* begin: the network (see Ledger), dt, routes: the routing stores: [src, kind, par, flow, exact, late]                   *)
(*        flow: its discharge; exact: what arrives in a step is known when the discharge of the step is computed;         *)
(*        late: it is known too, but the schemes let nothing leave a store which is empty at the start of the step          *)
(* init, reset: contents c; the state of the routing is the saved one (none is saved at first)                   *)
(* step:  contents c, amounts o, items r (storage, stores and discharges of each routing store)                  *)
(* save:  the state is saved                                                                                     *)
(* params: the parameters of the routes changed to par                                                           *)
EXTENDS Routing, Ledger, FiniteSets
VARIABLES l, st, dead
TOL == "1e-7"
Near(a, b) == NClose(a, b, TOL)
Par(par, k) == NF32(par[k])
Shape(kind, par, dt) ==
  IF kind = "hbv" THEN [kind |-> kind, w |-> Triangle(Par(par, "maxbas"), dt)]
  ELSE [kind |-> kind, w1 |-> UH1(Par(par, "uh_base_time")), w2 |-> UH2(Par(par, "uh_base_time")),
        x2 |-> Par(par, "exchange_factor"), x3 |-> Par(par, "routing_capacity"),
        x5 |-> IF kind = "gr6j" THEN Par(par, "exchange_threshold") ELSE 0, x6 |-> IF kind = "gr6j" THEN Par(par, "exp_store_coeff") ELSE 0]
New(p) == IF p.kind = "hbv" THEN [q |-> Fresh(Len(p.w)), c |-> 0] ELSE GrFresh(p)
Refit(p, s) == IF p.kind = "hbv" THEN [s EXCEPT !.q = Fit(@, Len(p.w))] ELSE [s EXCEPT !.a = Fit(@, Len(p.w1)), !.b = Fit(@, Len(p.w2))]
R(s) == 1..Len(s.routes)
Begin(ev) ==
  LET ps == TLCEval([k \in 1..Len(ev.routes) |-> Shape(ev.routes[k].kind, ev.routes[k].par, ev.dt)])
      fresh == TLCEval([k \in 1..Len(ps) |-> New(ps[k])])
  IN [T |-> Topology(ev.areas, ev.stores, ev.flows), routes |-> ev.routes, dt |-> ev.dt, ps |-> ps,
      now |-> fresh, saved |-> fresh, c |-> <<>>, was |-> [k \in 1..Len(ps) |-> 0], c0 |-> [k \in 1..Len(ps) |-> 0]]
Into(s, ev, k) == LET ins == s.T.ins[s.routes[k].src] IN NSum([j \in 1..Len(ins) |-> ev.o[ins[j]]])
(* in the depth of the routing store; an amount is seen in the depth of what receives it *)
Left(s, ev, k) == LET f == s.T.flows[s.routes[k].flow]
                  IN IF f.u = 0 \/ (f.tgt # OUTLET /\ s.T.stores[f.tgt].u # 0) THEN ev.o[s.routes[k].flow]
                     ELSE NDiv(NMul(ev.o[s.routes[k].flow], s.T.total), s.T.areas[f.u])
Src(s, k) == s.routes[k].src
(* the discharge of the step can be told *)
Told(s, k, in) == s.routes[k].exact \/ (s.routes[k].late /\ NLt("1e-6", s.c[Src(s, k)])) \/ (IsZero(in) /\ IsZero(s.was[k]))
HbvIn(s, ev, k, in) == NAdd(in, NSub(s.c[Src(s, k)], s.now[k].c))
HbvNext(s, ev, k, in) ==
  LET w == s.ps[k].w  q == s.now[k].q  got == HbvIn(s, ev, k, in)
  IN [q |-> Later(Shift(w, q, got), NSub(Due(w, q, got), Left(s, ev, k))), c |-> ev.c[Src(s, k)]]
GrOut(n) == Max0(NAdd(NAdd(n.qr, n.qx), n.qd))
Checks1(s, ev, k) ==
  LET in == Into(s, ev, k)  p == s.ps[k]  out == Left(s, ev, k)  it == ev.r[k]  c1 == ev.c[Src(s, k)]
      has == NAdd(s.c[Src(s, k)], in)
  IN IF p.kind = "hbv"
     THEN LET n == HbvNext(s, ev, k, in)
              due == NMin(NAdd(Max0(s.now[k].q[1]), NMul(p.w[1], in)), has)
          IN {<<"what is in transit is what came and has not left", Near(it.internal_storage, NSum(n.q)) /\ Near(c1, NSum(n.q))>>,
              <<"no more leaves than there is", NLeqT(out, has, TOL)>>,
              <<"what is due in the step leaves", Told(s, k, in) => Near(out, due)>>}
     ELSE LET n == GrStep(p, s.now[k], in)  six == p.kind = "gr6j"
          IN {<<"the routing store", Near(it.routing_store, n.r)>>,
              <<"the exponential store", six => Near(it.exp_store, n.x)>>,
              <<"the discharge of the routing store", Near(it.q_routing, n.qr)>>,
              <<"the discharge of the exponential store", six => Near(it.q_exp, n.qx)>>,
              <<"the direct discharge", Near(it.q_direct, n.qd)>>,
              <<"what is in transit", Near(it.internal_storage, GrHeld(n))>>,
              <<"the exchange enters the water held once",
                ~six /\ NLeq(0, p.x2) /\ NLt("1e-6", s.c[Src(s, k)]) => Near(c1, NAdd(NSub(has, out), n.net))>>,
              <<"the discharge of the step", Told(s, k, in) => Near(out, IF six THEN GrOut(n) ELSE NMin(GrOut(n), Max0(NAdd(has, n.net))))>>,
              <<"the water held is what is in transit", ~six /\ s.routes[k].exact => Near(NSub(c1, s.c0[k]), GrHeld(n))>>}
Checks(s, ev) ==
  CASE ev.e = "step" -> UNION {Checks1(s, ev, k) : k \in R(s)}
    [] OTHER -> {}
Start(s, ev, at) == [s EXCEPT !.c = ev.c, !.now = at, !.was = [k \in R(s) |-> 0], !.c0 = TLCEval([k \in R(s) |-> NSub(ev.c[Src(s, k)], IF s.ps[k].kind = "hbv" THEN 0 ELSE GrHeld(at[k]))])]
Post(s, ev) ==
  CASE ev.e = "init" -> Start(s, ev, s.now)
    [] ev.e = "reset" -> Start(s, ev, s.saved)
    [] ev.e = "save" -> [s EXCEPT !.saved = s.now]
    [] ev.e = "params" ->
       LET ps == TLCEval([k \in R(s) |-> Shape(s.routes[k].kind, ev.par[k], s.dt)])
       IN [s EXCEPT !.ps = ps, !.now = TLCEval([k \in R(s) |-> Refit(ps[k], s.now[k])]), !.saved = TLCEval([k \in R(s) |-> Refit(ps[k], s.saved[k])])]
    [] ev.e = "step" ->
       [s EXCEPT !.c = ev.c,
        !.was = TLCEval([k \in R(s) |-> Into(s, ev, k)]),
        !.now = TLCEval([k \in R(s) |-> LET in == TLCEval(Into(s, ev, k)) IN IF s.ps[k].kind = "hbv" THEN HbvNext(s, ev, k, in) ELSE GrStep(s.ps[k], s.now[k], in)])]
    [] OTHER -> s
TB == INSTANCE TraceBase
Spec == TB!Spec
=============================================================================
