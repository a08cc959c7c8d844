------------------------------ MODULE TraceLaws ------------------------------
(* Recorded steps of the real code against the laws of its processes and the scheme of   *)
(* its solver.                                                                           *)
(*   begin  topology of the ledger, processes, time step                                 *)
(*          procs[k] = [u, src, flows, type, par, rank, solver, skip, sib, props, snow,  *)
(*                      nomelt, covers, lateral, shares]                                  *)
(*          links[j] = [rank, inst, k, m, chk]      emission of flow j: output m of k    *)
(*          seats[i] = [rank, solver, neg]          the brick of store i                 *)
(*          splits[n] = [u, type, par, elev, flows, from]    the splitters               *)
(*   init, moved   contents (before the first step, after the actions of a boundary)     *)
(*   step   contents and amounts after a step, forcing of the step                       *)
(* A directly computed store first takes what arrived, then runs its processes one after  *)
(* the other on what is left; the others follow the scheme of the solver.                *)
EXTENDS Ledger, Laws, Partition, Schemes, Lateral
VARIABLES l, st, dead

Tol == "1e-6"
Close(x, y) == NClose(x, y, Tol)
Late == 1000000000
Tiny(x) == NLeq(x, "1e-6")

Begin(ev) == IF "stores" \in DOMAIN ev
             THEN [T |-> Topology(ev.areas, ev.stores, ev.flows), m |-> ev, c |-> <<>>,
                   g |-> [k \in 1..Len(ev.procs) |-> 0],
                   d |-> [k \in 1..Len(ev.procs) |-> [rho |-> FreshSnow, prev |-> 0]]]
             ELSE 0

-------------------------------------------------------------------------------
(* s: state before the step, ev: the recorded step *)
Procs(s) == s.m.procs
Depth(s, ev, j, x) == NDiv(NMul(x, WNum(s.T, s.T.flows[j], ev.f)), WDen(s.T, s.T.flows[j], ev.f))
Empty(s, ev, i) == s.T.stores[i].frac /\ IsZero(ev.f[i])

SumIn(s, ev, i, P(_)) == NSum([n \in 1..Len(s.T.ins[i]) |-> IF P(s.T.ins[i][n]) THEN ev.o[s.T.ins[i][n]] ELSE 0])
SumOut(s, ev, i, P(_)) == NSum([n \in 1..Len(s.T.outs[i]) |-> IF P(s.T.outs[i][n]) THEN Lost(s.T, s.T.outs[i][n], ev.o, ev.f) ELSE 0])

(* content of store i when the process of rank r is computed *)
At(s, ev, i, r) ==
  LET seat == s.m.seats[i]
      there(j) == s.m.links[j].rank < r /\ (s.m.links[j].inst \/ (~seat.solver /\ s.m.links[j].rank < seat.rank /\ seat.rank <= r))
      gone(j) == s.m.links[j].rank < r /\ ~s.m.links[j].solver
  IN NSub(NAdd(s.c[i], SumIn(s, ev, i, there)), SumOut(s, ev, i, gone))
(* instantaneous deposits *)
Deposits(s, ev, i, r) == SumIn(s, ev, i, LAMBDA j : s.m.links[j].inst /\ s.m.links[j].rank < r)
(* given by what is computed before the solver *)
Given(s, ev, i) == SumIn(s, ev, i, LAMBDA j : ~s.m.links[j].inst /\ ~s.m.links[j].solver)
Inflow(s, ev, i) == SumIn(s, ev, i, LAMBDA j : ~s.m.links[j].inst)

(* the evaporative demand, after an interception computed before *)
Demand(s, ev, p) ==
  LET b == {k \in 1..Len(Procs(s)) : Procs(s)[k].type = "interception:gr4j" /\ Procs(s)[k].u = p.u /\ Procs(s)[k].rank < p.rank}
  IN IF p.u = 0 THEN 0
     ELSE IF b = {} THEN ev.pet[p.u]
     ELSE LET q == Procs(s)[CHOOSE k \in b : TRUE] IN Max0(NSub(ev.pet[p.u], At(s, ev, q.src, q.rank)))

(* environment of process p on the contents y(i) *)
Env(s, ev, p, y(_), others) ==
  [fo |-> IF p.u = 0 THEN <<>> ELSE ev.fo[p.u],
   pet |-> Demand(s, ev, p),
   cap |-> IF ev.cap[p.src] = "none" THEN 0 ELSE ev.cap[p.src],
   s0 |-> s.c[p.src], dep |-> Deposits(s, ev, p.src, p.rank),
   swe |-> IF p.snow = 0 THEN 0 ELSE At(s, ev, p.snow, p.rank),
   snowy |-> p.nomelt /\ NLt("1e-7", At(s, ev, p.snow, p.rank)),
   tgt |-> [n \in 1..Len(p.flows) |->
              LET t == s.T.flows[p.flows[n]].tgt IN
              IF t < 1 THEN [c |-> 0, cap |-> 0, w |-> 0]
              ELSE [c |-> y(t), cap |-> IF ev.cap[t] = "none" THEN 0 ELSE ev.cap[t],
                    w |-> IF p.covers = <<>> \/ p.covers[n] = <<>> THEN 1 ELSE NSum([q \in 1..Len(p.covers[n]) |-> ev.f[p.covers[n][q]]])]],
   props |-> p.props, dt |-> s.m.dt, doy |-> ev.doy, sib |-> p.sib, others |-> others,
   g |-> 0]

(* cold content of the snowpack of process k during the step *)
ColdAt(s, ev, k) ==
  LET p == Procs(s)[k]
      x == At(s, ev, p.src, p.rank)
  IN IF Empty(s, ev, p.src) \/ NLeq(x, Threshold) THEN s.g[k]
     ELSE Cold(p, s.g[k], [fo |-> ev.fo[p.u]])

-------------------------------------------------------------------------------
(* directly computed *)
DirectOk(s, ev, k) ==
  LET p == Procs(s)[k]
      T == s.T
      x == At(s, ev, p.src, p.rank)
      y(i) == At(s, ev, i, p.rank)
      e0 == Env(s, ev, p, y, 0)
      e == IF p.type = "melt:cemaneige" THEN [e0 EXCEPT !.g = ColdAt(s, ev, k)] ELSE e0
      r == Rates(p, x, e, Len(p.flows))
      want == IF p.type = "overflow" THEN <<IF ev.cap[p.src] = "none" THEN 0 ELSE Max0(NSub(x, ev.cap[p.src]))>>
              ELSE [n \in 1..Len(r) |-> NMul(r[n], s.m.dt)]
      all == NSum(want)
      got(n) == ev.o[p.flows[n]]
  IN IF Empty(s, ev, p.src) THEN \A n \in 1..Len(p.flows) : IsZero(got(n))
     ELSE IF Tiny(x) THEN \A n \in 1..Len(p.flows) : NLeqT(Lost(T, p.flows[n], ev.o, ev.f), Max0(x), "2e-6")
     ELSE \A n \in 1..Len(p.flows) :
            LET d == IF NLt(x, all) THEN NDiv(NMul(want[n], x), all) ELSE want[n]
            IN Close(got(n), Depth(s, ev, p.flows[n], d))

-------------------------------------------------------------------------------
(* lateral redistribution of snow *)
(* content of store i that the others see: what its own unit has made of it *)
Raw(s, ev, i, r) == LET seat == s.m.seats[i] IN IF r < seat.rank THEN s.c[i] ELSE At(s, ev, i, seat.rank + 999)
Own(s, ev, i) == Raw(s, ev, i, Late)
RhoOf(s, k) == LET p == Procs(s)[k] IN
  CASE p.type = "transport:snow_slide" -> FreshSnow
    [] p.type = "transport:snow_redistribution_frey" -> p.par.snow_density
    [] OTHER -> IF NLt(0, s.d[k].rho) THEN s.d[k].rho ELSE FreshSnow
LateralOk(s, ev, k) ==
  LET p == Procs(s)[k]
      x == At(s, ev, p.src, p.rank)
      rho == RhoOf(s, k)
      tgt == TLCEval([n \in 1..Len(p.flows) |->
               LET t == s.T.flows[p.flows[n]].tgt IN [raw |-> Raw(s, ev, t, p.rank), f |-> ev.f[t], w |-> p.shares[n]]])
      rate == IF p.type = "transport:snow_slide" THEN SlideRate(p.par, x, p.props.slope)
              ELSE FreyRate(p.par, rho, x, p.props.slope)
      want == TLCEval([n \in 1..Len(tgt) |-> NMul(s.m.dt, Spread(p.par, rho, rate, tgt)[n])])
      all == NSum(want)
      unsure == \E n \in 1..Len(tgt) : Unsure(p.par, rho, tgt[n].raw)
      got(n) == ev.o[p.flows[n]]
      (* the amounts are those of the giver, brought to the area of the receiver; the depth held is computed in single precision *)
      is(n, d) == IF IsZero(tgt[n].f) THEN IsZero(got(n))
                  ELSE NLeq(NAbs(NSub(got(n), Depth(s, ev, p.flows[n], d))), NMul(Tol, NAdd("1", Depth(s, ev, p.flows[n], x))))
  IN IF Empty(s, ev, p.src) THEN \A n \in 1..Len(tgt) : IsZero(got(n))
     ELSE IF Tiny(x) THEN \A n \in 1..Len(tgt) : NLeqT(Lost(s.T, p.flows[n], ev.o, ev.f), Max0(x), "2e-6")
     ELSE unsure \/ \A n \in 1..Len(tgt) : is(n, IF NLt(x, all) THEN NDiv(NMul(want[n], x), all) ELSE want[n])
NextDensity(s, ev, k) ==
  LET p == Procs(s)[k]
      swe == Own(s, ev, p.src)
  IN IF p.type # "transport:snow_redistribution_frey_dynamic" \/ Empty(s, ev, p.src) THEN s.d[k]
     ELSE [rho |-> Density(p.par, s.d[k].rho, s.d[k].prev, swe, ev.fo[p.u].temperature, s.m.dt), prev |-> swe]
LateralProcs(s) == {k \in 1..Len(Procs(s)) : Procs(s)[k].lateral}

-------------------------------------------------------------------------------
(* with the solver *)
SolverProcs(s) == {k \in 1..Len(Procs(s)) : Procs(s)[k].solver}
SolverStores(s) == {i \in 1..Len(s.T.stores) : s.m.seats[i].solver}
SolverFlows(s) == {j \in 1..Len(s.T.flows) : s.m.links[j].solver}

(* rates of process k on the contents y(i) *)
PlainRates(s, ev, k, y(_), others) ==
  LET p == Procs(s)[k] IN
  IF p.skip THEN [n \in 1..Len(p.flows) |-> 0]
  ELSE Rates(p, y(p.src), Env(s, ev, p, y, others), Len(p.flows))
Siblings(s, k) == {q \in SolverProcs(s) : q # k /\ Procs(s)[q].src = Procs(s)[k].src}
RECURSIVE SumOver(_, _)
SumOver(q, f) == IF q = {} THEN 0 ELSE LET x == CHOOSE x \in q : TRUE IN NAdd(f[x], SumOver(q \ {x}, f))
AllRates(s, ev, y(_), ks) ==
  LET a == [k \in ks |-> IF Procs(s)[k].type = "outflow:rest" THEN <<0>> ELSE PlainRates(s, ev, k, y, 0)]
      t == [k \in ks |-> NSum(a[k])]
  IN [k \in ks |-> IF Procs(s)[k].type = "outflow:rest" THEN PlainRates(s, ev, k, y, SumOver(Siblings(s, k) \cap ks, t)) ELSE a[k]]

Start(s, ev) == TLCEval([i \in SolverStores(s) |-> At(s, ev, i, Late)])
Look(v, i) == IF i \in DOMAIN v THEN v[i] ELSE 0

(* rates of the flows of the solver on the contents v, and the contents after h days of them *)
FlowRates(s, ev, v) ==
  LET y(i) == Look(v, i)
      a == TLCEval(AllRates(s, ev, y, SolverProcs(s)))
  IN TLCEval([j \in SolverFlows(s) |-> a[s.m.links[j].k][s.m.links[j].m]])
Net(s, ev, r, i) ==
  NSub(NSum([n \in 1..Len(s.T.ins[i]) |-> LET j == s.T.ins[i][n] IN IF j \in DOMAIN r THEN Depth(s, ev, j, r[j]) ELSE 0]),
       NSum([n \in 1..Len(s.T.outs[i]) |-> r[s.T.outs[i][n]]]))
Moved(s, ev, v, r, share) ==
  TLCEval([i \in DOMAIN v |-> NAdd(v[i], NMul(share, NAdd(Given(s, ev, i), NMul(s.m.dt, Net(s, ev, r, i)))))])
(* a limit is reached by one of the stores whose rates are all known *)
Limited(s, ev, v) ==
  \E i \in DOMAIN v : s.m.seats[i].known /\
    (\/ ~s.m.seats[i].neg /\ NLt(v[i], "1e-7") /\ ~IsZero(v[i])
     \/ ev.cap[i] # "none" /\ NLt(NAdd(ev.cap[i], "1e-9"), v[i]))
Same(s, ev, r) == \A j \in SolverFlows(s) : s.m.links[j].chk => Close(ev.o[j], Depth(s, ev, j, NMul(s.m.dt, r[j])))
Mean(s, a, b, c, d) == TLCEval([j \in SolverFlows(s) |-> RK4Mean(a[j], b[j], c[j], d[j])])
Half(s, a, b) == TLCEval([j \in SolverFlows(s) |-> HeunMean(a[j], b[j])])

(* with limits, the demands of a store are only cut when it runs dry, in proportion, or when a full store cannot take them *)
EulerOk(s, ev) ==
  LET v == Start(s, ev)
      r == FlowRates(s, ev, v)
      got(j) == Lost(s.T, j, ev.o, ev.f)
      ask(j) == NMul(s.m.dt, r[j])
      full(j) == LET t == s.T.flows[j].tgt IN
                 t > 0 /\ ev.cap[t] # "none" /\ NLeq(NSub(ev.cap[t], "1e-6"), ev.c[t])
      plain(j) == s.m.links[j].chk
  IN \A i \in DOMAIN v :
       LET out == {j \in SolverFlows(s) : s.T.flows[j].src = i}
           over == {j \in out : Procs(s)[s.m.links[j].k].type = "overflow"}
           js == {j \in out \ over : plain(j)}
           dry == Tiny(ev.c[i])
           sum == SumOver(js, [j \in js |-> ask(j)])
           sumgot == SumOver(js, [j \in js |-> got(j)])
       IN /\ \A j \in js :
               /\ NLeqT(ev.o[j], Depth(s, ev, j, ask(j)), Tol)
               /\ Close(ev.o[j], Depth(s, ev, j, ask(j))) \/ dry \/ full(j)
               /\ (\A q \in js : ~full(q)) => NClose(NMul(got(j), sum), NMul(ask(j), sumgot), "1e-5")
          /\ \A j \in over : (IsZero(ev.o[j]) \/ Tiny(ev.o[j]) \/ NClose(ev.c[i], ev.cap[i], Tol))

HeunOk(s, ev) ==
  LET v == Start(s, ev)
      k1 == FlowRates(s, ev, v)
      y1 == Moved(s, ev, v, k1, "1.0")
  IN IF Limited(s, ev, y1) THEN TRUE
     ELSE LET k2 == FlowRates(s, ev, y1)
              k == Half(s, k1, k2)
          IN Limited(s, ev, Moved(s, ev, v, k, "1.0")) \/ Same(s, ev, k)

RK4Ok(s, ev) ==
  LET v == Start(s, ev)
      k1 == FlowRates(s, ev, v)
  IN IF Limited(s, ev, Moved(s, ev, v, k1, "1.0")) THEN TRUE
     ELSE LET k2 == FlowRates(s, ev, Moved(s, ev, v, k1, "0.5"))
          IN IF Limited(s, ev, Moved(s, ev, v, k2, "1.0")) THEN TRUE
             ELSE LET k3 == FlowRates(s, ev, Moved(s, ev, v, k2, "0.5"))
                      y3 == Moved(s, ev, v, k3, "1.0")
                  IN IF Limited(s, ev, y3) THEN TRUE
                     ELSE LET k4 == FlowRates(s, ev, y3)
                              k == Mean(s, k1, k2, k3, k4)
                          IN Limited(s, ev, Moved(s, ev, v, k, "1.0")) \/ Same(s, ev, k)

(* one store after the other, with what it has received during the step *)
StoreProcs(s, i) == {k \in SolverProcs(s) : Procs(s)[k].src = i}
Taken(s, ev, i, a) == \* a[k][n]: rates
  \A k \in DOMAIN a : \A n \in 1..Len(Procs(s)[k].flows) :
     LET j == Procs(s)[k].flows[n] IN Close(ev.o[j], Depth(s, ev, j, NMul(s.m.dt, a[k][n])))
RatesOn(s, ev, i, v, x) ==
  LET y(q) == IF q = i THEN x ELSE Look(v, q) IN TLCEval(AllRates(s, ev, y, StoreProcs(s, i)))
TotalOf(a) == SumOver(DOMAIN a, [k \in DOMAIN a |-> NSum(a[k])])
Blend(a, b, c) == [k \in DOMAIN a |-> [n \in 1..Len(a[k]) |-> NMul(c, NAdd(a[k][n], b[k][n]))]]

AnalyticRates(s, ev, i, v, in) ==
  LET ks == StoreProcs(s, i)
      a == RatesOn(s, ev, i, v, v[i])
      lin == {k \in ks : Procs(s)[k].type = "outflow:linear"}
      K == SumOver(lin, [k \in lin |-> Procs(s)[k].par.response_factor])
      frozen == SumOver(ks \ lin, [k \in ks \ lin |-> NSum(a[k])])
      net == NSub(in, frozen)
      tot == MeanOut(net, v[i], LinearEnd(v[i], net, K, s.m.dt), s.m.dt)
  IN IF NLeq(K, 0) THEN a
     ELSE [k \in ks |-> IF k \in lin THEN <<NDiv(NMul(tot, Procs(s)[k].par.response_factor), K)>> ELSE a[k]]

ExponentialRates(s, ev, i, v, in) ==
  LET a == RatesOn(s, ev, i, v, v[i])
      q0 == TotalOf(a)
      eps == FiniteDifference(v[i], in, s.m.dt)
      slope == NDiv(NSub(TotalOf(RatesOn(s, ev, i, v, NAdd(v[i], eps))), q0), eps)
      end == TangentEnd(v[i], NSub(in, q0), slope, s.m.dt)
      tot == MeanOut(in, v[i], end, s.m.dt)
      b == RatesOn(s, ev, i, v, end)
      w == NAdd(q0, TotalOf(b))
  IN IF NLeq(slope, "1e-10") THEN a
     ELSE IF NLeq(w, 0) THEN [k \in DOMAIN a |-> [n \in 1..Len(a[k]) |-> 0]]
     ELSE Blend(a, b, NDiv(tot, w))

(* the store runs dry: its constant demands (which stop at once when it is empty) exceed what there is *)
Dry(s, ev, i, v, in, q) == NLeq(NAdd(v[i], NMul(s.m.dt, NSub(in, q))), "1e-6")
SequentialOk(s, ev) ==
  LET v == Start(s, ev) IN
  \A i \in DOMAIN v :
    LET ks == StoreProcs(s, i)
        in == NDiv(Inflow(s, ev, i), s.m.dt)
        over == \E k \in ks : Procs(s)[k].type = "overflow" /\ ~IsZero(ev.o[Procs(s)[k].flows[1]])
    IN IF (\E k \in ks : Procs(s)[k].skip) \/ over \/ NLeq(ev.c[i], "1e-6") THEN TRUE
       ELSE CASE s.m.solver = "analytic_linear" -> Taken(s, ev, i, AnalyticRates(s, ev, i, v, in))
              [] s.m.solver = "exponential_euler" -> Taken(s, ev, i, ExponentialRates(s, ev, i, v, in))
              [] s.m.solver = "implicit_euler" -> Dry(s, ev, i, v, in, TotalOf(RatesOn(s, ev, i, v, "1e-6"))) \/ Taken(s, ev, i, RatesOn(s, ev, i, v, ev.c[i]))
              [] s.m.solver = "crank_nicolson" ->
                   Dry(s, ev, i, v, in, NDiv(NAdd(TotalOf(RatesOn(s, ev, i, v, v[i])), TotalOf(RatesOn(s, ev, i, v, "1e-6"))), "2.0")) \/
                   Taken(s, ev, i, Blend(RatesOn(s, ev, i, v, v[i]), RatesOn(s, ev, i, v, ev.c[i]), "0.5"))

SolverOk(s, ev) ==
  CASE s.m.solver = "euler_explicit" -> EulerOk(s, ev)
    [] s.m.solver = "heun_explicit" -> HeunOk(s, ev)
    [] s.m.solver = "rk4" -> RK4Ok(s, ev)
    [] OTHER -> SequentialOk(s, ev)

-------------------------------------------------------------------------------
(* precipitation: rain, then snow; each land cover receives the whole depth of both *)
SplitOk(s, ev, n) ==
  LET p == s.m.splits[n]
      fo == ev.fo[p.u]
      is(j, x) == NClose(ev.o[p.flows[j]], x, "1e-9")
  IN IF p.type = "multi_fluxes" THEN \A j \in 1..Len(p.flows) : is(j, ev.o[p.from])
     ELSE /\ is(1, Rain(p.type, p.par, fo, p.elev))
          /\ p.type = "rain" \/ is(2, Snow(p.type, p.par, fo, p.elev))
(* every land cover is reached, by the rain once and by the snow once *)
Reached(s) ==
  \A c \in 1..Len(s.m.reach) :
    LET r == s.m.reach[c] IN \A n \in 1..Len(r) : Len(r[n]) = 1

Name(p) == p.type \o " of " \o p.b
Checks(s, ev) ==
  CASE ev.e = "step" ->
         (IF s.m.what = "laws" \/ s.m.what = "all"
          THEN {<<Name(Procs(s)[k]), DirectOk(s, ev, k)>> : k \in {k \in 1..Len(Procs(s)) : ~Procs(s)[k].solver /\ ~Procs(s)[k].skip}} \cup
               {<<"demand left in unit", IF s.m.gr THEN \A u \in 1..Len(ev.fo) :
                   Close(ev.fo[u].pet, Demand(s, ev, [u |-> u, rank |-> Late])) ELSE TRUE>>}
          ELSE {}) \cup
         (IF s.m.what = "solver" \/ s.m.what = "all" THEN {<<"scheme " \o s.m.solver, SolverOk(s, ev)>>} ELSE {}) \cup
         (IF s.m.what = "rain"
          THEN {<<s.m.splits[n].name, SplitOk(s, ev, n)>> : n \in 1..Len(s.m.splits)} \cup {<<"covers reached", Reached(s)>>} ELSE {}) \cup
         (IF s.m.what = "lateral" THEN {<<Name(Procs(s)[k]), LateralOk(s, ev, k)>> : k \in LateralProcs(s)} ELSE {})
    [] ev.e \in {"init", "moved"} -> {<<"shape", Len(ev.c) = Len(s.T.stores)>>}
    [] OTHER -> {<<"unknown " \o ev.e, FALSE>>}
Post(s, ev) ==
  CASE ev.e = "step" -> [s EXCEPT !.c = ev.c,
                          !.g = [k \in 1..Len(Procs(s)) |-> IF Procs(s)[k].type = "melt:cemaneige" THEN ColdAt(s, ev, k) ELSE s.g[k]],
                          !.d = [k \in 1..Len(Procs(s)) |-> IF Procs(s)[k].lateral THEN NextDensity(s, ev, k) ELSE s.d[k]]]
    [] OTHER -> [s EXCEPT !.c = ev.c]
TB == INSTANCE TraceBase
Spec == TB!Spec
=============================================================================
