--------------------------- MODULE MC_Hydrograph ----------------------------
(* Every history of inflows through a unit hydrograph, with deliveries that are  *)
(* prompt or late: what is in transit is what has come and not left, and prompt   *)
(* deliveries are the convolution of the inflows by the shares.                   *)
EXTENDS Routing, FiniteSets
CONSTANTS T, MaxIn, Prompt,
          Carry,    \* what is late is due in the next step
          Change    \* the hydrograph may be replaced while water is in transit
Quarters == 4
Shapes == {<<4>>, <<1, 3>>, <<2, 2>>, <<1, 2, 1>>, <<0, 1, 3>>, <<1, 1, 1, 1>>}
VARIABLES w, q, ins, out, sum, lost
vars == <<w, q, ins, out, sum, lost>>
Init == w \in Shapes /\ q = Fresh(Len(w)) /\ ins = <<>> /\ out = 0 /\ sum = 0 /\ lost = 0
Step == /\ Len(ins) < T
        /\ \E x \in 0..MaxIn :
             LET due == Due(w, q, x)
             IN \E d \in (IF Prompt THEN {due} ELSE 0..due) :
                  /\ out' = d /\ sum' = sum + d /\ ins' = Append(ins, x)
                  /\ q' = IF Carry THEN Later(Shift(w, q, x), due - d) ELSE Shift(w, q, x)
        /\ UNCHANGED <<w, lost>>
Replace == /\ Change /\ \E v \in Shapes : v # w /\ w' = v /\ q' = Fit(q, Len(v))
           /\ lost' = lost + NSum(q) - NSum(q')
           /\ UNCHANGED <<ins, out, sum>>
Next == Step \/ Replace
Spec == Init /\ [][Next]_vars
InTransit == Quarters * NSum(ins) = sum + NSum(q) + lost
Whole == \A v \in Shapes : NSum(v) = Quarters
Positive == \A j \in 1..Len(q) : q[j] >= 0
Convolution == Prompt /\ ~Change /\ ins # <<>> =>
  out = NSum([k \in 1..Len(ins) |-> ins[k] * At(w, Len(ins) - k + 1)])
(* without inflow for as long as the hydrograph, prompt deliveries leave nothing *)
Drained == Prompt /\ Len(ins) >= Len(w) /\ (\A k \in (Len(ins) - Len(w) + 1)..Len(ins) : ins[k] = 0) => NSum(q) = 0
(* a hydrograph at least as long keeps what is in transit *)
Kept == [][(Len(w') >= Len(w) /\ w' # w) => lost' = lost]_vars
Simple == Len(q) > 2 => q[1] = 0 \/ q[2] = 0
=============================================================================
