--------------------------- MODULE MC_Parameters ----------------------------
(* Requests handled item by item and variant by variant, as a program does it, between  *)
(* updates and runs: when a request ends, the settings are those of the specification,  *)
(* and a run uses those of the last update.                                             *)
EXTENDS Parameters
CONSTANTS MaxRequests,
          Check,      \* look for everything before changing anything
          AllVariants \* do not stop at the first variant that has the component
VARIABLES vs, val, before, req, q, k, ok, used, model, n
vars == <<vs, val, before, req, q, k, ok, used, model, n>>
Soil(ps) == [n |-> "soil", type |-> "storage", brick |-> TRUE, par |-> ps]
Ice == [n |-> "ice", type |-> "glacier", brick |-> TRUE, par |-> << <<"flag">>, <<"ddf", "tt">> >>]
Land == [n |-> "land", type |-> "ground", brick |-> TRUE, par |-> << <<>>, <<"ddf">> >>]
Split == [n |-> "split", type |-> "linear", brick |-> FALSE, par |-> << <<"tt">> >>]
Structures == {<< <<Land, Soil(<< <<"cap">>, <<"k">> >>), Split>>, <<Ice, Land, Soil(<< <<"cap">>, <<"k">> >>), Split>> >>,
               << <<Ice, Soil(<< <<"k">>, <<"k", "cap">> >>)>>, <<Land, Soil(<< <<>>, <<"k">> >>), Split>> >>}
Names(v) == [i \in 1..Len(v) |-> [lv \in 1..Len(v[i].par) |-> [j \in 1..Len(v[i].par[lv]) |-> 0]]]
Items == {[by |-> "name", s |-> x] : x \in {"soil", "ice", "land", "split", "lake"}} \cup
         {[by |-> "type", s |-> x] : x \in {"land_cover", "glacier", "storage"}}
Requests == {[items |-> i, p |-> p] : i \in {<<a>> : a \in Items} \cup {<<a, b>> : a \in Items, b \in Items}, p \in {"k", "cap", "ddf", "tt", "none"}}
Idle == [items |-> <<>>, p |-> "idle"]
Init == /\ vs \in Structures /\ val = [i \in 1..Len(vs) |-> Names(vs[i])] /\ before = val /\ used = val /\ model = val
        /\ req = Idle /\ q = 1 /\ k = 1 /\ ok = TRUE /\ n = 0
Ask == /\ req = Idle /\ n < MaxRequests /\ req' \in Requests /\ n' = n + 1
       /\ q' = 1 /\ k' = 1 /\ before' = val
       /\ ok' = (~Check \/ Granted(vs, req'.items, req'.p))
       /\ UNCHANGED <<vs, val, used, model>>
(* one variant for one item *)
Work == /\ req # Idle /\ ok /\ q <= Len(req.items)
        /\ LET it == req.items[q]
               w == {<<k, a[2], a[3], a[4]>> : a \in Addressed(<<vs[k]>>, <<it>>, req.p)} IN
           /\ ok' = (Known(vs, it) /\ Has(vs, it, req.p))
           /\ val' = (IF Known(vs, it) THEN SetAll(val, w, n) ELSE val)
           /\ IF k = Len(vs) \/ (~AllVariants /\ w # {}) THEN q' = q + 1 /\ k' = 1 ELSE q' = q /\ k' = k + 1
        /\ UNCHANGED <<vs, before, req, used, model, n>>
Done == req # Idle /\ (~ok \/ q > Len(req.items))
End == /\ Done /\ req' = Idle /\ ok' = TRUE /\ q' = 1 /\ k' = 1 /\ UNCHANGED <<vs, val, before, used, model, n>>
Update == req = Idle /\ model # val /\ model' = val /\ UNCHANGED <<vs, val, before, req, q, k, ok, used, n>>
Run == req = Idle /\ used # model /\ used' = model /\ UNCHANGED <<vs, val, before, req, q, k, ok, model, n>>
Next == Ask \/ Work \/ End \/ Update \/ Run
Spec == Init /\ [][Next]_vars
Right == Done => val = After(vs, before, req.items, req.p, n) /\ (ok <=> Granted(vs, req.items, req.p))
(* what was not addressed keeps its value; what was has the new one, in every variant *)
Local == Done /\ ok => \A a \in 1..Len(vs), i \in 1..4 : i <= Len(vs[a]) => \A lv \in 1..Len(val[a][i]) : \A j \in 1..Len(val[a][i][lv]) :
           \/ val[a][i][lv][j] = before[a][i][lv][j]
           \/ val[a][i][lv][j] = n /\ vs[a][i].par[lv][j] = req.p
(* the same component has the same values in all the variants *)
Alike == Done /\ ok => \A a, b \in 1..Len(vs) : \A i \in 1..Len(vs[a]), j \in 1..Len(vs[b]) :
           vs[a][i] = vs[b][j] => (before[a][i] = before[b][j] => val[a][i] = val[b][j])
Never == ~(Done /\ ok /\ Len(req.items) = 2 /\ Cardinality(Addressed(vs, req.items, req.p)) = 3)
=============================================================================
