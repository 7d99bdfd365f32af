------------------------------ MODULE Options ------------------------------
(***************************************************************************)
(* Solver options of Orbit objects: every object has its own, given at its *)
(* creation (the rest are defaults), changed in place, carried by copies.  *)
(* Whatever way the mean anomaly of an object is solved for, the options   *)
(* are those of that object at that moment.                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, FiniteSets
CONSTANTS Limits, Degrees, Tols, MaxObj, Depth, Routes, Types
VARIABLES objs,   \* sequence of [max, degree, tol, type]
          hist
vars == <<objs, hist>>
Default == [max |-> 5000, degree |-> 5, tol |-> "tight"]
Init == /\ objs = <<>> /\ hist = <<>>
Do(r) == hist' = Append(hist, r)
New == /\ Len(objs) < MaxObj
       /\ \E m \in Limits \cup {-1}, g \in Degrees \cup {-1}, t \in Tols \cup {"-"}, ty \in Types :
            LET o == [max |-> IF m = -1 THEN Default.max ELSE m, degree |-> IF g = -1 THEN Default.degree ELSE g,
                      tol |-> IF t = "-" THEN Default.tol ELSE t, type |-> ty]
            IN /\ objs' = Append(objs, o)
               /\ Do([op |-> "new", k |-> Len(objs) + 1, max |-> m, degree |-> g, tol |-> t, type |-> ty])
Copy == /\ Len(objs) < MaxObj
        /\ \E k \in DOMAIN objs, how \in {"copy", "deepcopy", "member", "slice", "iter"} :
             /\ objs' = Append(objs, objs[k])
             /\ Do([op |-> "copy", k |-> k, how |-> how])
Set == \E k \in DOMAIN objs :
         \/ \E m \in Limits : objs' = [objs EXCEPT ![k].max = m] /\ Do([op |-> "set", k |-> k, key |-> "max_iter", value |-> m])
         \/ \E g \in Degrees : objs' = [objs EXCEPT ![k].degree = g] /\ Do([op |-> "set", k |-> k, key |-> "degree", value |-> g])
Solve == \E k \in DOMAIN objs, r \in Routes :
           /\ (r \in {"read-true", "read-eccentric", "cartesian", "set-type", "calc-true", "calc-eccentric"}) => objs[k].type = "mean"
           /\ (r \in {"set-mean", "equinoctial", "propagate"}) => objs[k].type # "mean"
           /\ objs' = objs
           /\ Do([op |-> "solve", k |-> k, route |-> r, with |-> objs[k]])
Next == /\ Len(hist) < Depth /\ (New \/ Copy \/ Set \/ Solve)
Spec == Init /\ [][Next]_vars
\* only the object operated on changes; a solution is found with the options of its own object
Separate == [][ \A k \in DOMAIN objs : objs'[k] # objs[k] => hist'[Len(hist')].op = "set" /\ hist'[Len(hist')].k = k ]_vars
OwnOptions == \A n \in DOMAIN hist : hist[n].op = "solve" =>
    LET k == hist[n].k
        last(key, dflt) == LET S == {j \in 1..(n - 1) : hist[j].op = "set" /\ hist[j].k = k /\ hist[j].key = key}
                           IN IF S = {} THEN dflt ELSE hist[CHOOSE j \in S : \A i \in S : i <= j].value
    IN last("max_iter", hist[n].with.max) = hist[n].with.max /\ last("degree", hist[n].with.degree) = hist[n].with.degree
Emit == (hist'[Len(hist')].op = "solve") => PrintT(ToJson(hist'))
View == <<objs, Len(hist), IF hist = <<>> THEN <<>> ELSE hist[Len(hist)], [n \in DOMAIN hist |-> hist[n].op]>>
=============================================================================
