---------------------------- MODULE SolverTrace ----------------------------
(***************************************************************************)
(* Checks recorded runs of the solver against Solver.tla.                  *)
(*                                                                         *)
(* A trace is the classes of the iterates ("above", "below" tol, or "edge" *)
(* when rounding decides) and the runs [max, n, ids, conv]: the limit, the *)
(* iterations reported (-1: the function called does not tell), which      *)
(* iterates the result equals, and whether a run with this limit has to    *)
(* converge.                                                               *)
(* Each run is stepped through the process of Solver.tla; an edge goes     *)
(* either way, but the same way in all runs of a trace.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANT File
Traces == JsonDeserialize(File)
VARIABLES t, known, j, n   \* trace, decided edges, run, iterations of the run
vars == <<t, known, j, n>>
T == Traces[t]
Run == T.runs[j]
Class(k) == LET c == T.cls[k + 1] IN   \* iterates are numbered from 0
              IF c # "edge" THEN {c} ELSE IF k \in DOMAIN known THEN {known[k]} ELSE {"above", "below"}
Learn(k, c) == known' = IF T.cls[k + 1] = "edge" /\ k \notin DOMAIN known THEN known @@ (k :> c) ELSE known
In(s, x) == \E i \in DOMAIN s : s[i] = x
Init == t \in 1..Len(Traces) /\ known = [k \in {} |-> "above"] /\ j = 1 /\ n = 0
Iterate == /\ j <= Len(T.runs) /\ n < Run.max /\ n + 1 < Len(T.cls)
           /\ "above" \in Class(n) /\ Learn(n, "above")
           /\ n' = n + 1 /\ UNCHANGED <<t, j>>
Return == /\ j <= Len(T.runs)
          /\ Run.n \in {-1, n} /\ In(Run.ids, n)
          /\ \/ "below" \in Class(n) /\ Learn(n, "below")
             \/ n = Run.max /\ ~Run.conv /\ "above" \in Class(n) /\ Learn(n, "above")
          /\ j' = j + 1 /\ n' = 0 /\ UNCHANGED t
Next == Iterate \/ Return
Spec == Init /\ [][Next]_vars
Accepted == (j' = Len(T.runs) + 1 /\ j # j') => PrintT(ToJson([accepted |-> t]))
=============================================================================
