------------------------------- MODULE Pieces -------------------------------
(***************************************************************************)
(* Evaluating many orbits at once is evaluating them in pieces.  A state is*)
(* an arrangement of an array of n orbits into consecutive pieces; the     *)
(* transitions cut a piece in two or rearrange the array.  What belongs to *)
(* an orbit is a function of that orbit alone (uninterpreted here), so     *)
(* putting the results of the pieces together gives the result of the      *)
(* whole, wherever the cuts are and however large the pieces.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, FiniteSets

CONSTANTS Fns, Sizes, Points, MaxCuts, Orders

VARIABLES fn, n, cuts, order, done
vars == <<fn, n, cuts, order, done>>

Last(s) == IF s = <<>> THEN 0 ELSE s[Len(s)]
\* cut points near the ends, the middle and the powers of two
At(p) == CASE p = "first" -> 1 [] p = "last" -> n - 1 [] p = "half" -> n \div 2 [] p = "64" -> 64 [] p = "1000" -> 1000
           [] p = "1024" -> 1024 [] p = "4096" -> 4096 [] p = "8192" -> 8192 [] p = "16384" -> 16384 [] p = "65536" -> 65536

Init == fn \in Fns /\ n \in Sizes /\ cuts = <<>> /\ order = "none" /\ done = FALSE
Cut == /\ ~done /\ Len(cuts) < MaxCuts
       /\ \E p \in Points : At(p) > Last(cuts) /\ At(p) < n /\ cuts' = Append(cuts, At(p))
       /\ UNCHANGED <<fn, n, order, done>>
Evaluate == /\ ~done /\ cuts # <<>> /\ done' = TRUE /\ order' \in Orders /\ UNCHANGED <<fn, n, cuts>>
Next == Cut \/ Evaluate
Spec == Init /\ [][Next]_vars

From(k) == IF k = 1 THEN 0 ELSE cuts[k - 1]
To(k) == IF k > Len(cuts) THEN n ELSE cuts[k]
Num == Len(cuts) + 1
\* every orbit is in exactly one piece
Partition == /\ From(1) = 0 /\ To(Num) = n
             /\ \A k \in 1..Num : From(k) < To(k)
             /\ \A k \in 1..(Num - 1) : To(k) = From(k + 1)
\* position of the orbit j (0 .. n-1) of the array after rearranging it
Place(j) == CASE order = "reversed" -> n - 1 - j
              [] order = "rotated" -> (j + n \div 3) % n
              [] OTHER -> j
\* the value at the place of an orbit is that of the orbit: checked on the ends of the pieces
Ends == {0, n - 1} \cup {cuts[k] : k \in 1..Len(cuts)} \cup {cuts[k] - 1 : k \in 1..Len(cuts)}
Injective == \A i, j \in Ends : Place(i) = Place(j) => i = j

Emit == done' => PrintT(ToJson([fn |-> fn, n |-> n, cuts |-> cuts, order |-> order']))
=============================================================================
