----------------------------- MODULE Quantities -----------------------------
(***************************************************************************)
(* The formulas of the two-body problem as a network of relations.  A      *)
(* state is an orbit of some kind together with the quantities computed so *)
(* far; a transition evaluates one function of the library on quantities   *)
(* already known and replaces (or adds) the quantity it returns.  All the  *)
(* functions describe the same orbit, so whichever way a quantity is       *)
(* reached, its value is the one that belongs to the orbit: the harness    *)
(* draws numbers for each kind of orbit and checks the value of the last   *)
(* step of every path.                                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, FiniteSets

CONSTANTS Eccs, Places, Scales, MaxLen, Spread, Fns, LastFns

VARIABLES cls,      \* [e, place, sc, turn]
          start,    \* quantities given: which size, which anomaly
          known,    \* quantities with a value
          unused,   \* computed, but not used by a later step
          path
vars == <<cls, start, known, unused, path>>

EccOrder  == <<"zero", "tiny", "slight", "small", "mid", "high", "top", "brink", "one", "hbrink", "hyp", "far", "giant">>
PlaceOrder == <<"peri", "past", "out1", "quarter", "out2", "nearapo", "apo", "pastapo", "in2", "threeq", "in1", "near", "beyond", "inbeyond">>
ScaleOrder == <<"unit", "sun", "earth", "days", "small">>
Conic(c) == IF c.e = "one" THEN "par" ELSE IF c.e \in {"hbrink", "hyp", "far", "giant"} THEN "hyp" ELSE "ell"
All == {"ell", "par", "hyp"}

\* function -> inputs, result, kinds of orbit
D(in, out, con) == [in |-> in, out |-> out, con |-> con]
F == [ t2E |-> D({"nu", "e"}, "E", All), E2t |-> D({"E", "e"}, "nu", All),
       E2M |-> D({"E", "e"}, "M", All), M2E |-> D({"M", "e"}, "E", All),
       t2M |-> D({"nu", "e"}, "M", All), M2t |-> D({"M", "e"}, "nu", All),
       er  |-> D({"E", "a", "e"}, "r", {"ell"}),
       pr  |-> D({"nu", "q"}, "r", {"par"}),
       hr  |-> D({"nu", "a", "e"}, "r", {"hyp"}),
       od  |-> D({"h", "mu", "e", "nu"}, "r", All),
       hm  |-> D({"a", "e", "mu"}, "h", {"ell", "hyp"}),
       ph  |-> D({"q", "mu"}, "h", {"par"}),
       sp  |-> D({"r", "a", "mu"}, "v", {"ell", "hyp"}),
       esc |-> D({"r", "mu"}, "v", {"par"}),               \* 1/a = 0
       per |-> D({"a", "mu"}, "P", {"ell"}),
       sma |-> D({"P", "mu"}, "a", {"ell"}),
       asy |-> D({"e"}, "ninf", {"hyp"}),
       place  |-> D({"a", "e", "nu", "mu"}, "x", {"ell", "hyp"}),
       placeP |-> D({"q", "e", "nu", "mu"}, "x", {"par"}),
       mr |-> D({"x"}, "r", All), mv |-> D({"x"}, "v", All), mh |-> D({"x"}, "h", All),
       \* the same from an Orbit object
       oP |-> D({"a", "e", "mu"}, "P", {"ell"}),
       ov |-> D({"a", "e", "nu", "mu"}, "v", {"ell", "hyp"}),
       oE |-> D({"nu", "e", "a", "mu"}, "E", {"ell", "hyp"}),
       oM |-> D({"nu", "e", "a", "mu"}, "M", {"ell", "hyp"}),
       oV |-> D({"q", "e", "nu", "mu"}, "v", {"par"}) ]

\* Dimensions (length, time), doubled
Dim == [ nu |-> <<0, 0>>, E |-> <<0, 0>>, M |-> <<0, 0>>, e |-> <<0, 0>>, ninf |-> <<0, 0>>,
         a |-> <<2, 0>>, q |-> <<2, 0>>, r |-> <<2, 0>>, P |-> <<0, 2>>, h |-> <<4, -2>>, v |-> <<2, -2>>, mu |-> <<6, -4>> ]
\* exponents (times 6) with which the dimensional inputs enter the leading term of a function
Pow == [ er |-> [a |-> 6], pr |-> [q |-> 6], hr |-> [a |-> 6], od |-> [h |-> 12, mu |-> -6], hm |-> [a |-> 3, mu |-> 3],
         ph |-> [q |-> 3, mu |-> 3], sp |-> [mu |-> 3, a |-> -3], esc |-> [mu |-> 3, r |-> -3], per |-> [a |-> 9, mu |-> -3],
         sma |-> [P |-> 4, mu |-> 2] ]
RECURSIVE Sum(_, _, _)
Sum(f, S, k) == IF S = {} THEN 0 ELSE LET z == CHOOSE z \in S : TRUE IN Pow[f][z] * Dim[z][k] + Sum(f, S \ {z}, k)
ASSUME Homogeneous == \A f \in DOMAIN Pow : \A k \in {1, 2} : Sum(f, DOMAIN Pow[f], k) = 6 * Dim[F[f].out][k]

Pick(order, set, n) == LET s == SelectSeq(order, LAMBDA z : z \in set) IN s[1 + (n % Len(s))]
Pos(order, z) == CHOOSE k \in 1..Len(order) : order[k] = z

Init ==
  \E e \in Eccs, pl \in Places, s \in 1..Spread :
    LET n == Pos(EccOrder, e) + 5 * Pos(PlaceOrder, pl)
    IN /\ cls = [e |-> e, place |-> pl, sc |-> Pick(ScaleOrder, Scales, n + s), turn |-> ((n + 2 * s) % 5) - 2]
       /\ (pl \in {"apo", "nearapo", "pastapo"}) => Conic(cls) = "ell"
       /\ (pl \in {"beyond", "inbeyond"}) => Conic(cls) # "ell"
       /\ path = <<>> /\ unused = {}
       /\ \E an \in {"nu", "E", "M"}, size \in {"a", "P", "q"} :
            /\ (size = "q") = (Conic(cls) = "par")
            /\ (size = "P") => Conic(cls) = "ell"
            /\ start = <<size, an>>
            /\ known = {"e", "mu", size, an}

Next ==
  /\ Len(path) < MaxLen
  /\ \E f \in Fns :
       LET d == F[f] IN
       /\ Conic(cls) \in d.con /\ d.in \subseteq known
       /\ \A k \in 1..Len(path) : path[k] # f
       /\ d.out \notin unused \ d.in
       /\ unused' = (unused \ d.in) \cup {d.out}
       /\ Cardinality(unused') <= MaxLen - Len(path)          \* the rest can still use them
       /\ known' = known \cup {d.out}
       /\ path' = Append(path, f)
       /\ UNCHANGED <<cls, start>>
Spec == Init /\ [][Next]_vars

\* Nothing is known that the kind of orbit does not have
Defined ==
  /\ Conic(cls) = "par" => known \cap {"a", "P", "ninf"} = {}
  /\ Conic(cls) = "hyp" => known \cap {"q", "P"} = {}
  /\ Conic(cls) = "ell" => known \cap {"q", "ninf"} = {}
UsedIsKnown == unused \subseteq known
\* Whatever is given, everything the orbit has can be reached
RECURSIVE Closure(_)
Closure(S) == LET T == S \cup {F[f].out : f \in {g \in DOMAIN F : Conic(cls) \in F[g].con /\ F[g].in \subseteq S}}
              IN IF T = S THEN S ELSE Closure(T)
Has == {"e", "mu", "nu", "E", "M", "r", "v", "h", "x"} \cup
       (CASE Conic(cls) = "ell" -> {"a", "P"} [] Conic(cls) = "par" -> {"q"} [] OTHER -> {"a", "ninf"})
Complete == path = <<>> => Closure(known) = Has

Emit == (Cardinality(unused') = 1 /\ path'[Len(path')] \in LastFns) =>
   PrintT(ToJson([c |-> cls, s |-> start, path |-> path', out |-> F[path'[Len(path')]].out, con |-> Conic(cls)]))
=============================================================================
