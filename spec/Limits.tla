------------------------------- MODULE Limits -------------------------------
(***************************************************************************)
(* Which orbits count as circular, as lying in the reference plane and as  *)
(* parabolic.  The limits are two settings of the module pyorb.kepler; a   *)
(* state is their present values, a transition sets one of them or converts*)
(* an orbit.  How an orbit is described depends on the present limits and  *)
(* on nothing else; the orbit itself does not.                             *)
(*                                                                         *)
(* Sizes are ranks: an orbit quantity of rank k is far smaller than a limit*)
(* of rank k + 1 and far larger than one of rank k - 1.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, FiniteSets

CONSTANTS Es, Is, Shifts, Fns, MaxLen, LimE, LimI

\* [near |-> "zero" or "one" or "no", rank, side]
ERank == [z |-> 0, t |-> 1, s |-> 3, b |-> 5, m |-> 7, g |-> 9,      \* e itself
          o0 |-> 0, ot |-> 1, os |-> 3, ob |-> 5, om |-> 7,          \* 1 - e
          p0 |-> 0, pt |-> 1, ps |-> 3, pb |-> 5, pm |-> 7]          \* e - 1
IRank == [z |-> 0, s |-> 3, b |-> 5, c |-> 9, rz |-> 0, rs |-> 3, rb |-> 5, rc |-> 9]      \* i, pi - i
LimRank == [default |-> 2, medium |-> 4, large |-> 6]
NearZero == {"z", "t", "s", "b", "m", "g"}
NearOne == {"o0", "ot", "os", "ob", "om", "p0", "pt", "ps", "pb", "pm"}
Hyper == {"pt", "ps", "pb", "pm"}
Exact == {"o0", "p0"}
Back == {"rz", "rs", "rb"}         \* close to the plane, moving backwards

VARIABLES o,        \* [e, i, shift]
          le, li,   \* the limits
          path
vars == <<o, le, li, path>>

CircAt(x, l) == x \in NearZero /\ ERank[x] < LimRank[l]
ParAt(x, l) == x \in NearOne /\ ERank[x] < LimRank[l]
PlanarAt(x, l) == IRank[x] < LimRank[l]

\* What the elements become, as combinations of the angles given
Canon(c, p, back) ==
  LET om == IF p THEN (IF back THEN <<1, -1, 0>> ELSE <<1, 1, 0>>) ELSE <<1, 0, 0>>
      OM == IF p THEN <<0, 0, 0>> ELSE <<0, 1, 0>>
  IN IF c THEN [om |-> <<0, 0, 0>>, OM |-> OM, nu |-> <<om[1], om[2], 1>>] ELSE [om |-> om, OM |-> OM, nu |-> <<0, 0, 1>>]

\* Another description of the orbit: the same one exactly if what is shifted does not matter
SameOrbit(s, c, p) == CASE s = "none" -> TRUE
                        [] s = "periapsis" -> c          \* omega + x, nu - x
                        [] s = "node" -> p               \* Omega + x, omega - x (+ x backwards)
                        [] s = "both" -> c /\ p          \* Omega + x, nu - x (+ x)
                        [] s = "nu" -> FALSE             \* nu + x
\* a description that needs c and p is equivalent the more often, the larger the limits are

Init == /\ le = "default" /\ li = "default" /\ path = <<>>
        /\ o \in [e : Es, i : Is, shift : Shifts]

Set == \/ \E l \in LimE : l # le /\ le' = l /\ li' = li /\ o' = o /\ path' = Append(path, <<"e_lim", l>>)
       \/ \E l \in LimI : l # li /\ li' = l /\ le' = le /\ o' = o /\ path' = Append(path, <<"i_lim", l>>)
Equi == o.e \in NearZero \cup {"om"} /\ o.i \notin {"rz", "rs", "rb"}
Convert ==
  \E f \in Fns :
    /\ f \in {"c2e", "e2k", "e2c"} => Equi
    /\ f = "eqv" \/ o.shift = "none"
    /\ path' = Append(path, <<f, "">>)
    /\ UNCHANGED <<o, le, li>>
Next == Len(path) < MaxLen /\ (Set \/ Convert)
Spec == Init /\ [][Next]_vars

Circ == CircAt(o.e, le)
Par == ParAt(o.e, le)
Planar == PlanarAt(o.i, li)

\* A larger limit takes in whatever a smaller one does
Monotone == \A l \in {"medium", "large"} : \A k \in {"default", "medium"} :
   LimRank[k] < LimRank[l] => /\ CircAt(o.e, k) => CircAt(o.e, l)
                              /\ ParAt(o.e, k) => ParAt(o.e, l)
                              /\ PlanarAt(o.i, k) => PlanarAt(o.i, l)
Exclusive == ~(Circ /\ Par)
\* Conversions leave the limits alone, so what matters is the last value set
RECURSIVE LastSet(_, _, _)
LastSet(p, nm, d) == IF p = <<>> THEN d ELSE IF p[Len(p)][1] = nm THEN p[Len(p)][2] ELSE LastSet(SubSeq(p, 1, Len(p) - 1), nm, d)
Present == le = LastSet(path, "e_lim", "default") /\ li = LastSet(path, "i_lim", "default")
\* the angles that a state fixes are kept by the canonical description
Kept == LET k == Canon(Circ, Planar, o.i \in Back \cup {"rc"}) IN
   LET s == [j \in 1..3 |-> k.om[j] + k.nu[j] + (IF o.i \in Back THEN -k.OM[j] ELSE k.OM[j])]
   IN s = (IF o.i \in Back THEN <<1, -1, 1>> ELSE <<1, 1, 1>>)

Emit == (path'[Len(path')][1] \in Fns) =>
   LET c == CircAt(o.e, le) IN LET p == PlanarAt(o.i, li) IN
   PrintT(ToJson([o |-> o, path |-> path', circ |-> c, planar |-> p, par |-> ParAt(o.e, le), back |-> o.i \in Back,
                  el |-> Canon(c, p, o.i \in Back), same |-> SameOrbit(o.shift, c, p)]))
=============================================================================
