------------------------------ MODULE NumTypes ------------------------------
(***************************************************************************)
(* The numeric type of an argument is a way of storing numbers, not part of*)
(* them.  A state assigns storage to the arguments of a function one after *)
(* another: element type and container.  An argument is known by the size  *)
(* and sign of its numbers; a storage is possible when it represents them  *)
(* exactly.  Whatever the storage, the numbers can all be carried to       *)
(* floating point exactly, so the result is that of the same numbers in    *)
(* floating point.  Where the products and powers a formula forms exceed   *)
(* the type (Exceeds) this is what integer arithmetic would not give.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, FiniteSets

CONSTANTS Fns, Types, Containers, Units, MaxScalars, Cases

VARIABLES fn, case, deg, types, conts, done
vars == <<fn, case, deg, types, conts, done>>

\* sizes of the numbers of each argument: s below 2^7, m below 2^32, l below 2^50; a minus for numbers of both signs
Pairs == {"true_to_eccentric", "true_to_mean", "eccentric_to_true", "eccentric_to_mean"}
MeanPairs == {"mean_to_eccentric", "mean_to_true"}
One == {"stumpff0", "stumpff1", "stumpff2", "stumpff3"}
Table(f) ==
  CASE f \in Pairs -> << <<"s", "s">>, <<"-s", "s">> >>
    [] f \in MeanPairs -> << <<"s", "s">>, <<"-s", "s">>, <<"m", "s">>, <<"l", "s">>, <<"-l", "s">> >>
    [] f = "kepler_guess" -> << <<"s", "s">>, <<"-l", "s">> >>
    [] f \in One -> << <<"s">>, <<"-s">>, <<"m">> >>
    [] f = "true_of_the_asymptote" -> << <<"s">> >>
    [] f = "kep_to_cart" -> << <<"s", "s">>, <<"m", "s">>, <<"l", "l">>, <<"-s", "s">>, <<"s", "l">> >>
    [] f = "cart_to_kep" -> << <<"s", "s">>, <<"-s", "s">>, <<"l", "l">>, <<"-l", "l">> >>
    [] f = "cart_to_equi" -> << <<"s", "s">>, <<"-s", "s">>, <<"l", "l">> >>
    [] f = "equi_to_cart" -> << <<"s", "s">>, <<"l", "l">>, <<"-s", "s">> >>
    [] f = "equi_to_kep" -> << <<"s">>, <<"l">>, <<"-s">> >>
    [] f = "kep_to_equi" -> << <<"s">>, <<"l">>, <<"-s">> >>
    [] f = "orbital_period" -> << <<"s", "s">>, <<"m", "s">>, <<"l", "l">>, <<"s", "l">> >>
    [] f = "semi_major_axis" -> << <<"s", "s">>, <<"m", "s">>, <<"l", "l">>, <<"s", "l">> >>
    [] f = "parabolic_total_angular_momentum" -> << <<"s", "s">>, <<"m", "m">>, <<"l", "l">> >>
    [] f = "orbit_total_angular_momentum" -> << <<"s", "s", "s">>, <<"m", "s", "m">>, <<"l", "s", "l">>, <<"-s", "s", "s">>, <<"-l", "s", "l">> >>
    [] f = "orbital_speed" -> << <<"s", "s", "s">>, <<"m", "m", "l">>, <<"l", "l", "l">>, <<"s", "-s", "s">>, <<"l", "-l", "l">> >>
    [] f = "elliptic_radius" -> << <<"s", "s", "s">>, <<"-s", "l", "s">> >>
    [] f = "hyperbolic_radius" -> << <<"s", "s", "s">>, <<"-s", "l", "s">> >>
    [] f = "parabolic_radius" -> << <<"s", "s">>, <<"-s", "l">> >>
    [] f = "orbital_distance" -> << <<"s", "s", "s", "s">>, <<"m", "m", "s", "s">>, <<"l", "l", "s", "-s">> >>
    [] f = "euler_rotation_matrix" -> << <<"s", "s", "s">>, <<"-s", "s", "m">> >>
    [] f = "kep_equivalent" -> << <<"s", "s">>, <<"l", "l">> >>
    [] f = "Orbit.kepler" -> << <<"s", "s">>, <<"l", "l">>, <<"-s", "s">> >>      \* elements and masses
    [] f = "Orbit.cartesian" -> << <<"s", "s">>, <<"-l", "l">> >>
    [] f = "Orbit.equinoctial" -> << <<"s">>, <<"l">> >>
    [] f = "Orbit.a" -> << <<"s">>, <<"l">> >>
    [] f = "Orbit.x" -> << <<"s">>, <<"-l">> >>
    [] f = "Orbit.anomalies" -> << <<"s">>, <<"-s">> >>
    [] f = "Orbit.period" -> << <<"s">>, <<"m">>, <<"l">> >>
    [] f = "Orbit.mean_motion" -> << <<"s">> >>
    [] f = "Orbit.velocity" -> << <<"s">> >>
    [] f = "Orbit.propagate" -> << <<"s">>, <<"-s">>, <<"m">> >>
    [] f = "Orbit.update" -> << <<"s", "s">>, <<"l", "l">> >>                      \* semi-major axes and masses
    [] f = "Orbit.add" -> << <<"s", "s">>, <<"l", "l">> >>

Wanted == Table(fn)[case]
Neg(z) == z \in {"-s", "-m", "-l"}
Bits(z) == CASE z \in {"s", "-s"} -> 7 [] z \in {"m", "-m"} -> 32 [] z \in {"l", "-l"} -> 50
Signed(t) == t \in {"f8", "f4", "i8", "i4", "bf8", "bi8"}
Capacity(t) == CASE t \in {"f8", "bf8"} -> 53 [] t = "f4" -> 24 [] t \in {"i8", "bi8"} -> 63 [] t = "u8" -> 64 [] t = "i4" -> 31 [] t = "u4" -> 32
Fits(t, z) == Bits(z) <= Capacity(t) /\ (Neg(z) => Signed(t))
\* state vectors are arrays
Arrays(f, q) == (f \in {"kep_to_cart", "cart_to_kep", "cart_to_equi", "equi_to_cart", "equi_to_kep", "kep_to_equi", "Orbit.kepler", "Orbit.cartesian",
                        "Orbit.equinoctial", "Orbit.update", "Orbit.add"} /\ q = 1) \/ f = "kep_equivalent"

Init == /\ fn \in Fns /\ case \in 1..Len(Table(fn)) /\ case \in Cases /\ deg \in Units
        /\ types = <<>> /\ conts = <<>> /\ done = FALSE
Scalars(c) == Cardinality({q \in 1..Len(c) : c[q] # "array"})
Assign == /\ ~done /\ Len(types) < Len(Wanted)
          /\ \E t \in Types, c \in Containers :
               /\ Fits(t, Wanted[Len(types) + 1])
               /\ (Arrays(fn, Len(types) + 1) => c = "array")
               /\ types' = Append(types, t) /\ conts' = Append(conts, c)
               /\ Scalars(conts') <= MaxScalars \/ Scalars(conts') = Len(conts')
               /\ (fn = "euler_rotation_matrix" => Scalars(conts') \in {0, Len(conts')})
          /\ done' = (Len(types') = Len(Wanted))
          /\ UNCHANGED <<fn, case, deg>>
Next == Assign
Spec == Init /\ [][Next]_vars

\* the stored numbers are the numbers meant
Represented == \A q \in 1..Len(types) : Fits(types[q], Wanted[q])
\* floating point holds all of them exactly (singles only when something is stored in single precision)
Carried == \A q \in 1..Len(types) : Bits(Wanted[q]) <= IF types[q] = "f4" THEN 24 ELSE 53
\* storage does not decide which results there are: every function can be called with floating point everywhere
AllFloat == \A q \in 1..Len(Wanted) : Fits("f8", Wanted[q])
Exceeds == LET k == {q \in 1..Len(types) : types[q] \notin {"f8", "bf8", "f4"}} IN \E q, r \in k : Bits(Wanted[q]) + Bits(Wanted[r]) > Capacity(types[q])

Emit == done' => PrintT(ToJson([fn |-> fn, case |-> case, deg |-> deg, types |-> types', conts |-> conts', sizes |-> Wanted, exceeds |-> (Exceeds)']))
=============================================================================
