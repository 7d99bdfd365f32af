------------------------------ MODULE Regions ------------------------------
(***************************************************************************)
(* All orbits, by kind.  A state is a class of orbits (region of           *)
(* eccentricity, inclination, angles, place on the orbit, unit system) in  *)
(* one representation; transitions are the conversion functions.  Angles   *)
(* are integer combinations of the symbols (om, OM, nu), so the documented *)
(* conventions of cart_to_kep act on them symbolically.                    *)
(*                                                                         *)
(* The harness draws numbers for the regions and compares the results of   *)
(* the functions with the angles, legs and ranges predicted here.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, FiniteSets

CONSTANTS Eccs, Incs, Places, Angles, Scales, Fns, LastFns, MaxLen, Start, Spread

VARIABLES cls,     \* [e, i, place, om, OM, sc, turn]
          el,      \* [om, OM, nu]: combinations <<k_om, k_OM, k_nu>>
          rep, fixed, path, rep0
vars == <<cls, el, rep, fixed, path, rep0>>

EccOrder  == <<"zero", "tiny", "slight", "small", "mid", "high", "top", "brink", "one", "hbrink", "hyp", "far", "giant">>
IncOrder  == <<"zero", "tiny", "low", "direct", "polar", "retro", "near180", "tinypi", "pi">>
PlaceOrder == <<"peri", "past", "out1", "quarter", "out2", "nearapo", "apo", "pastapo", "in2", "threeq", "in1", "near", "beyond", "inbeyond">>
AngOrder  == <<"0", "q1", "90", "q2", "180", "q3", "270", "q4", "by0", "by90", "by180", "by270">>
ScaleOrder == <<"unit", "sun", "earth", "days", "small">>

Circ(c) == c.e \in {"zero", "tiny"}
Par(c) == c.e = "one"
Hyp(c) == c.e \in {"hbrink", "hyp", "far", "giant"}
Ell(c) == ~Par(c) /\ ~Hyp(c)
Prograde0(c) == c.i \in {"zero", "tiny"}
Retro(c) == c.i \in {"pi", "tinypi"}
Planar(c) == Prograde0(c) \/ Retro(c)

Add(x, y) == <<x[1] + y[1], x[2] + y[2], x[3] + y[3]>>
Sub(x, y) == <<x[1] - y[1], x[2] - y[2], x[3] - y[3]>>
None == <<0, 0, 0>>
Canonical(c, x) ==
  LET om1 == IF Prograde0(c) THEN Add(x.om, x.OM) ELSE IF Retro(c) THEN Sub(x.om, x.OM) ELSE x.om
      OM1 == IF Planar(c) THEN None ELSE x.OM
  IN IF Circ(c) THEN [om |-> None, OM |-> OM1, nu |-> Add(x.nu, om1)]
     ELSE [om |-> om1, OM |-> OM1, nu |-> x.nu]

\* leg of the orbit: outbound, inbound, or at an apsis; all anomalies share its sign
Leg(c) == IF c.place \in {"peri", "apo"} THEN 0
          ELSE IF c.place \in {"past", "out1", "quarter", "out2", "nearapo", "beyond"} THEN 1 ELSE -1

F == [ k2c  |-> <<"T", "cart">>, c2k  |-> <<"cart", "T">>,
       t2E  |-> <<"T", "E">>, E2t  |-> <<"E", "T">>, E2M  |-> <<"E", "M">>, M2E  |-> <<"M", "E">>,
       t2M  |-> <<"T", "M">>, M2t  |-> <<"M", "T">>,
       k2e  |-> <<"M", "equi">>, e2k  |-> <<"equi", "M">>, k2eT |-> <<"T", "equiT">>, e2kT |-> <<"equiT", "T">>,
       c2e  |-> <<"cart", "equi">>, e2c  |-> <<"equi", "cart">> ]

Pick(order, set, n) == LET s == SelectSeq(order, LAMBDA z : z \in set) IN s[1 + (n % Len(s))]
Pos(order, z) == CHOOSE k \in 1..Len(order) : order[k] = z

Equi(c) == Ell(c) /\ c.i \notin {"near180", "pi", "tinypi"}

Init ==
  \E e \in Eccs, i \in Incs, pl \in Places, s \in 1..Spread :
    \* angles, units and whole turns spread over the classes
    LET n == Pos(EccOrder, e) + 3 * Pos(IncOrder, i) + 5 * Pos(PlaceOrder, pl)
    IN /\ cls = [e |-> e, i |-> i, place |-> pl,
                 om |-> Pick(AngOrder, Angles, n + 7 * s), OM |-> Pick(AngOrder, Angles, 3 * n + 5 * s + (s \div 8)),
                 sc |-> Pick(ScaleOrder, Scales, n + s), turn |-> ((n + 2 * s) % 5) - 2]
       /\ (pl \in {"apo", "nearapo", "pastapo"}) => Ell(cls)
       /\ (pl \in {"beyond", "inbeyond"}) => ~Ell(cls)      \* far away on an open orbit
       /\ el = [om |-> <<1, 0, 0>>, OM |-> <<0, 1, 0>>, nu |-> <<0, 0, 1>>]
       /\ fixed = TRUE /\ path = <<>>
       /\ rep \in Start /\ rep0 = rep
       /\ rep \in {"equi", "equiT"} => Equi(cls)

Applicable(f) ==
  /\ F[f][1] = rep
  /\ f \in {"k2e", "k2eT", "c2e"} => Equi(cls)

Next ==
  /\ Len(path) < MaxLen
  /\ \E f \in Fns :
       /\ Applicable(f)
       /\ cls' = cls /\ rep0' = rep0
       /\ el' = IF f = "c2k" THEN Canonical(cls, el) ELSE el
       /\ fixed' = CASE f = "c2k" -> TRUE [] f \in {"e2k", "e2kT"} -> FALSE [] OTHER -> fixed
       /\ rep' = F[f][2]
       /\ path' = Append(path, f)
Spec == Init /\ [][Next]_vars

\* What the state fixes physically is never changed by the conventions
Conserved ==
  LET lat == Add(el.om, el.nu) IN
  /\ ~Planar(cls) => lat = <<1, 0, 1>> /\ el.OM = <<0, 1, 0>>
  /\ Prograde0(cls) => Add(lat, el.OM) = <<1, 1, 1>>
  /\ Retro(cls) => Sub(lat, el.OM) = <<1, -1, 1>>
  /\ ~Circ(cls) => el.nu = <<0, 0, 1>>
Idempotent == Canonical(cls, Canonical(cls, el)) = Canonical(cls, el)
\* functions are inverse to each other: coming back to Keplerian elements, not through Cartesian ones,
\* gives the same elements
Same == (\A k \in 1..Len(path) : path[k] # "c2k") => el = [om |-> <<1, 0, 0>>, OM |-> <<0, 1, 0>>, nu |-> <<0, 0, 1>>]
CanonicalAfter == (Len(path) > 0 /\ path[Len(path)] = "c2k") =>
                     /\ Circ(cls) => el.om = None
                     /\ Planar(cls) => el.OM = None

Emit == (path'[Len(path')] \in LastFns) =>
   PrintT(ToJson([c |-> cls, r0 |-> rep0, path |-> path', rep |-> rep', fixed |-> fixed', el |-> el', leg |-> Leg(cls),
                  ell |-> Ell(cls), circ |-> Circ(cls), planar |-> Planar(cls), retro |-> Retro(cls)]))
=============================================================================
