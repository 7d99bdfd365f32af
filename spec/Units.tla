------------------------------- MODULE Units -------------------------------
(***************************************************************************)
(* Unit systems.                                                           *)
(*                                                                         *)
(* Names: every spelling of a unit system and the factors it stands for.   *)
(* A factor is [ten, times, sym]: times * 10^ten, times an astronomical    *)
(* unit symbol; "?" is not a unit, "#n" the n-th numeric unit, "!n" the    *)
(* n-th object that is no unit at all.                                     *)
(*                                                                         *)
(* Sessions: the same orbits are kept in two unit systems; each step does  *)
(* the same to both.  Every quantity has a dimension <<L, M, T>> and       *)
(* all readings agree up to the factors of the units.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, FiniteSets
CONSTANTS Mode, Lengths, Masses, Times, Cases, Seps, Calls,   \* names
          Systems, Kinds, Ops, Members, Depth                 \* sessions
VARIABLES cfg, kinds, hist
vars == <<cfg, kinds, hist>>

None == [ten |-> 0, times |-> 0, sym |-> "?"]
F(t, n, s) == [ten |-> t, times |-> n, sym |-> s]
LengthOf(u) == CASE u = "m" -> F(0, 1, "") [] u = "cm" -> F(-2, 1, "") [] u = "km" -> F(3, 1, "") [] u = "au" -> F(0, 1, "AU")
                 [] u = "pc" -> F(0, 1, "pc") [] OTHER -> None
MassOf(u) == CASE u = "kg" -> F(0, 1, "") [] u = "g" -> F(-3, 1, "") [] u \in {"msun", "msol"} -> F(0, 1, "Msol") [] OTHER -> None
Hour == 60 * 60
TimeOf(u) == CASE u = "s" -> F(0, 1, "") [] u = "h" -> F(0, Hour, "") [] u = "d" -> F(0, 24 * Hour, "")
               [] u = "y" -> F(0, 365 * 24 * Hour + 6 * Hour, "") [] OTHER -> None
Numeric == {"#1", "#2", "#3", "#4", "#5"}
NoUnit == {"!1", "!2", "!3", "!4", "!5"}
Factor(u, f) == IF u \in Numeric THEN F(0, 1, u) ELSE f

\* separators within the name of a mass are ignored; elsewhere they are part of the name
Wrong(sep, u) == sep # "" /\ u \notin Numeric \cup NoUnit
NameCfg == [length : Lengths, mass : Masses, time : Times, case : Cases, sep : Seps, other : Seps, call : Calls]
Result(c) ==
  LET l == IF Wrong(c.other, c.length) THEN None ELSE Factor(c.length, LengthOf(c.length))
      m == Factor(c.mass, MassOf(c.mass))
      t == Factor(c.time, TimeOf(c.time))
  IN [ok |-> None \notin {l, m, t}, l |-> l, m |-> m, t |-> t]

\* --- dimensions of the quantities <<L, M, T>>
Dim == [ a |-> <<1, 0, 0>>, r |-> <<1, 0, 0>>, v |-> <<1, 0, -1>>, e |-> <<0, 0, 0>>, angle |-> <<0, 0, 0>>, m |-> <<0, 1, 0>>,
         G |-> <<3, -1, -2>>, mu |-> <<3, 0, -2>>, period |-> <<0, 0, 1>>, motion |-> <<0, 0, -1>>, h |-> <<2, 0, -1>>, dt |-> <<0, 0, 1>> ]
DAdd(x, y) == <<x[1] + y[1], x[2] + y[2], x[3] + y[3]>>
DMul(n, x) == <<n * x[1], n * x[2], n * x[3]>>
Homogeneous ==
  /\ DAdd(Dim.G, Dim.m) = Dim.mu
  /\ DAdd(DMul(2, Dim.period), Dim.mu) = DMul(3, Dim.a)          \* third law
  /\ DMul(2, Dim.v) = DAdd(Dim.mu, DMul(-1, Dim.r))              \* vis viva
  /\ DMul(2, Dim.h) = DAdd(Dim.mu, Dim.a)
  /\ DAdd(Dim.motion, Dim.dt) = Dim.angle
  /\ Dim.h = DAdd(Dim.r, Dim.v)

Init == \/ /\ Mode = "names" /\ cfg \in NameCfg /\ hist = <<>> /\ kinds = <<>>
        \/ /\ Mode = "sessions" /\ hist = <<>>
           /\ kinds \in [1..Members -> Kinds]
           /\ \E s, t \in Systems : s # t /\ cfg = [from |-> s, to |-> t, start |-> kinds]
Name == Mode = "names" /\ hist = <<>> /\ hist' = <<Result(cfg)>> /\ UNCHANGED <<cfg, kinds>>
Closed == \A j \in DOMAIN kinds : kinds[j] \in {"ell", "circ"}
Do(r) == hist' = Append(hist, r)
SetWhole == \E k \in Kinds, op \in {"setK", "setC"} \cap Ops :
              kinds' = [j \in DOMAIN kinds |-> k] /\ Do([op |-> op, kind |-> k, n |-> 0])
SetOne == \E q \in {"a", "mass", "rotate"} \cap Ops, n \in 1..2 : kinds' = kinds /\ Do([op |-> q, kind |-> "", n |-> n])
Propagate == "prop" \in Ops /\ \E n \in 1..4 : kinds' = kinds /\ Do([op |-> "prop", kind |-> "", n |-> n])
Type == "type" \in Ops /\ \E n \in 1..3 : kinds' = kinds /\ Do([op |-> "type", kind |-> "", n |-> n])
Derived == \E q \in {"period", "motion", "velocity"} \cap Ops, n \in 1..2 : Closed /\ kinds' = kinds /\ Do([op |-> q, kind |-> "", n |-> n])
AddDelete == \/ "add" \in Ops /\ Len(kinds) < 4 /\ \E k \in Kinds : kinds' = Append(kinds, k) /\ Do([op |-> "add", kind |-> k, n |-> 0])
             \/ "delete" \in Ops /\ Len(kinds) > 1 /\ kinds' = Tail(kinds) /\ Do([op |-> "delete", kind |-> "", n |-> 0])
Session == Mode = "sessions" /\ Len(hist) < Depth /\ cfg' = cfg
           /\ (SetWhole \/ SetOne \/ Propagate \/ Type \/ Derived \/ AddDelete)
Next == Name \/ Session
Spec == Init /\ [][Next]_vars
\* what is raised for depends on the three names alone
Valid == Mode = "names" /\ hist # <<>> =>
   (hist[1].ok <=> /\ cfg.length \in Numeric \cup {"m", "cm", "km", "au", "pc"} /\ (cfg.other = "" \/ cfg.length \in Numeric)
                   /\ cfg.mass \in Numeric \cup {"kg", "g", "msun", "msol"}
                   /\ cfg.time \in Numeric \cup {"s", "h", "d", "y"})
Emit == PrintT(ToJson(IF Mode = "names" THEN [cfg |-> cfg, kinds |-> <<>>, hist |-> hist'] ELSE [cfg |-> cfg, kinds |-> kinds, hist |-> hist', dim |-> Dim]))
EmitEnd == Len(hist') = Depth => Emit
=============================================================================
