------------------------------- MODULE Equiv -------------------------------
(***************************************************************************)
(* Rewriting of Keplerian elements and the physical state they describe.   *)
(*                                                                         *)
(* Angles are q quarter turns plus m times a fixed generic angle, so that  *)
(* whole turns are kept apart from the direction.  A behaviour rewrites    *)
(* the elements of an orbit: whole turns, angle moved from one element to  *)
(* another, one element changed.  Which of the element sets met describe   *)
(* the same state is decided on the exact position and velocity; the       *)
(* canonical form (what equivalence means in terms of elements) is checked *)
(* against that.                                                           *)
(***************************************************************************)
EXTENDS Exact, TLC, Json, FiniteSets

CONSTANTS Eccs, Incs, InitAngles, Shifts, Depth

VARIABLES ks,  \* sequence of element sets
          st,  \* their states
          cn   \* their canonical forms
vars == <<ks, st, cn>>

EccTab == <<Zero, Q(1, 2), One, QN(2), Q(1, 10)>>
IncTab == <<D0, <<Q(3, 5), Q(4, 5)>>, D90, <<Q(-4, 5), Q(3, 5)>>, D180>>
AngTab == << <<0, 0>>, <<1, 0>>, <<0, 1>>, <<1, -1>>, <<3, 1>>, <<2, 0>> >>
ShiftTab == << <<1, 0>>, <<0, 1>>, <<2, 0>>, <<-1, 1>>, <<0, -1>> >>
Generic == <<Q(4, 5), Q(3, 5)>>
RECURSIVE Times(_, _)
Times(d, m) == IF m = 0 THEN D0 ELSE IF m > 0 THEN DAdd(d, Times(d, m - 1)) ELSE DSub(Times(d, m + 1), d)
Quarter(q) == <<D0, D90, D180, D270>>[(q % 4) + 1]
Dir(x) == DAdd(Quarter(x[1]), Times(Generic, x[2]))
Plus(x, y) == <<x[1] + y[1], x[2] + y[2]>>
Minus(x, y) == <<x[1] - y[1], x[2] - y[2]>>
Lim(x) == AbsI(x[1]) <= 10 /\ AbsI(x[2]) <= 2

\* --- the physical state
Param(k) == LET e == EccTab[k.e] a == QN(k.a) IN
  IF e = One THEN QMul(QN(2), a) ELSE QMul(a, QAbs(QSub(One, QSq(e))))
TurnZ(d, v) == <<QSub(QMul(d[1], v[1]), QMul(d[2], v[2])), QAdd(QMul(d[2], v[1]), QMul(d[1], v[2])), v[3]>>
TurnX(d, v) == <<v[1], QSub(QMul(d[1], v[2]), QMul(d[2], v[3])), QAdd(QMul(d[2], v[2]), QMul(d[1], v[3]))>>
Place(k, v) == TurnZ(Dir(k.OM), TurnX(IncTab[k.i], TurnZ(Dir(k.om), v)))
State(k) == LET e == EccTab[k.e]  n == Dir(k.nu) IN
  << Param(k), QDiv(Param(k), QAdd(One, QMul(e, Cos(n)))),
     Place(k, <<Cos(n), Sin(n), Zero>>), Place(k, <<QNeg(Sin(n)), QAdd(e, Cos(n)), Zero>>) >>
OnOrbit(k) == QLess(Zero, QAdd(One, QMul(EccTab[k.e], Cos(Dir(k.nu)))))

\* --- the same in terms of elements
Planar(k) == IncTab[k.i] \in {D0, D180}
Canon(k) ==
  LET om == CASE IncTab[k.i] = D0 -> DAdd(Dir(k.om), Dir(k.OM))
              [] IncTab[k.i] = D180 -> DSub(Dir(k.om), Dir(k.OM))
              [] OTHER -> Dir(k.om)
      OM == IF Planar(k) THEN D0 ELSE Dir(k.OM)
      circ == EccTab[k.e] = Zero
  IN <<k.a, k.e, k.i, IF circ THEN D0 ELSE om, OM, IF circ THEN DAdd(om, Dir(k.nu)) ELSE Dir(k.nu)>>

Init == \E e \in Eccs, i \in Incs, om, OM, nu \in InitAngles :
          LET k == [a |-> 1, e |-> e, i |-> i, om |-> AngTab[om], OM |-> AngTab[OM], nu |-> AngTab[nu]]
          IN OnOrbit(k) /\ ks = <<k>> /\ st = <<State(k)>> /\ cn = <<Canon(k)>>
Last == ks[Len(ks)]
Go(k) == OnOrbit(k) /\ Lim(k.om) /\ Lim(k.OM) /\ Lim(k.nu) /\ ks' = Append(ks, k) /\ st' = Append(st, State(k)) /\ cn' = Append(cn, Canon(k))
Angles == {"om", "OM", "nu"}
Turn == \E x \in Angles, s \in {4, -4} : Go([Last EXCEPT ![x] = Plus(@, <<s, 0>>)])
Slide == \E x, y \in Angles, d \in Shifts, s \in {1, -1} :
           /\ x # y
           /\ LET D == ShiftTab[d]
              IN Go([[Last EXCEPT ![x] = Plus(@, D)] EXCEPT ![y] = IF s = 1 THEN Minus(@, D) ELSE Plus(@, D)])
Slide3 == \E d \in Shifts, s1, s2 \in {1, -1} :
           LET D == ShiftTab[d]
           IN Go([Last EXCEPT !.OM = Plus(@, D), !.om = IF s1 = 1 THEN Plus(@, D) ELSE Minus(@, D),
                              !.nu = IF s2 = 1 THEN Plus(@, D) ELSE Minus(@, D)])
Shift == \E x \in Angles, d \in Shifts : Go([Last EXCEPT ![x] = Plus(@, ShiftTab[d])])
Swap == \E x, y \in Angles : x # y /\ Go([[Last EXCEPT ![x] = Last[y]] EXCEPT ![y] = Last[x]])
Change == \/ Go([Last EXCEPT !.a = 3 - @])
          \/ \E e \in Eccs : e # Last.e /\ Go([Last EXCEPT !.e = e])
          \/ \E i \in Incs : i # Last.i /\ Go([Last EXCEPT !.i = i])
Next == Len(ks) <= Depth /\ (Turn \/ Slide \/ Slide3 \/ Shift \/ Swap \/ Change)
Spec == Init /\ [][Next]_vars

CanonIsState == \A n \in DOMAIN ks : (st[n] = st[Len(st)]) <=> (cn[n] = cn[Len(cn)])
TurnsKeep == [][ (\E x \in Angles : ks'[Len(ks')] = [Last EXCEPT ![x] = Plus(@, <<4, 0>>)]) => st'[Len(st')] = st[Len(st)] ]_vars
Emit == PrintT(ToJson([ks |-> ks', same |-> {n \in DOMAIN ks : st[n] = st'[Len(ks')]}]))
\* told apart by the first and the last elements
View == <<ks[1], Last, Len(ks)>>
EmitEnd == (Len(ks') = Depth + 1) => PrintT(ToJson([ks |-> ks', same |-> {<<n, m>> \in (DOMAIN ks') \X (DOMAIN ks') : st'[n] = st'[m]}]))
=============================================================================
