------------------------------ MODULE Stumpff ------------------------------
(***************************************************************************)
(* The Stumpff functions c0..c3, in two ways.                              *)
(*                                                                         *)
(* Points: an argument is the square of an angle (of rational cosine and   *)
(* sine) or minus the square of a logarithm t = exp(s) (rational t), so    *)
(* that the numbers <<c0, z c1, x c2, x z c3 - z>> with z = sqrt |x| are   *)
(* exact rationals.  Steps add points (they become one array) and double   *)
(* the angle or logarithm of the last one, i.e. x -> 4 x.                  *)
(*                                                                         *)
(* Series: the partial sums of the definition c_k(x) = sum (-x)^j/(k+2j)!, *)
(* one term per step, with the bound of the remainder.                     *)
(***************************************************************************)
EXTENDS Exact, TLC, Json, FiniteSets
CONSTANTS Kinds, Points, Doublings, MaxLen, Xs, Terms

VARIABLES pts,  \* [kind, dir or t, turns, doubled, c, s]
          ser   \* <<>> or [k, x, j, term, sum]
vars == <<pts, ser>>

\* positive angles below a turn, turns are added by the reader
AngTab == << <<Q(4, 5), Q(3, 5)>>, D90, D180, <<Q(-3, 5), Q(4, 5)>>, <<Q(3, 5), Q(-4, 5)>>, <<Q(12, 13), Q(-5, 13)>>, <<Q(40, 41), Q(9, 41)>> >>
ExpTab == << QN(2), Q(3, 2), QN(3), Q(5, 4), QN(10), Q(16, 15), QN(20) >>
TurnTab == <<0, 1, 7>>
PosPoint(j, t) == [kind |-> "pos", n |-> j, turns |-> TurnTab[t], doubled |-> 0, c |-> AngTab[j][1], s |-> AngTab[j][2]]
NegPoint(j) == LET t == ExpTab[j] IN
  [kind |-> "neg", n |-> j, turns |-> 0, doubled |-> 0, c |-> QDiv(QAdd(t, QInv(t)), QN(2)), s |-> QDiv(QSub(t, QInv(t)), QN(2))]
ZeroPoint == [kind |-> "zero", n |-> 1, turns |-> 0, doubled |-> 0, c |-> One, s |-> Zero]
\* x -> 4 x: c0(4x) = 2 c0(x)^2 - 1, c1(4x) = c0(x) c1(x)
Twice(p) == [p EXCEPT !.doubled = @ + 1, !.c = QSub(QMul(QN(2), QSq(p.c)), One), !.s = QMul(QN(2), QMul(p.s, p.c))]

Fact(n) == <<1, 1, 2, 6, 24, 120, 720, 5040, 40320, 362880, 3628800, 39916800, 479001600>>[n + 1]
XTab == << Q(1, 4), Q(-1, 4), One, QN(-1), Zero, QN(2), QN(-2), Q(1, 100), Q(-1, 100), Q(1, 2), Q(-3, 2), QN(3), QN(-3) >>

Init == \/ pts = <<>> /\ ser = <<>> /\ MaxLen > 0
        \/ /\ pts = <<>> /\ MaxLen = 0
           /\ \E k \in 0..3, x \in Xs : ser = [k |-> k, x |-> XTab[x], j |-> 0, term |-> Q(1, Fact(k)), sum |-> Q(1, Fact(k))]
Add == /\ Len(pts) < MaxLen
       /\ \/ "pos" \in Kinds /\ \E j \in Points, t \in 1..3 : pts' = Append(pts, PosPoint(j, t))
          \/ "neg" \in Kinds /\ \E j \in Points : pts' = Append(pts, NegPoint(j))
          \/ "zero" \in Kinds /\ pts' = Append(pts, ZeroPoint)
       /\ UNCHANGED ser
Double == /\ pts # <<>> /\ pts[Len(pts)].kind # "zero" /\ pts[Len(pts)].doubled < Doublings
          /\ AbsI(pts[Len(pts)].c[1]) <= 110 /\ pts[Len(pts)].c[2] <= 110   \* small enough to be squared twice
          /\ pts' = [pts EXCEPT ![Len(pts)] = Twice(@)] /\ UNCHANGED ser
NextTerm == /\ ser # <<>> /\ ser.j < Terms /\ ser.k + 2 * ser.j + 2 <= 11
            /\ ser.term[2] <= 900000000 \div (ser.x[2] * (ser.k + 2 * ser.j + 1) * (ser.k + 2 * ser.j + 2) * 3)
            /\ LET t == QDiv(QNeg(QMul(ser.term, ser.x)), QN((ser.k + 2 * ser.j + 1) * (ser.k + 2 * ser.j + 2)))
               IN ser' = [ser EXCEPT !.j = @ + 1, !.term = t, !.sum = QAdd(@, t)]
            /\ UNCHANGED pts
Next == Add \/ Double \/ NextTerm
Spec == Init /\ [][Next]_vars

\* cos^2 + sin^2 = 1, cosh^2 - sinh^2 = 1:  c0^2 + x c1^2 = 1
Circle == \A n \in DOMAIN pts : LET p == pts[n] IN
   (IF p.kind = "neg" THEN QSub(QSq(p.c), QSq(p.s)) ELSE QAdd(QSq(p.c), QSq(p.s))) = One
\* every term of c_{k+2} is the next term of c_k divided by -x:  x c_{k+2} = 1/k! - c_k, term by term
TermIs == ser # <<>> => LET m == ser.k + 2 * ser.j
                            RECURSIVE P(_)
                            P(n) == IF n = 0 THEN One ELSE QMul(QNeg(ser.x), P(n - 1))
                        IN ser.term = QDiv(P(ser.j), QN(Fact(m)))
Emit == PrintT(ToJson(IF pts' # <<>> THEN [pts |-> pts', ser |-> [k |-> 0]] ELSE [pts |-> <<>>, ser |-> ser']))
=============================================================================
