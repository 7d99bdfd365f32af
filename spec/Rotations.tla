----------------------------- MODULE Rotations -----------------------------
(***************************************************************************)
(* Sequences of rotations about the coordinate axes, composed exactly.     *)
(* Each step multiplies the product from the right by the matrix of an     *)
(* elementary rotation; the sequence z, x, z is the Euler rotation of an   *)
(* orbit with Omega, i, omega.                                             *)
(***************************************************************************)
EXTENDS Exact, TLC, Json, FiniteSets
CONSTANTS Angles, Axes, Turns, Depth
VARIABLES m, hist
vars == <<m, hist>>
AngTab == << D0, D90, D180, D270, <<Q(4, 5), Q(3, 5)>>, <<Q(3, 5), Q(4, 5)>>, <<Q(-4, 5), Q(3, 5)>>, <<Q(4, 5), Q(-3, 5)>>,
             <<Q(12, 13), Q(5, 13)>>, <<Q(-7, 25), Q(-24, 25)>>, <<Q(5, 13), Q(-12, 13)>> >>
R(x, d) == CASE x = "x" -> Rx(d) [] x = "y" -> Ry(d) [] x = "z" -> Rz(d)
TurnTab == <<0, -1, 1, -3, 50>>
Init == m = Id3 /\ hist = <<>>
Turn == \E x \in Axes, j \in Angles, t \in Turns :
          /\ hist' = Append(hist, [axis |-> x, dir |-> AngTab[j], ang |-> j, turns |-> TurnTab[t]])
          /\ m' = MulM(m, R(x, AngTab[j]))
Next == Len(hist) < Depth /\ Turn
Spec == Init /\ [][Next]_vars

RECURSIVE Product(_)
Product(h) == IF h = <<>> THEN Id3 ELSE MulM(R(h[1].axis, h[1].dir), Product(Tail(h)))
Orthonormal == MulM(Tr(m), m) = Id3
Proper == Det(m) = One
Associative == m = Product(hist)
\* the elementary rotations turn counter-clockwise about their own axis
Unit(x) == CASE x = "x" -> <<One, Zero, Zero>> [] x = "y" -> <<Zero, One, Zero>> [] x = "z" -> <<Zero, Zero, One>>
After(x) == CASE x = "x" -> "y" [] x = "y" -> "z" [] x = "z" -> "x"
Third(x) == After(After(x))
Named == \A n \in DOMAIN hist :
  LET x == hist[n].axis  d == hist[n].dir  E == R(x, d) IN
    /\ MulV(E, Unit(x)) = Unit(x)
    /\ MulV(E, Unit(After(x))) = VAdd(Scale(d[1], Unit(After(x))), Scale(d[2], Unit(Third(x))))
\* angles about one axis add up, opposite angles cancel
Adds == \A n \in DOMAIN hist : n > 1 /\ hist[n].axis = hist[n - 1].axis =>
          MulM(R(hist[n].axis, hist[n - 1].dir), R(hist[n].axis, hist[n].dir)) = R(hist[n].axis, DAdd(hist[n].dir, hist[n - 1].dir))
Emit == PrintT(ToJson([h |-> hist', m |-> m']))
EmitEnd == Len(hist') = Depth => Emit
=============================================================================
