------------------------------- MODULE Exact -------------------------------
(* Exact rational numbers <<n, d>> (d > 0, lowest terms; <<1, 0>> is infinity), *)
(* directions <<cos, sin>> with rational components, tangents of half angles.   *)
EXTENDS Integers, Sequences

AbsI(x) == IF x < 0 THEN -x ELSE x
RECURSIVE GCD(_, _)
GCD(x, y) == IF y = 0 THEN x ELSE GCD(y, x % y)

Q(n, d) ==
  IF d = 0 THEN <<1, 0>>
  ELSE LET g == GCD(AbsI(n), AbsI(d))
           s == IF d < 0 THEN -1 ELSE 1
       IN <<s * (n \div g), AbsI(d) \div g>>
QN(n) == <<n, 1>>
Zero == <<0, 1>>
One == <<1, 1>>
Inf == <<1, 0>>
QAdd(x, y) == LET g == GCD(x[2], y[2])
              IN Q(x[1] * (y[2] \div g) + y[1] * (x[2] \div g), x[2] * (y[2] \div g))
QNeg(x) == <<-x[1], x[2]>>
QSub(x, y) == QAdd(x, QNeg(y))
QMul(x, y) == LET g1 == GCD(AbsI(x[1]), y[2])
                  g2 == GCD(AbsI(y[1]), x[2])
              IN <<(x[1] \div g1) * (y[1] \div g2), (x[2] \div g2) * (y[2] \div g1)>>
QInv(x) == IF x[1] < 0 THEN <<-x[2], -x[1]>> ELSE <<x[2], x[1]>>
QDiv(x, y) == QMul(x, QInv(y))
QSq(x) == QMul(x, x)
QLess(x, y) == QSub(x, y)[1] < 0
QAbs(x) == <<AbsI(x[1]), x[2]>>

\* directions
D0 == <<One, Zero>>
D90 == <<Zero, One>>
D180 == <<QN(-1), Zero>>
D270 == <<Zero, QN(-1)>>
Cos(d) == d[1]
Sin(d) == d[2]
DAdd(a, b) == <<QSub(QMul(a[1], b[1]), QMul(a[2], b[2])),
                QAdd(QMul(a[2], b[1]), QMul(a[1], b[2]))>>
DNeg(a) == <<a[1], QNeg(a[2])>>
DSub(a, b) == DAdd(a, DNeg(b))
IsDir(a) == QAdd(QSq(a[1]), QSq(a[2])) = One

\* direction of the angle whose half has the tangent t (Inf: half a turn)
DirOf(t) == LET n == t[1] d == t[2]
                w == n * n + d * d
            IN <<Q(d * d - n * n, w), Q(2 * n * d, w)>>
HalfTan(a) == IF a = D180 THEN Inf ELSE QDiv(a[2], QAdd(One, a[1]))

\* vectors
Dot(x, y) == QAdd(QAdd(QMul(x[1], y[1]), QMul(x[2], y[2])), QMul(x[3], y[3]))
Scale(q, x) == <<QMul(q, x[1]), QMul(q, x[2]), QMul(q, x[3])>>
VAdd(x, y) == <<QAdd(x[1], y[1]), QAdd(x[2], y[2]), QAdd(x[3], y[3])>>
Cross(x, y) == <<QSub(QMul(x[2], y[3]), QMul(x[3], y[2])),
                 QSub(QMul(x[3], y[1]), QMul(x[1], y[3])),
                 QSub(QMul(x[1], y[2]), QMul(x[2], y[1]))>>
\* matrices (tuples of rows)
MulV(m, v) == <<Dot(m[1], v), Dot(m[2], v), Dot(m[3], v)>>
Col(m, j) == <<m[1][j], m[2][j], m[3][j]>>
MulM(m, n) == LET c(j) == MulV(m, Col(n, j))
              IN <<<<c(1)[1], c(2)[1], c(3)[1]>>, <<c(1)[2], c(2)[2], c(3)[2]>>, <<c(1)[3], c(2)[3], c(3)[3]>>>>
Tr(m) == <<Col(m, 1), Col(m, 2), Col(m, 3)>>
Id3 == <<<<One, Zero, Zero>>, <<Zero, One, Zero>>, <<Zero, Zero, One>>>>
Det(m) == Dot(m[1], Cross(m[2], m[3]))
Rx(d) == <<<<One, Zero, Zero>>, <<Zero, d[1], QNeg(d[2])>>, <<Zero, d[2], d[1]>>>>
Ry(d) == <<<<d[1], Zero, d[2]>>, <<Zero, One, Zero>>, <<QNeg(d[2]), Zero, d[1]>>>>
Rz(d) == <<<<d[1], QNeg(d[2]), Zero>>, <<d[2], d[1], Zero>>, <<Zero, Zero, One>>>>
=============================================================================
