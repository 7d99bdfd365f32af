------------------------------- MODULE Conic -------------------------------
(***************************************************************************)
(* One orbit, exactly, in all its representations.                         *)
(*                                                                         *)
(* An orbit is given by rational data: mu and semilatus rectum p with a    *)
(* rational speed scale w = sqrt(mu/p), eccentricity e with a rational     *)
(* k = sqrt(|1-e|/(1+e)), directions of i, omega, Omega, and the tangent t *)
(* of half the true anomaly.  Then positions, velocities, eccentric        *)
(* anomalies (as directions or half-tanh), equinoctial elements, ... are   *)
(* rational and computed here without rounding.                            *)
(*                                                                         *)
(* The state machine applies the library's conversion functions: the state *)
(* is the orbit, the representation it is in and the elements used to      *)
(* write it down.  The orbit never changes; cart_to_kep makes the elements *)
(* canonical, equi_to_kep leaves degenerate elements free.                 *)
(***************************************************************************)
EXTENDS Exact, TLC, Json, FiniteSets

CONSTANTS
  Eccs,      \* set of identifiers of eccentricities, see Ecc
  Tans,      \* set of identifiers of half tangents, see TanTab
  Incs, Oms, OMs,   \* identifiers of directions, see DirTab
  Scales,    \* identifiers of <<mu, p, w>>
  Fns,       \* functions that may be applied
  LastFns,   \* functions whose results are printed
  MaxLen,    \* number of functions in a row
  Start,     \* representations to start from
  Mix        \* TRUE: pair scales and orientations diagonally instead of all combinations

VARIABLES orb,   \* the orbit
          el,    \* elements in use: om, OM (directions), nu (direction)
          rep,   \* "T", "E", "M" (Keplerian with that anomaly), "cart", "equi", "equiT", "val"
          free,  \* degenerate elements are not fixed by a convention
          path,  \* functions applied so far
  start  \* elements and representation at the start
vars == <<orb, el, rep, free, path, start>>

Ecc == << [e |-> Zero, k |-> One], [e |-> Q(3, 5), k |-> Q(1, 2)], [e |-> Q(4, 5), k |-> Q(1, 3)],
          [e |-> Q(5, 13), k |-> Q(2, 3)], [e |-> One, k |-> Zero], [e |-> Q(5, 4), k |-> Q(1, 3)],
          [e |-> Q(5, 3), k |-> Q(1, 2)], [e |-> Q(13, 5), k |-> Q(2, 3)], [e |-> Q(15, 17), k |-> Q(1, 4)],
          [e |-> Q(17, 8), k |-> Q(3, 5)], [e |-> Q(9, 41), k |-> Q(4, 5)] >>
TanTab == << Zero, Q(1, 2), Q(-1, 2), One, QN(-1), QN(2), QN(-2), Inf, Q(1, 3), Q(-1, 3), QN(3), QN(-3) >>
DirTab == << D0, D90, D180, D270, <<Q(3, 5), Q(4, 5)>>, <<Q(-4, 5), Q(3, 5)>>, <<Q(-3, 5), Q(-4, 5)>>,
             <<Q(4, 5), Q(-3, 5)>>, <<Q(12, 13), Q(5, 13)>>, <<Q(-5, 13), Q(12, 13)>>, <<Q(5, 13), Q(-12, 13)>> >>
ScaleTab == << <<One, One, One>>, <<QN(4), One, QN(2)>>, <<One, QN(4), Q(1, 2)>>, <<QN(9), QN(4), Q(3, 2)>>,
               <<Q(1, 4), QN(9), Q(1, 6)>> >>

Circ(o) == o.e = Zero
Par(o) == o.e = One
Hyp(o) == QLess(One, o.e)
Ell(o) == QLess(o.e, One)
Prograde0(o) == o.i = D0
Retro(o) == o.i = D180
Planar(o) == Prograde0(o) \/ Retro(o)

\* semi-major axis (periapsis distance of a parabola)
SMA(o) == IF Par(o) THEN QDiv(o.p, QN(2)) ELSE QDiv(o.p, QAbs(QSub(One, QSq(o.e))))

NuDir(o) == DirOf(o.t)
\* possible position: the tangent stays inside of the asymptotes
Possible(e, k, t) ==
  IF QLess(e, One) THEN TRUE
  ELSE /\ t # Inf
       /\ (QLess(One, e) => QLess(QAbs(QMul(k, t)), One))

\* eccentric anomaly: half tangent (closed), tangent (parabola), half tanh (hyperbola)
EccHalf(o) == IF Par(o) THEN o.t ELSE IF o.t = Inf THEN Inf ELSE QMul(o.k, o.t)

\* radial and transverse directions, distance, speeds
Geometry(o, x) ==
  LET u == DAdd(x.om, x.nu)
      cu == Cos(u) su == Sin(u) cO == Cos(x.OM) sO == Sin(x.OM) ci == Cos(o.i) si == Sin(o.i)
      R == <<QSub(QMul(cO, cu), QMul(QMul(sO, su), ci)), QAdd(QMul(sO, cu), QMul(QMul(cO, su), ci)), QMul(su, si)>>
      T == <<QSub(QNeg(QMul(cO, su)), QMul(QMul(sO, cu), ci)),
             QAdd(QNeg(QMul(sO, su)), QMul(QMul(cO, cu), ci)), QMul(cu, si)>>
      q == QAdd(One, QMul(o.e, Cos(x.nu)))
  IN [R |-> R, T |-> T, r |-> QDiv(o.p, q), vr |-> QMul(o.w, QMul(o.e, Sin(x.nu))), vt |-> QMul(o.w, q)]

\* the documented canonical elements
Canonical(o, x) ==
  LET om1 == IF Prograde0(o) THEN DAdd(x.om, x.OM) ELSE IF Retro(o) THEN DSub(x.om, x.OM) ELSE x.om
      OM1 == IF Planar(o) THEN D0 ELSE x.OM
  IN IF Circ(o) THEN [om |-> D0, OM |-> OM1, nu |-> DAdd(x.nu, om1)]
     ELSE [om |-> om1, OM |-> OM1, nu |-> x.nu]

-----------------------------------------------------------------------------
(* Functions: source representation, target representation, domain          *)
F == [ k2c  |-> [src |-> "T", dst |-> "cart"],
       c2k  |-> [src |-> "cart", dst |-> "T"],
       t2E  |-> [src |-> "T", dst |-> "E"],
       E2t  |-> [src |-> "E", dst |-> "T"],
       E2M  |-> [src |-> "E", dst |-> "M"],
       M2E  |-> [src |-> "M", dst |-> "E"],
       t2M  |-> [src |-> "T", dst |-> "M"],
       M2t  |-> [src |-> "M", dst |-> "T"],
       k2e  |-> [src |-> "M", dst |-> "equi"],
       e2k  |-> [src |-> "equi", dst |-> "M"],
       k2eT |-> [src |-> "T", dst |-> "equiT"],
       e2kT |-> [src |-> "equiT", dst |-> "T"],
       c2e  |-> [src |-> "cart", dst |-> "equi"],
       e2c  |-> [src |-> "equi", dst |-> "cart"],
       radius |-> [src |-> "T", dst |-> "val"],
       speed  |-> [src |-> "T", dst |-> "val"],
       angmom |-> [src |-> "T", dst |-> "val"],
       period |-> [src |-> "T", dst |-> "val"],
       euler  |-> [src |-> "T", dst |-> "val"] ]

Applicable(f) ==
  /\ F[f].src = rep
  /\ f \in {"k2e", "k2eT", "c2e", "period"} => Ell(orb)
  /\ f \in {"k2e", "k2eT", "c2e"} => ~Retro(orb)

\* Euler angles after a conversion of the anomaly alone stay what they are
After(f) == IF f = "c2k" THEN Canonical(orb, el) ELSE el

-----------------------------------------------------------------------------
(* What is seen: everything exact                                           *)
Anom(o, x, ty) ==
  IF ty = "T" THEN [kind |-> "dir", d |-> x.nu]
  ELSE IF Circ(o) THEN [kind |-> "dir", d |-> x.nu]
  ELSE LET h == EccHalf(o) IN
       IF Ell(o) THEN
         IF ty = "E" THEN [kind |-> "dir", d |-> DirOf(h)]
         ELSE [kind |-> "dirminus", d |-> DirOf(h), q |-> QMul(o.e, Sin(DirOf(h)))]
       ELSE IF Par(o) THEN
         IF ty = "E" THEN [kind |-> "num", q |-> h]
         ELSE [kind |-> "num", q |-> QAdd(h, QDiv(QMul(h, QSq(h)), QN(3)))]
       ELSE
         IF ty = "E" THEN [kind |-> "artanh", u |-> h]
         ELSE [kind |-> "hypmean", u |-> h, q |-> QMul(o.e, QDiv(QMul(QN(2), h), QSub(One, QSq(h))))]

KepOut(o, x, ty) == [a |-> SMA(o), e |-> o.e, i |-> o.i, om |-> x.om, OM |-> x.OM, an |-> Anom(o, x, ty)]
CartOut(o, x) ==
  LET g == Geometry(o, x)
  IN [r |-> Scale(g.r, g.R), v |-> VAdd(Scale(g.vr, g.R), Scale(g.vt, g.T))]
EquiOut(o, x, ty) ==
  LET lp == DAdd(x.om, x.OM)
      ti == HalfTan(o.i)
  IN [a |-> SMA(o), h |-> QMul(o.e, Sin(lp)), k |-> QMul(o.e, Cos(lp)),
      p |-> QMul(ti, Sin(x.OM)), q |-> QMul(ti, Cos(x.OM)), lp |-> lp, an |-> Anom(o, x, ty)]

ValOut(f, o, x) ==
  LET g == Geometry(o, x) IN
  CASE f = "radius" -> [r |-> g.r, eh |-> EccHalf(o)]
    [] f = "speed"  -> [v2 |-> QAdd(QSq(g.vr), QSq(g.vt)), r |-> g.r]
    [] f = "angmom" -> [h |-> QMul(o.p, o.w)]
    [] f = "period" -> [a |-> SMA(o), a2mu |-> QDiv(QSq(SMA(o)), o.mu)]   \* P = 2 pi sqrt(a a^2/mu)
    [] f = "euler"  -> [m |-> MulM(Rz(x.OM), MulM(Rx(o.i), Rz(x.om)))]

Out(f, o, x, rp) ==
  CASE rp \in {"T", "E", "M"} -> KepOut(o, x, rp)
    [] rp = "cart" -> CartOut(o, x)
    [] rp = "equi" -> EquiOut(o, x, "M")
    [] rp = "equiT" -> EquiOut(o, x, "T")
    [] rp = "val" -> ValOut(f, o, x)

-----------------------------------------------------------------------------
Init ==
  \E ei \in Eccs, ti \in Tans, ii \in Incs, a \in Oms, b \in OMs, si \in Scales :
    /\ Possible(Ecc[ei].e, Ecc[ei].k, TanTab[ti])
    /\ Mix => (si = 1 + ((ei + ti + ii + a + b) % Cardinality(Scales)))
    /\ Sin(DirTab[ii])[1] >= 0
    /\ orb = [e |-> Ecc[ei].e, k |-> Ecc[ei].k, t |-> TanTab[ti], i |-> DirTab[ii],
              mu |-> ScaleTab[si][1], p |-> ScaleTab[si][2], w |-> ScaleTab[si][3]]
    /\ el = [om |-> DirTab[a], OM |-> DirTab[b], nu |-> DirOf(TanTab[ti])]
    /\ rep \in Start
    /\ free = FALSE
    /\ path = <<>>
    /\ start = [el |-> el, rep |-> rep]
    /\ rep \in {"E", "M", "T", "cart"} \/ (Ell(orb) /\ ~Retro(orb))

Next ==
  /\ Len(path) < MaxLen
  /\ \E f \in Fns :
       /\ Applicable(f)
       /\ orb' = orb
       /\ el' = After(f)
       /\ rep' = F[f].dst
       /\ free' = CASE f \in {"e2k", "e2kT"} -> TRUE [] f = "c2k" -> FALSE [] OTHER -> free
       /\ path' = Append(path, f)
       /\ start' = start
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* Properties of the exact model                                            *)
WellFormed == IsDir(orb.i) /\ IsDir(el.om) /\ IsDir(el.OM) /\ IsDir(el.nu)
\* orthonormal frame; the normal is the one of the inclination and node
Frame == LET g == Geometry(orb, el)
         IN /\ Dot(g.R, g.R) = One /\ Dot(g.T, g.T) = One /\ Dot(g.R, g.T) = Zero
            /\ Cross(g.R, g.T) = <<QMul(Sin(el.OM), Sin(orb.i)), QNeg(QMul(Cos(el.OM), Sin(orb.i))), Cos(orb.i)>>
\* conserved quantities: angular momentum p*w, energy, vis-viva
Conserved == LET g == Geometry(orb, el)
                 v2 == QAdd(QSq(g.vr), QSq(g.vt))
             IN /\ QMul(g.r, g.vt) = QMul(orb.p, orb.w)
                /\ QMul(QSq(orb.w), orb.p) = orb.mu
                /\ QSub(v2, QDiv(QMul(QN(2), orb.mu), g.r)) =
                     IF Par(orb) THEN Zero
                     ELSE IF Ell(orb) THEN QNeg(QDiv(orb.mu, SMA(orb))) ELSE QDiv(orb.mu, SMA(orb))
\* canonical elements describe the same state, and are a fixed point
CanonicalSame == /\ CartOut(orb, Canonical(orb, el)) = CartOut(orb, el)
                 /\ Canonical(orb, Canonical(orb, el)) = Canonical(orb, el)
\* the eccentric anomaly gives the same distance
EccRadius == (Ell(orb) /\ ~Circ(orb)) =>
                Geometry(orb, el).r = QMul(SMA(orb), QSub(One, QMul(orb.e, Cos(DirOf(EccHalf(orb))))))
HypRadius == Hyp(orb) =>
   LET h == EccHalf(orb) ch == QDiv(QAdd(One, QSq(h)), QSub(One, QSq(h)))
   IN Geometry(orb, el).r = QMul(SMA(orb), QSub(QMul(orb.e, ch), One))
\* the equinoctial elements fix the orbit: the eccentricity vector and the normal follow from them
EquiOK == (Ell(orb) /\ ~Retro(orb)) =>
   LET q == EquiOut(orb, el, "T")
       n2 == QAdd(One, QAdd(QSq(q.p), QSq(q.q)))
   IN /\ QAdd(QSq(q.h), QSq(q.k)) = QSq(orb.e)
      /\ QDiv(QSub(One, QAdd(QSq(q.p), QSq(q.q))), n2) = Cos(orb.i)
      /\ QDiv(QMul(QN(2), q.p), n2) = QMul(Sin(orb.i), Sin(el.OM))
      /\ QDiv(QMul(QN(2), q.q), n2) = QMul(Sin(orb.i), Cos(el.OM))

Emit == (path'[Len(path')] \in LastFns) =>
   PrintT(ToJson([o |-> [mu |-> orb.mu, p |-> orb.p, w |-> orb.w],
                  s |-> Out("", orb, start.el, start.rep), r0 |-> start.rep,
                  path |-> path', rep |-> rep', free |-> free',
                  circ |-> Circ(orb), planar |-> Planar(orb), ell |-> Ell(orb),
                  out |-> Out(path'[Len(path')], orb, el', rep')]))
=============================================================================
