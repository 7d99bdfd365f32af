------------------------------- MODULE Calls -------------------------------
(***************************************************************************)
(* A user's session with the array functions of the library.               *)
(*                                                                         *)
(* Memory holds the argument objects (arrays of some shape, layout and     *)
(* element type, or scalars) and the results got so far.  Steps: call the  *)
(* function on the arguments, overwrite an argument or an earlier result.  *)
(* A call adds one fresh object and changes nothing else; the result at    *)
(* each position is the function of the elements at that position.         *)
(* Shapes follow the documented rules of each family of functions.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, FiniteSets

CONSTANTS
  Fns,       \* functions
  Shapes,    \* identifiers of shapes, see ShapeTab
  Layouts, Types,  \* layouts and element types of array arguments
  Units,     \* "rad", "deg"
  Opts,      \* "kw", ... options of the call
  Mixtures,  \* 0: kinds rotate over the elements; n > 0: all sequences of kinds for arrays of at most n elements
  Shifts,    \* rotations of the kinds
  Depth,     \* number of steps
  Kinds      \* kinds of elements in the mixtures

VARIABLES fn, form, mem, hist
vars == <<fn, form, mem, hist>>

\* scalars have the shape <<-1>>
ShapeTab == << <<-1>>, <<3>>, <<1>>, <<0>>, <<2, 3>>, <<2, 1, 2>>, <<5>>, <<>>, <<0, 3>>, <<4, 1>>, <<2>>, <<3, 2>>, <<1100>>, <<40, 30>> >>
Scalar == <<-1>>
IsScalar(s) == s = Scalar
RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE s[1] * Prod(Tail(s))
Size(s) == IF IsScalar(s) THEN 1 ELSE Prod(s)

Fam == [ true_to_eccentric |-> "pair", eccentric_to_true |-> "pair", eccentric_to_mean |-> "pair",
         mean_to_eccentric |-> "pair", true_to_mean |-> "pair", mean_to_true |-> "pair", kepler_guess |-> "pair",
         kep_to_cart |-> "state", cart_to_kep |-> "state", kep_to_equi |-> "plain", equi_to_kep |-> "plain",
         cart_to_equi |-> "state", equi_to_cart |-> "state",
         stumpff0 |-> "map", stumpff1 |-> "map", stumpff2 |-> "map", stumpff3 |-> "map", stumpff |-> "maps",
         true_of_the_asymptote |-> "map",
         orbital_period |-> "cast", semi_major_axis |-> "cast", parabolic_radius |-> "cast",
         parabolic_total_angular_momentum |-> "cast",
         orbit_total_angular_momentum |-> "cast", elliptic_radius |-> "cast", hyperbolic_radius |-> "cast",
         orbital_speed |-> "cast", orbital_distance |-> "cast",
         euler_rotation_matrix |-> "euler" ]
NArgs == [ pair |-> 2, state |-> 2, plain |-> 1, map |-> 1, maps |-> 1, euler |-> 3 ]
CastArgs == [ orbital_period |-> 2, semi_major_axis |-> 2, parabolic_radius |-> 2, parabolic_total_angular_momentum |-> 2,
              orbit_total_angular_momentum |-> 3, elliptic_radius |-> 3, hyperbolic_radius |-> 3, orbital_speed |-> 3,
              orbital_distance |-> 4 ]
Arity(f) == IF Fam[f] = "cast" THEN CastArgs[f] ELSE NArgs[Fam[f]]
\* which arguments and results are angles (results: FALSE, TRUE or, for state vectors, rows 3..6 / row 6)
HasUnit(f) == f \notin {"kepler_guess", "stumpff0", "stumpff1", "stumpff2", "stumpff3", "stumpff", "orbital_period",
                        "semi_major_axis", "parabolic_total_angular_momentum", "orbit_total_angular_momentum",
                        "orbital_speed"}
AngleArg(f, k) ==
  CASE Fam[f] = "pair" -> k = 1
    [] Fam[f] = "euler" -> TRUE
    [] f \in {"elliptic_radius", "parabolic_radius", "hyperbolic_radius"} -> k = 1
    [] f = "orbital_distance" -> k = 4
    [] OTHER -> FALSE
\* rows of state vectors that are angles
AngleRows(f, side) ==
  CASE f = "kep_to_cart" -> IF side = "in" THEN {3, 4, 5, 6} ELSE {}
    [] f = "cart_to_kep" -> IF side = "in" THEN {} ELSE {3, 4, 5, 6}
    [] f = "kep_to_equi" -> IF side = "in" THEN {3, 4, 5, 6} ELSE {6}
    [] f = "equi_to_kep" -> IF side = "in" THEN {6} ELSE {3, 4, 5, 6}
    [] f = "cart_to_equi" -> IF side = "in" THEN {} ELSE {6}
    [] f = "equi_to_cart" -> IF side = "in" THEN {6} ELSE {}
    [] OTHER -> {}
AngleOut(f) == Fam[f] = "pair" \/ f = "true_of_the_asymptote"

\* broadcasting
RECURSIVE Bc(_, _)
Bc(s, t) ==   \* <<>> if not possible, otherwise <<shape>>
  IF s = <<>> THEN <<t>>
  ELSE IF t = <<>> THEN <<s>>
  ELSE LET a == s[Len(s)]  b == t[Len(t)]
           r == Bc(SubSeq(s, 1, Len(s) - 1), SubSeq(t, 1, Len(t) - 1))
       IN IF r = <<>> \/ (a # b /\ a # 1 /\ b # 1) THEN <<>>
          ELSE << Append(r[1], IF a = 1 THEN b ELSE a) >>
RECURSIVE BcAll(_)
BcAll(ss) == IF Len(ss) = 0 THEN << <<>> >>
             ELSE LET r == BcAll(Tail(ss))
                      s == IF IsScalar(ss[1]) THEN <<>> ELSE ss[1]
                  IN IF r = <<>> THEN <<>> ELSE Bc(s, r[1])

Arrays(ss) == { ss[k] : k \in {j \in 1..Len(ss) : ~IsScalar(ss[j])} }
\* result of a call: [err, shape]
Result(f, ss) ==
  CASE Fam[f] = "pair" ->
         IF Cardinality(Arrays(ss)) > 1 THEN [err |-> "TypeError", shape |-> <<>>]
         ELSE IF Arrays(ss) = {} THEN [err |-> "", shape |-> <<>>]
         ELSE [err |-> "", shape |-> CHOOSE s \in Arrays(ss) : TRUE]
    [] Fam[f] \in {"state", "plain"} ->
         IF ss[1][1] # 6 THEN [err |-> "ValueError", shape |-> <<>>] ELSE [err |-> "", shape |-> ss[1]]
    [] Fam[f] \in {"map", "maps"} -> [err |-> "", shape |-> IF IsScalar(ss[1]) THEN <<>> ELSE ss[1]]
    [] Fam[f] = "cast" ->
         LET r == BcAll(ss) IN IF r = <<>> THEN [err |-> "ValueError", shape |-> <<>>] ELSE [err |-> "", shape |-> r[1]]
    [] Fam[f] = "euler" ->
         IF Arrays(ss) = {} THEN [err |-> "", shape |-> <<3, 3>>]
         ELSE [err |-> "", shape |-> <<3, 3>> \o (CHOOSE s \in Arrays(ss) : TRUE)]

\* shapes that may be passed
Allowed(f, ss) ==
  CASE Fam[f] = "pair" -> (Cardinality(Arrays(ss)) > 1 => <<>> \notin Arrays(ss))
    [] Fam[f] \in {"map", "maps"} -> TRUE
    [] Fam[f] = "cast" -> TRUE
    [] Fam[f] = "euler" -> Cardinality(Arrays(ss)) <= 1 /\ \A s \in Arrays(ss) : Len(s) = 1
    [] OTHER -> TRUE
\* state vectors: (6,), (6, n), and wrong numbers of rows; mu scalar or one for each object
StateShapes(f) == (IF 13 \in Shapes THEN { <<6, 1100>> } ELSE {}) \cup { <<6>>, <<6, 1>>, <<6, 3>>, <<6, 0>>, <<6, 5>>, <<6, 2>> } \cup
               (IF f \in {"kep_to_cart", "cart_to_kep", "cart_to_equi"} THEN { <<5>>, <<3, 6>>, <<7, 2>>, <<0>>, <<5, 6>> } ELSE {})
MuShapes(s) == IF Len(s) = 2 THEN { Scalar, <<s[2]>> } ELSE { Scalar }
ArgShapes(f) ==
  CASE Fam[f] = "state" -> UNION { { <<s, m>> : m \in MuShapes(s) } : s \in StateShapes(f) }
    [] Fam[f] = "plain" -> { <<s>> : s \in StateShapes(f) }
    [] OTHER -> { ss \in [1..Arity(f) -> { ShapeTab[k] : k \in Shapes }] : Allowed(f, ss) }

Obj(s, l, t) == [shape |-> s, layout |-> IF IsScalar(s) THEN "" ELSE l, type |-> t, ver |-> 0, term |-> <<>>]
NObj(f, ss) == IF Fam[f] \in {"state", "plain"} THEN (IF Len(ss[1]) = 2 THEN ss[1][2] ELSE 1)
            ELSE Size(Result(f, ss).shape)

Init ==
  /\ fn \in Fns
  /\ hist = <<>>
  /\ \E ss \in ArgShapes(fn), l \in Layouts, l2 \in Layouts, t \in Types, u \in Units, sh \in Shifts, o \in Opts :
       /\ (u = "deg") => HasUnit(fn)
       \* one layout for the first array, another for the other ones
       /\ (Cardinality({k \in DOMAIN ss : ~IsScalar(ss[k])}) < 2) => l = l2
       /\ LET n == IF Result(fn, ss).err # "" THEN 0 ELSE NObj(fn, ss) IN
          /\ Mixtures > 0 => n <= Mixtures
          /\ \E mix \in (IF Mixtures > 0 THEN [1..n -> Kinds] ELSE { <<>> }) :
               /\ form = [shapes |-> ss, unit |-> u, shift |-> sh, mix |-> mix, opt |-> o,
                          argang |-> [k \in DOMAIN ss |-> AngleArg(fn, k)], outang |-> AngleOut(fn),
                          rowsin |-> AngleRows(fn, "in"), rowsout |-> AngleRows(fn, "out"), fam |-> Fam[fn]]
               /\ mem = [k \in DOMAIN ss |-> Obj(ss[k], IF k = 1 THEN l ELSE l2, t)]

NA == Arity(fn)
Versions == [k \in 1..NA |-> mem[k].ver]
\* a call
Call ==
  LET r == Result(fn, form.shapes)
  IN /\ hist' = Append(hist, [op |-> "call", k |-> IF r.err = "" THEN Len(mem) + 1 ELSE 0, err |-> r.err])
     /\ mem' = IF r.err # "" THEN mem
               ELSE Append(mem, [shape |-> r.shape, layout |-> "", type |-> "", ver |-> 0, term |-> Versions])
\* overwrite an object (results, and arguments that are writable arrays)
Scribble(k) ==
  /\ ~IsScalar(mem[k].shape)
  /\ k > NA \/ mem[k].layout # "readonly"
  /\ hist' = Append(hist, [op |-> "scribble", k |-> k, err |-> ""])
  /\ mem' = [mem EXCEPT ![k].ver = @ + 1]
Next ==
  /\ Len(hist) < Depth
  /\ UNCHANGED <<fn, form>>
  /\ (Call \/ \E k \in DOMAIN mem : Scribble(k))
Spec == Init /\ [][Next]_vars

\* calls change nothing that existed; scribbling changes only the object scribbled on
CallsArePure == [][ /\ Len(mem') >= Len(mem)
                    /\ \A k \in DOMAIN mem : mem'[k] # mem[k] => \E m \in {hist'[Len(hist')]} : m.op = "scribble" /\ m.k = k ]_vars
\* equal arguments give equal results
Deterministic == \A j, k \in (NA + 1)..Len(mem) : mem[j].term = mem[k].term => mem[j].shape = mem[k].shape
\* shape rules agree with each other
ShapeLaws ==
  /\ Fam[fn] = "cast" =>
       \* broadcasting is commutative and a scalar is neutral
       LET ss == form.shapes IN
       /\ BcAll(ss) = BcAll([k \in DOMAIN ss |-> ss[Len(ss) + 1 - k]])
       /\ BcAll(<<Scalar>> \o ss) = BcAll(ss)
  /\ Fam[fn] = "pair" /\ Result(fn, form.shapes).err = "" /\ Arrays(form.shapes) # {} =>
       BcAll(form.shapes) = << Result(fn, form.shapes).shape >>

Emit == (Len(hist') = Depth \/ (hist' # <<>> /\ hist'[Len(hist')].err # "")) =>
   PrintT(ToJson([fn |-> fn, form |-> form, mem |-> mem', hist |-> hist', na |-> NA,
                  res |-> Result(fn, form.shapes)]))
=============================================================================
