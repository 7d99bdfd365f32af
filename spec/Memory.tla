------------------------------- MODULE Memory -------------------------------
(***************************************************************************)
(* Sequences of calls by a caller who keeps what was handed out, uses the  *)
(* same argument objects again and overwrites whatever is in the caller's  *)
(* hands.  The library has no state of its own: what a call returns is a   *)
(* function of the contents of its arguments at that moment.               *)
(*                                                                         *)
(* A call is a function with a variant of its arguments (one aspect        *)
(* changed: one of them, a tiny bit of it, the shape, the type, the unit,  *)
(* the options).  Calls may overlap: another call runs to its end at some  *)
(* moment in the middle of a call (from another thread).                   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, FiniteSets
CONSTANTS Fns, Aspects, Others, OtherAspects, Ops, Depth, Moments,
          Single      \* histories of one function only
VARIABLES hist,
          args,   \* argument objects of the calls: [fn, ver, id]; id: the call they were made for
          held,   \* results in the hands of the caller: [val, mine]; mine: overwritten by the caller
          shared  \* settings of the process that all its code shares
vars == <<hist, args, held, shared>>

Pairs  == {"true_to_eccentric", "eccentric_to_true", "eccentric_to_mean", "mean_to_eccentric", "true_to_mean", "mean_to_true", "kepler_guess"}
States == {"kep_to_cart", "cart_to_kep", "cart_to_equi", "equi_to_cart"}
Elems  == {"kep_to_equi", "equi_to_kep"}
Maps   == {"stumpff", "stumpff0", "stumpff1", "stumpff2", "stumpff3", "true_of_the_asymptote"}
Two    == {"decorated", "orbital_period", "semi_major_axis", "parabolic_radius", "parabolic_total_angular_momentum", "kep_equivalent"}
Three  == {"orbit_total_angular_momentum", "elliptic_radius", "hyperbolic_radius", "orbital_speed", "euler_rotation_matrix", "get_G", "laguerre_solve_kepler"}
Turns  == {"rot_mat_x", "rot_mat_y", "rot_mat_z"}
Orbits == {"orbit_cartesian", "orbit_kepler", "orbit_anomalies", "orbit_propagate", "orbit_print"}
Units  == (Pairs \ {"kepler_guess"}) \cup States \cup Elems \cup Orbits
          \cup {"true_of_the_asymptote", "parabolic_radius", "elliptic_radius", "hyperbolic_radius", "orbital_distance", "euler_rotation_matrix", "decorated"}
Solves == {"mean_to_eccentric", "mean_to_true", "equi_to_cart", "laguerre_solve_kepler", "orbit_anomalies", "orbit_propagate"}

RECURSIVE Has(_, _)
Has(f, v) ==
  CASE v \in {"base", "one", "near"} -> TRUE
    [] v \in {"two", "near2"} -> f \notin Maps \cup Turns
    [] v \in {"three", "near3"} -> f \in Three \cup Orbits \cup {"orbital_distance"}
    [] v = "shape" -> f \notin Turns \cup {"laguerre_solve_kepler", "kep_equivalent"}
    [] v = "f32"   -> f \notin {"get_G", "laguerre_solve_kepler", "kep_equivalent"}
    [] v = "deg"   -> f \in Units
    [] v = "opt"   -> f \in Solves
    [] v = "default" -> f \in States
    [] v = "shape+one" -> Has(f, "shape") [] v = "shape+near" -> Has(f, "shape")
    [] v = "shape+two" -> Has(f, "shape") /\ Has(f, "two") [] v = "shape+near2" -> Has(f, "shape") /\ Has(f, "two")
    [] v = "shape+three" -> Has(f, "shape") /\ Has(f, "three") [] v = "shape+near3" -> Has(f, "shape") /\ Has(f, "three")
    [] v = "shape+deg" -> Has(f, "shape") /\ Has(f, "deg") [] v = "shape+opt" -> Has(f, "shape") /\ Has(f, "opt")
    [] OTHER -> FALSE
Numbers == {"base", "one", "two"}      \* differ in the numbers only

Init == hist = <<>> /\ args = <<>> /\ held = <<>> /\ shared = "calls"
Do(r) == hist' = Append(hist, r) /\ shared' = IF r.op = "settings" THEN r.v ELSE shared
Value(f, v) == <<f, v>>                \* uninterpreted: no history
Obj(f, v, j) == [fn |-> f, ver |-> v, id |-> j]
Got(f, v) == [val |-> Value(f, v), mine |-> FALSE]
R(op, f, v, k, g, w, m) == [op |-> op, f |-> f, v |-> v, k |-> k, g |-> g, w |-> w, at |-> m]

Same(f) == Single /\ hist # <<>> => f = hist[1].f
Call == "call" \in Ops /\ \E f \in Fns \cup Others, v \in Aspects \cup OtherAspects :
  /\ Same(f) /\ Has(f, v) /\ (IF f \in Fns THEN v \in Aspects ELSE v \in OtherAspects)
  /\ args' = Append(args, Obj(f, v, Len(args) + 1)) /\ held' = Append(held, Got(f, v))
  /\ Do(R("call", f, v, 0, "", "", 0))
\* the same argument objects again, whatever they hold now
Again == "again" \in Ops /\ \E k \in DOMAIN args :
  /\ args' = Append(args, args[k]) /\ held' = Append(held, Got(args[k].fn, args[k].ver))
  /\ Do(R("again", args[k].fn, args[k].ver, k, "", "", 0))
\* the caller overwrites the numbers in argument objects; objects used by several calls are the same
Over == "over" \in Ops /\ \E k \in DOMAIN args, v \in Numbers :
  /\ args[k].id = k
  /\ args[k].ver \in Numbers /\ v # args[k].ver /\ Has(args[k].fn, v)
  /\ args' = [j \in DOMAIN args |-> IF args[j].id = k THEN [args[j] EXCEPT !.ver = v] ELSE args[j]]
  /\ held' = held
  /\ Do(R("over", args[k].fn, v, k, "", "", 0))
Spoil == "spoil" \in Ops /\ \E k \in DOMAIN held :
  /\ ~held[k].mine
  /\ held' = [held EXCEPT ![k].mine = TRUE] /\ args' = args
  /\ Do(R("spoil", args[k].fn, "", k, "", "", 0))
\* a call with arguments that do not fit, with a text, with options there are not: mostly it raises
Fail == "fail" \in Ops /\ \E f \in Fns, w \in {"shape", "text", "options"} :
  /\ Same(f) /\ UNCHANGED <<args, held>>
  /\ Do(R("fail", f, w, 0, "", "", 0))
Overlap == "overlap" \in Ops /\ \E f \in Fns, v \in Aspects, g \in Others, w \in OtherAspects, m \in Moments :
  /\ Same(f) /\ (Single => g = f) /\ Has(f, v) /\ Has(g, w)
  /\ args' = args \o <<Obj(f, v, Len(args) + 1), Obj(g, w, Len(args) + 2)>>
  /\ held' = held \o <<Got(f, v), Got(g, w)>>
  /\ Do(R("overlap", f, v, 0, g, w, m))
\* the caller changes what the whole process shares
Settings == "settings" \in Ops /\ \E w \in {"calls", "silent", "digits"} \ {shared} :
  /\ UNCHANGED <<args, held>> /\ Do(R("settings", "", w, 0, "", "", 0))
\* in random histories the last step is one of its own
Stop == Len(hist) = Depth - 1 /\ UNCHANGED <<args, held>> /\ Do(R("stop", "", "", 0, "", "", 0))
Next == IF "stop" \in Ops /\ Len(hist) >= Depth - 1 THEN Stop
        ELSE Len(hist) < Depth /\ (Call \/ Again \/ Over \/ Spoil \/ Fail \/ Overlap \/ Settings)
Spec == Init /\ [][Next]_vars

\* what was handed out stays as it is unless the caller changes it
HeldStill == [][ \A k \in DOMAIN held : held'[k].val = held[k].val /\ (held'[k].mine => held[k].mine \/ hist'[Len(hist')].op = "spoil") ]_vars
\* a new result is the value of the contents of its arguments
Fresh == [][ \A k \in DOMAIN held' \ DOMAIN held : held'[k].val = Value(args'[k].fn, args'[k].ver) /\ ~held'[k].mine ]_vars
\* calls, also failed ones, leave alone what they share with the rest of the process
Untouched == [][ shared' = shared \/ hist'[Len(hist')].op = "settings" ]_vars
Paired == Len(args) = Len(held)

Emit == (Len(hist') = Depth) => PrintT(ToJson([hist |-> hist', held |-> held']))
EmitEnd == Emit
=============================================================================
