----------------------------- MODULE Constants -----------------------------
(***************************************************************************)
(* The constants module as a write-once store shared by all its handles.   *)
(*                                                                         *)
(* Handles are the module itself, further instances of its class made at   *)
(* any time, and other references to it.  Values are given by equality     *)
(* class and representation: values of one class compare equal.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, FiniteSets
CONSTANTS Builtin,  \* names of the documented constants used
          New,      \* names that are not defined at the start
          Values,   \* values, see Class
          Handles, Ways, Depth, EmitReads
VARIABLES store,    \* name -> value identifier; 0 is the documented value
          handles,  \* handles in existence
          hist
vars == <<store, handles, hist>>
\* equality classes of the values; 0: the documented value of a constant, 100: equal to it, different object;
\* 101: the next number to it, 102: different in the seventh digit, 103: of the other sign, 104: its printed form as a text;
\* 8, 9, 10: a number next to 1, 1 as a text, 3 in capitals
Class(v) == CASE v = 100 -> 0 [] v \in {1, 2} -> 1 [] OTHER -> v
Init == /\ store = [n \in Builtin |-> 0] /\ handles = {"module"} /\ hist = <<>>
Do(r) == hist' = Append(hist, r)
Set == \E h \in handles, n \in Builtin \cup New, v \in Values, w \in Ways :
  /\ (v \in {0, 100, 101, 102, 103, 104}) => n \in Builtin
  /\ UNCHANGED handles
  /\ LET out == IF n \notin DOMAIN store \/ Class(store[n]) = Class(v) THEN "ok" ELSE "ConstError"
     IN /\ store' = IF n \in DOMAIN store THEN store ELSE store @@ (n :> v)
        /\ Do([op |-> "set", h |-> h, n |-> n, v |-> v, way |-> w, out |-> out])
Delete == \E h \in handles, n \in Builtin \cup New, w \in Ways :
  /\ UNCHANGED <<store, handles>>
  /\ Do([op |-> "del", h |-> h, n |-> n, v |-> 0, way |-> w, out |-> IF n \in DOMAIN store THEN "ConstError" ELSE "NameError"])
Handle == \E h \in Handles \ handles : handles' = handles \cup {h} /\ store' = store /\ Do([op |-> "handle", h |-> h, n |-> "", v |-> 0, way |-> "", out |-> "ok"])
Next == Len(hist) < Depth /\ (Set \/ Delete \/ Handle)
Spec == Init /\ [][Next]_vars
\* once defined, always that very value
WriteOnce == [][ \A n \in DOMAIN store : n \in DOMAIN store' /\ store'[n] = store[n] ]_vars
Documented == \A n \in Builtin : store[n] = 0
RejectedIsNothing == [][ hist'[Len(hist')].out # "ok" => store' = store ]_vars
Emit == PrintT(ToJson([hist |-> hist', store |-> {<<n, store'[n]>> : n \in DOMAIN store'}]))
EmitEnd == (Len(hist') = Depth) => Emit
View == <<store, handles, Len(hist), IF hist = <<>> THEN <<>> ELSE hist[Len(hist)]>>
=============================================================================
