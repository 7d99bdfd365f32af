----------------------------- MODULE Decorator -----------------------------
(***************************************************************************)
(* A function decorated with angle_units and the calls of it.              *)
(*                                                                         *)
(* The function has three parameters that may be given by position or by   *)
(* keyword and one that is keyword only.  Values are tracked by their      *)
(* unit: "raw" as the caller gave them, "rad" converted from degrees; the  *)
(* results as the function returned them ("raw") or in degrees ("deg").    *)
(* Several functions may be decorated and called in turn; a call depends   *)
(* on nothing but its own declaration and arguments.                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, FiniteSets
CONSTANTS Inds, Keys, Outs, Defaults, Flags, ArgForms, RetForms, MaxFun, Depth
VARIABLES funs,  \* declarations [inds, keys, out, dflt]
          hist
vars == <<funs, hist>>

Params == <<"p", "q", "s">>
Pos == 1..3
\* declared inputs: "none" (None) or a set of positions / keys
IndsTab == << {}, {1}, {2}, {1, 3}, {1, 2, 3}, {}, {3} >>       \* the sixth is an empty list, the first None
KeysTab == << {}, {"p"}, {"k"}, {"q", "k"}, {"p", "q", "s", "k"}, {}, {"s", "other"} >>
\* results: None, True, lists of indices
OutTab == << {}, {1}, {1}, {2}, {1, 3}, {1, 2, 3}, {} >>     \* None, True, [0], [1], [0, 2], [2, 0, 1], []
WholeOut(o) == o = 2
Results(ret) == CASE ret \in {"scalar", "array", "nothing"} -> 0 [] ret \in {"tuple", "list"} -> 3

Init == funs = <<>> /\ hist = <<>>
Decorate == /\ Len(funs) < MaxFun
            /\ \E i \in Inds, k \in Keys, o \in Outs, d \in Defaults :
                 LET f == [inds |-> i, keys |-> k, out |-> o, dflt |-> d]
                 IN funs' = Append(funs, f) /\ hist' = Append(hist, [op |-> "decorate"] @@ f)
\* npos arguments by position, the others by keyword or left out
Call == \E n \in DOMAIN funs, npos \in 0..3, kw \in SUBSET {"p", "q", "s", "k"}, flag \in Flags, a \in ArgForms, ret \in RetForms :
  LET f == funs[n]
      deg == CASE flag = "absent" -> f.dflt [] flag = "true" -> TRUE [] flag = "false" -> FALSE
      in(x) == IF deg THEN x ELSE "raw"
      positional == [j \in 1..npos |-> in(IF j \in IndsTab[f.inds] THEN "rad" ELSE "raw")]
      keyword == [x \in kw |-> in(IF x \in KeysTab[f.keys] THEN "rad" ELSE "raw")]
      whole == IF deg /\ WholeOut(f.out) /\ ret # "nothing" THEN "deg" ELSE "raw"
      parts == [j \in 1..Results(ret) |-> IF deg /\ j \in OutTab[f.out] /\ ~WholeOut(f.out) THEN "deg" ELSE "raw"]
  IN /\ \A j \in 1..npos : Params[j] \notin kw
     /\ ret \in {"tuple", "list"} \/ f.out \in {1, 2} \/ ret = "nothing"     \* results by index need a sequence
     /\ (ret \in {"tuple", "list"}) => ~WholeOut(f.out)
     /\ funs' = funs
     /\ hist' = Append(hist, [op |-> "call", n |-> n, npos |-> npos, kw |-> kw, flag |-> flag, form |-> a, ret |-> ret, deg |-> deg,
                              positional |-> positional, keyword |-> keyword, whole |-> whole, parts |-> parts])
Next == Len(hist) < Depth /\ (Decorate \/ Call)
Spec == Init /\ [][Next]_vars

LastIs(op) == hist # <<>> /\ hist[Len(hist)].op = op
C == hist[Len(hist)]
\* nothing is touched without degrees
Plain == LastIs("call") /\ ~C.deg => /\ \A j \in DOMAIN C.positional : C.positional[j] = "raw"
                                     /\ \A x \in DOMAIN C.keyword : C.keyword[x] = "raw"
                                     /\ C.whole = "raw" /\ \A j \in DOMAIN C.parts : C.parts[j] = "raw"
\* and only what is declared with degrees
Declared == LastIs("call") => /\ \A j \in DOMAIN C.positional : (C.positional[j] = "rad") = (C.deg /\ j \in IndsTab[funs[C.n].inds])
                              /\ \A x \in DOMAIN C.keyword : (C.keyword[x] = "rad") = (C.deg /\ x \in KeysTab[funs[C.n].keys])
\* declarations never change
Fixed == [][ \A n \in DOMAIN funs : funs'[n] = funs[n] ]_vars
Emit == (hist'[Len(hist')].op = "call") => PrintT(ToJson(hist'))
EmitEnd == (Len(hist') = Depth /\ hist'[Len(hist')].op = "call") => PrintT(ToJson(hist'))
\* histories with the same declarations are told apart by the last call
View == <<funs, Len(hist), IF LastIs("call") THEN C ELSE [op |-> "decorate"]>>
=============================================================================
