---------------------------- MODULE OrbitObject ----------------------------
(***************************************************************************)
(* The pyorb.Orbit object as a state machine.                              *)
(*                                                                         *)
(* An Orbit holds N members, each described twice: by Keplerian elements   *)
(* and by Cartesian elements.  Numbers are not computed here: an element   *)
(* vector is a *term* that says how its value comes about (written         *)
(* literals, single elements written over an older vector, converted from  *)
(* the other representation with a mass and an anomaly type, propagated,   *)
(* ...).  The conformance driver replays the behaviours on the real class  *)
(* and evaluates the terms with an independent implementation of the       *)
(* two-body problem.                                                       *)
(*                                                                         *)
(* Two layers are specified side by side:                                  *)
(*   truth   what the user sees: every write is converted at once (tk,tc)  *)
(*   design  what is stored: both vectors plus, per member, which of the   *)
(*           two is up to date (fk, fc); conversion when needed (k,c)      *)
(* The invariant Refines says that what reads of the design give is the    *)
(* truth; NoContradiction says that the two representations of the truth   *)
(* agree.                                                                  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS
  Classes,    \* operation classes that are enabled (set of strings)
  InitModes,  \* modes the object can be created in
  InitTypes,  \* anomaly types the object can be created with
  InitKinds,  \* what the object is created with: "nan", "k1", "c1", ...
  N0,         \* set of initial numbers of members
  MaxN,       \* bound on the number of members
  Depth,      \* bound on the length of a history
  Vals,       \* value identifiers used by writes (odd: one value for all members, even: one per member)
  KEls, CEls, \* elements that single-element operations write
  SelForms,   \* how members are selected
  ViewLast    \* how many of the last operations distinguish states

VARIABLES
  st,    \* the object (see Obj below)
  sh,    \* a second object that must not be influenced: <<>> or <<object>>
  h      \* history of operations (what the driver replays)

vars == <<st, sh, h>>

Full == 1..6
Types == {"true", "eccentric", "mean"}
Modes == {"direct", "donly", "lazy", "manual"}
Auto(mode) == mode # "manual"
Direct(mode) == mode \in {"direct", "donly"}

-----------------------------------------------------------------------------
(* Vectors: [t |-> term, s |-> set of elements that have a value].          *)

NanV == [t |-> <<"nan">>, s |-> {}]
Lit(kind, v, p) == [t |-> <<kind, v, p>>, s |-> Full]

RECURSIVE SetT(_, _, _, _)
SetT(t, el, v, p) ==
  IF t[1] = "set" /\ t[3] = el THEN SetT(t[2], el, v, p) ELSE <<"set", t, el, v, p>>
SetV(x, el, v, p) == [t |-> SetT(x.t, el, v, p), s |-> x.s \cup {el}]
\* several elements at once
RECURSIVE SetMany(_, _, _, _, _)
SetMany(x, els, v, p, j) ==
  IF j = 0 THEN x ELSE SetMany(IF j \in els THEN SetV(x, j, v, p) ELSE x, els, v, p, j - 1)
KSets == {{1, 2}, {2, 6}, {1, 3, 5}, {3, 4, 5}, {2, 4, 6}, {1, 2, 6}, 1..5, 1..6}
CSets == {{1, 2, 3}, {4, 5, 6}, {1, 5}, {3, 4}, {2, 3, 6}, {1, 2, 4, 5}, 1..6}

\* Keplerian anomaly re-expressed in another type; same orbit, same position
AnomT(t, f, g) ==
  IF f = g THEN t
  ELSE IF t[1] = "anom" THEN IF t[3] = g THEN t[2] ELSE <<"anom", t[2], t[3], g>>
  ELSE IF t[1] = "c2k" THEN <<"c2k", t[2], t[3], g>>
  ELSE IF t[1] = "can" THEN
         <<"can", IF t[2][1] = "anom"
                  THEN IF t[2][3] = g THEN t[2][2] ELSE <<"anom", t[2][2], t[2][3], g>>
                  ELSE <<"anom", t[2], f, g>>, g>>
  ELSE <<"anom", t, f, g>>

\* canonical elements of the same orbit
CanT(t, ty) == IF t[1] \in {"can", "c2k"} THEN t ELSE <<"can", t, ty>>

K2CT(t, m, ty) ==
  IF t[1] = "c2k" /\ t[3] = m THEN t[2]
  ELSE IF t[1] = "anom" THEN <<"k2c", t[2], m, t[3]>>
  ELSE IF t[1] = "can" THEN
         IF t[2][1] = "anom" THEN <<"k2c", t[2][2], m, t[2][3]>> ELSE <<"k2c", t[2], m, t[3]>>
  ELSE <<"k2c", t, m, ty>>

C2KT(t, m, ty) ==
  IF t[1] = "k2c" /\ t[3] = m THEN CanT(AnomT(t[2], t[4], ty), ty)
  ELSE <<"c2k", t, m, ty>>

K2C(x, m, ty) == [t |-> K2CT(x.t, m, ty), s |-> Full]
C2K(x, m, ty) == [t |-> C2KT(x.t, m, ty), s |-> Full]

-----------------------------------------------------------------------------
(* Members: k, c, fk, fc, m  (design), tk, tc (truth), ms: the mass changed *)
(* after the last conversion.                                               *)

NewMember(m) == [k |-> NanV, c |-> NanV, fk |-> FALSE, fc |-> FALSE, m |-> m,
                 tk |-> NanV, tc |-> NanV, ms |-> FALSE]

RawC(o, ty) == IF o.k.s = Full
               THEN [o EXCEPT !.c = K2C(o.k, o.m, ty), !.fk = TRUE, !.fc = TRUE] ELSE o
RawK(o, ty) == IF o.c.s = Full
               THEN [o EXCEPT !.k = C2K(o.c, o.m, ty), !.fk = TRUE, !.fc = TRUE] ELSE o

\* explicit conversions; automatic modes first complete a pending one
DoC(o, mode, ty) == RawC(IF Auto(mode) /\ o.fc /\ ~o.fk THEN RawK(o, ty) ELSE o, ty)
DoK(o, mode, ty) == RawK(IF Auto(mode) /\ o.fk /\ ~o.fc THEN RawC(o, ty) ELSE o, ty)

\* what an access to one side does
CCheck(o, mode, ty) == IF Auto(mode) /\ ~o.fc THEN DoC(o, mode, ty) ELSE o
KCheck(o, mode, ty) == IF Auto(mode) /\ ~o.fk THEN DoK(o, mode, ty) ELSE o

\* truth: conversion at once
TruthK(o, x, ty) == [o EXCEPT !.tk = x,
                              !.tc = IF x.s = Full THEN K2C(x, o.m, ty) ELSE @,
                              !.ms = IF x.s = Full THEN FALSE ELSE @]
TruthC(o, x, ty) == [o EXCEPT !.tc = x,
                              !.tk = IF x.s = Full THEN C2K(x, o.m, ty) ELSE @,
                              !.ms = IF x.s = Full THEN FALSE ELSE @]

\* write one side: design stores it and marks the other side as outdated
StoreK(o, x, mode, ty) ==
  LET w == [o EXCEPT !.k = x, !.fk = TRUE, !.fc = FALSE]
  IN IF Direct(mode) THEN DoC(w, mode, ty) ELSE w
StoreC(o, x, mode, ty) ==
  LET w == [o EXCEPT !.c = x, !.fc = TRUE, !.fk = FALSE]
  IN IF Direct(mode) THEN DoK(w, mode, ty) ELSE w

WriteK(o, F(_), whole, mode, ty) ==
  LET o1 == IF whole THEN o ELSE KCheck(o, mode, ty)
  IN StoreK(TruthK(o1, F(o.tk), ty), F(o1.k), mode, ty)
WriteC(o, F(_), whole, mode, ty) ==
  LET o1 == IF whole THEN o ELSE CCheck(o, mode, ty)
  IN StoreC(TruthC(o1, F(o.tc), ty), F(o1.c), mode, ty)

\* in manual mode there is no truth besides the stored elements
Sync(o, mode, ty) ==
  IF Auto(mode) THEN o
  ELSE LET a == KCheck(CCheck(o, "lazy", ty), "lazy", ty)
       IN [o EXCEPT !.tk = a.k, !.tc = a.c]

-----------------------------------------------------------------------------
(* Objects                                                                  *)
Obj(n, mode, ty) == [mem |-> [i \in 1..n |-> NewMember(0)], mode |-> mode, type |-> ty,
                     rok |-> FALSE, roc |-> FALSE, cm |-> 0]
NumOf(s) == Len(s.mem)

MapSel(s, sel, F(_, _)) ==
  [s EXCEPT !.mem = [i \in 1..Len(s.mem) |->
      IF i \in sel THEN Sync(F(s.mem[i], i), s.mode, s.type) ELSE s.mem[i]]]

\* position of member i among the selected ones (for values given per member)
Pos(sel, i) == Cardinality({j \in sel : j <= i})
\* value position: odd identifiers are one value for all members
P(v, sel, i) == IF v % 2 = 1 THEN 0 ELSE Pos(sel, i)

All(s) == 1..NumOf(s)
Pending(s) == \E i \in All(s) : s.mem[i].fk # s.mem[i].fc
FullK(s, sel) == \A i \in sel : KCheck(s.mem[i], s.mode, s.type).k.s = Full
HasE(s, sel) == \A i \in sel : 2 \in KCheck(s.mem[i], s.mode, s.type).k.s
FullC(s, sel) == \A i \in sel : CCheck(s.mem[i], s.mode, s.type).c.s = Full

\* reads: what the two sides show
ViewK(s) == [i \in All(s) |-> KCheck(s.mem[i], s.mode, s.type).k]
ViewC(s) == [i \in All(s) |-> CCheck(s.mem[i], s.mode, s.type).c]
AfterReadK(s) == [s EXCEPT !.mem = [i \in All(s) |-> KCheck(s.mem[i], s.mode, s.type)]]
AfterReadC(s) == [s EXCEPT !.mem = [i \in All(s) |-> CCheck(s.mem[i], s.mode, s.type)]]

-----------------------------------------------------------------------------
(* Selections                                                               *)
Sels(n) ==
  LET forms(f) ==
        CASE f = "all"   -> {1..n}
          [] f = "int"   -> {{i} : i \in 1..n}
          [] f = "neg"   -> {{i} : i \in 1..n}
          [] f = "slice" -> {a..b : a \in 1..n, b \in 1..n} \ {{}}
          [] f = "list"  -> SUBSET (1..n) \ {{}}
          [] f = "none"  -> {{}}
          [] f = "mask"  -> SUBSET (1..n) \ {{}}
          [] f = "int1"  -> {{n}} \ {{0}}
          [] f = "neg1"  -> IF n = 0 THEN {} ELSE {{1}}
          [] f = "mask1" -> {1..n \ {1}} \ {{}}
          [] f = "list1" -> IF n = 0 THEN {} ELSE {{1, n}}
          [] f = "slice1" -> {1..n \ {n}} \ {{}}
  IN UNION {{[f |-> f, s |-> x] : x \in forms(f)} : f \in SelForms}

Has(c) == c \in Classes

-----------------------------------------------------------------------------
(* Operations: Ops(s) is the set of operations that are possible, Apply     *)
(* the state after one.                                                     *)

IsKWrite(op) ==
  \/ op.op \in {"setK", "fullK", "anom", "period", "mm", "equi", "prop", "updK", "updKfull", "updMK", "updKs", "updMKs"}
  \/ op.op = "add" /\ op.w \in {"K", "Kpart", "Kset"}
IsCWrite(op) ==
  \/ op.op \in {"setC", "fullC", "setR", "setV", "vel", "updC", "updCfull", "updMC", "updCs", "updMCs"}
  \/ op.op = "add" /\ op.w \in {"C", "Cpart", "Cset"}

\* rejected operations: exception class
Rejected(s, op) ==
  IF IsKWrite(op) /\ s.rok THEN "AttributeError"
  ELSE IF op.op = "type" /\ op.t # s.type /\ s.rok THEN "AttributeError"
  ELSE IF IsCWrite(op) /\ s.roc THEN "AttributeError"
  ELSE IF op.op = "badval" THEN "Error"
  ELSE IF op.op \in {"badmix", "badaddmix", "badtype"} THEN
    IF op.op # "badtype" /\ (s.rok \/ s.roc) THEN "AttributeError" ELSE "ValueError"
  ELSE IF op.op \in {"updM", "updMK", "updMC", "updMKs", "updMCs"} /\ Direct(s.mode) THEN "ValueError"
  ELSE ""

Upd(s, op) == op.sel.s

KSet(op, sel, i, x) == SetV(x, op.el, op.v, P(op.v, sel, i))

\* A mass identifier is 100 * (identifier of the gravitational constant) + 10 * (identifier of the central mass)
\* + (identifier of the own mass); cm is it without the own mass, divided by 10
SetMassOf(o, m) == [o EXCEPT !.m = m, !.ms = (m # o.m) \/ @]
\* own mass number 9: every other one of the selected members differs
Own(m, sel, i) == IF m = 9 THEN 1 + (Pos(sel, i) % 2) ELSE m
MassId(s, m, sel, i) == 10 * s.cm + Own(m, sel, i)

AddMembers(s, op) ==
  LET n == NumOf(s)
      fresh == [j \in 1..op.num |-> NewMember(MassId(s, op.m, 1..op.num, j))]
      s1 == [s EXCEPT !.mem = @ \o fresh]
      sel == (n+1)..(n+op.num)
      fk(o, i) == WriteK(o, LAMBDA x : Lit("klit", op.v, P(op.v, sel, i)), TRUE, s.mode, s.type)
      fc(o, i) == WriteC(o, LAMBDA x : Lit("clit", op.v, P(op.v, sel, i)), TRUE, s.mode, s.type)
      fkp(o, i) == WriteK(o, LAMBDA x : SetV(SetV(x, 1, op.v, P(op.v, sel, i)), 2, op.v, P(op.v, sel, i)),
                          FALSE, s.mode, s.type)
      fcp(o, i) == WriteC(o, LAMBDA x : SetV(SetV(x, 1, op.v, P(op.v, sel, i)), 5, op.v, P(op.v, sel, i)),
                          FALSE, s.mode, s.type)
  IN CASE op.w = "none"  -> s1
       [] op.w = "K"     -> MapSel(s1, sel, fk)
       [] op.w = "C"     -> MapSel(s1, sel, fc)
       [] op.w = "Kpart" -> MapSel(s1, sel, fkp)
       [] op.w = "Cpart" -> MapSel(s1, sel, fcp)
       [] op.w = "Kset" ->
            LET f(o, i) == WriteK(o, LAMBDA x : SetMany(x, op.els, op.v, P(op.v, sel, i), 6), FALSE, s.mode, s.type)
            IN MapSel(s1, sel, f)
       [] op.w = "Cset" ->
            LET f(o, i) == WriteC(o, LAMBDA x : SetMany(x, op.els, op.v, P(op.v, sel, i), 6), FALSE, s.mode, s.type)
            IN MapSel(s1, sel, f)


RECURSIVE SelSeq(_, _, _)
SelSeq(q, sel, i) == IF i > Len(q) THEN <<>>
                     ELSE (IF i \in sel THEN <<q[i]>> ELSE <<>>) \o SelSeq(q, sel, i + 1)

\* the members an indexing operation gives, as an object of their own
Pick(s, sel) == [s EXCEPT !.mem = SelSeq(s.mem, sel, 1)]

\* mass update with elements: pending conversions are completed first
Settle(o, mode, ty) == KCheck(CCheck(o, mode, ty), mode, ty)

ApplyOp(s, op) ==
  LET mode == s.mode
      ty == s.type
      all == All(s)
  IN
  IF Rejected(s, op) # "" THEN s
  ELSE CASE
     op.op = "setK" ->
       LET f(o, i) == WriteK(o, LAMBDA x : KSet(op, all, i, x), FALSE, mode, ty) IN MapSel(s, all, f)
  [] op.op = "setC" ->
       LET f(o, i) == WriteC(o, LAMBDA x : KSet(op, all, i, x), FALSE, mode, ty) IN MapSel(s, all, f)
  [] op.op = "fullK" ->
       LET f(o, i) == WriteK(o, LAMBDA x : Lit("klit", op.v, P(op.v, all, i)), TRUE, mode, ty) IN MapSel(s, all, f)
  [] op.op = "fullC" ->
       LET f(o, i) == WriteC(o, LAMBDA x : Lit("clit", op.v, P(op.v, all, i)), TRUE, mode, ty) IN MapSel(s, all, f)
  [] op.op = "setR" ->
       LET f(o, i) == WriteC(o, LAMBDA x : SetV(SetV(SetV(x, 1, op.v, P(op.v, all, i)), 2, op.v, P(op.v, all, i)),
                                                3, op.v, P(op.v, all, i)), FALSE, mode, ty) IN MapSel(s, all, f)
  [] op.op = "setV" ->
       LET f(o, i) == WriteC(o, LAMBDA x : SetV(SetV(SetV(x, 4, op.v, P(op.v, all, i)), 5, op.v, P(op.v, all, i)),
                                                6, op.v, P(op.v, all, i)), FALSE, mode, ty) IN MapSel(s, all, f)
  [] op.op = "anom" ->  \* set the anomaly of kind op.t
       LET f(o, i) == WriteK(o, LAMBDA x : IF op.t = ty THEN KSet([op EXCEPT !.el = 6], all, i, x)
                                           ELSE [t |-> <<"seta", x.t, ty, op.t, op.v, P(op.v, all, i)>>,
                                                 s |-> x.s \cup {6}], FALSE, mode, ty) IN MapSel(s, all, f)
  [] op.op = "period" ->
       LET f(o, i) == WriteK(o, LAMBDA x : [t |-> <<"per", x.t, op.v, P(op.v, all, i), o.m>>, s |-> x.s \cup {1}],
                             FALSE, mode, ty) IN MapSel(s, all, f)
  [] op.op = "mm" ->
       LET f(o, i) == WriteK(o, LAMBDA x : [t |-> <<"mm", x.t, op.v, P(op.v, all, i), o.m>>, s |-> x.s \cup {1}],
                             FALSE, mode, ty) IN MapSel(s, all, f)
  [] op.op = "vel" ->
       LET f(o, i) == WriteC(o, LAMBDA x : [t |-> <<"vel", x.t, op.v, P(op.v, all, i)>>, s |-> x.s],
                             FALSE, mode, ty) IN MapSel(s, all, f)
  [] op.op = "equi" ->
       LET f(o, i) == WriteK(o, LAMBDA x : [t |-> <<"equi", op.v, P(op.v, all, i), ty>>, s |-> Full],
                             TRUE, mode, ty) IN MapSel(s, all, f)
  [] op.op = "prop" ->
       LET f(o, i) == WriteK(o, LAMBDA x : [t |-> <<"prop", x.t, ty, op.v, P(op.v, all, i), o.m>>, s |-> x.s],
                             FALSE, mode, ty) IN MapSel(s, all, f)
  [] op.op = "type" ->
       LET f(o, i) == LET a == KCheck(o, mode, ty)
                          g(x) == IF 6 \in x.s THEN [x EXCEPT !.t = AnomT(x.t, ty, op.t)] ELSE x
                      IN IF op.t = ty THEN o
                         ELSE [a EXCEPT !.k = g(a.k), !.tk = g(o.tk)]
           s1 == [s EXCEPT !.mem = [i \in all |-> f(s.mem[i], i)], !.type = op.t]
       IN [s1 EXCEPT !.mem = [i \in all |-> Sync(s1.mem[i], mode, op.t)]]
  [] op.op = "updK" ->
       LET f(o, i) == WriteK(o, LAMBDA x : KSet(op, op.sel.s, i, x), FALSE, mode, ty) IN MapSel(s, op.sel.s, f)
  [] op.op = "updC" ->
       LET f(o, i) == WriteC(o, LAMBDA x : KSet(op, op.sel.s, i, x), FALSE, mode, ty) IN MapSel(s, op.sel.s, f)
  [] op.op \in {"updKs", "updMKs"} ->  \* several elements, with or without the mass
       LET b(o, i) == IF op.op = "updKs" THEN o ELSE SetMassOf(Settle(o, mode, ty), MassId(s, op.m, op.sel.s, i))
           f(o, i) == WriteK(b(o, i), LAMBDA x : SetMany(x, op.els, op.v, P(op.v, op.sel.s, i), 6), FALSE, mode, ty)
       IN MapSel(s, op.sel.s, f)
  [] op.op \in {"updCs", "updMCs"} ->
       LET b(o, i) == IF op.op = "updCs" THEN o ELSE SetMassOf(Settle(o, mode, ty), MassId(s, op.m, op.sel.s, i))
           f(o, i) == WriteC(b(o, i), LAMBDA x : SetMany(x, op.els, op.v, P(op.v, op.sel.s, i), 6), FALSE, mode, ty)
       IN MapSel(s, op.sel.s, f)
  [] op.op = "updKfull" ->
       LET f(o, i) == WriteK(o, LAMBDA x : Lit("klit", op.v, P(op.v, op.sel.s, i)), TRUE, mode, ty)
       IN MapSel(s, op.sel.s, f)
  [] op.op = "updCfull" ->
       LET f(o, i) == WriteC(o, LAMBDA x : Lit("clit", op.v, P(op.v, op.sel.s, i)), TRUE, mode, ty)
       IN MapSel(s, op.sel.s, f)
  [] op.op = "updM" ->
       LET f(o, i) == SetMassOf(Settle(o, mode, ty), MassId(s, op.m, op.sel.s, i)) IN MapSel(s, op.sel.s, f)
  [] op.op = "updMK" ->
       LET f(o, i) == WriteK(SetMassOf(Settle(o, mode, ty), MassId(s, op.m, op.sel.s, i)),
                             LAMBDA x : KSet(op, op.sel.s, i, x), FALSE, mode, ty) IN MapSel(s, op.sel.s, f)
  [] op.op = "updMC" ->
       LET f(o, i) == WriteC(SetMassOf(Settle(o, mode, ty), MassId(s, op.m, op.sel.s, i)),
                             LAMBDA x : KSet(op, op.sel.s, i, x), FALSE, mode, ty) IN MapSel(s, op.sel.s, f)
  [] op.op = "mass" ->
       LET f(o, i) == SetMassOf(o, MassId(s, op.m, op.sel.s, i)) IN MapSel(s, op.sel.s, f)
  [] op.op = "central" ->
       LET c == 10 * (s.cm \div 10) + op.m
           f(o, i) == SetMassOf(o, 10 * c + (o.m % 10)) IN [MapSel(s, all, f) EXCEPT !.cm = c]
  [] op.op = "grav" ->
       LET c == 10 * op.m + (s.cm % 10)
           f(o, i) == SetMassOf(o, 10 * c + (o.m % 10)) IN [MapSel(s, all, f) EXCEPT !.cm = c]
  [] op.op = "calcC" ->
       LET f(o, i) == LET d == DoC(o, mode, ty)
                      IN IF o.tk.s = Full THEN [d EXCEPT !.tc = K2C(o.tk, o.m, ty), !.ms = FALSE] ELSE d
       IN MapSel(s, op.sel.s, f)
  [] op.op = "calcK" ->
       LET f(o, i) == LET d == DoK(o, mode, ty)
                      IN IF o.tc.s = Full THEN [d EXCEPT !.tk = C2K(o.tc, o.m, ty), !.ms = FALSE] ELSE d
       IN MapSel(s, op.sel.s, f)
  [] op.op = "calcA" -> AfterReadK(s)
  [] op.op = "add" -> AddMembers(s, op)
  [] op.op = "delete" -> Pick(s, All(s) \ op.sel.s)
  [] op.op = "mode" ->
       \* manual mode works on what is stored (nothing is pending then, see Ops)
       [s EXCEPT !.mode = op.t]
  [] op.op = "ro" -> [s EXCEPT !.rok = op.k, !.roc = op.c]
  [] op.op = "readK" -> AfterReadK(s)
  [] op.op = "readC" -> AfterReadC(s)
  [] op.op = "iter" -> s
  [] op.op = "copy" -> Pick(s, op.sel.s)
  [] op.op = "alloc" -> [s EXCEPT !.mem = [i \in 1..op.num |-> NewMember(10 * s.cm)]]
  [] op.op = "str" -> IF NumOf(s) = 1 THEN AfterReadC(AfterReadK(s)) ELSE s

\* An operation during which the Kepler equation solver is out of order.  What was written is stored and the
\* conversion stays pending, also in the modes that convert at once (the driver also accepts that nothing is
\* stored).  Reading with the solver out of order changes nothing.
Failing(s, op) ==
  IF op.in.op \in {"readK", "readC", "str"} THEN s
  ELSE [ApplyOp([s EXCEPT !.mode = IF Auto(@) THEN "lazy" ELSE @], op.in) EXCEPT !.mode = s.mode]
Apply(s, op) == IF op.op = "fail" THEN Failing(s, op) ELSE ApplyOp(s, op)

\* the second object after a copy: the one that is *not* used further
Other(s, op) == IF op.keep = "copy" THEN s ELSE Pick(s, op.sel.s)

OwnMasses == IF "ownmasses" \in Classes THEN {1, 2, 9} ELSE {1, 2}

KAnomOps(s, vals) == {[op |-> "anom", t |-> t, v |-> v, el |-> 6] :
                  t \in {x \in Types : x = s.type \/ HasE(s, All(s))}, v \in vals}

\* after a failure it is open what is pending
Failed == \E i \in 1..Len(h) : h[i].op = "fail"

PlainOpsOf(s, classes, sels, vals, kels, cels) ==
  LET n == NumOf(s)
      all == All(s)
      R(c, S) == IF c \in classes THEN S ELSE {}
      nz == n > 0
  IN UNION {
    R("setK", {[op |-> "setK", el |-> e, v |-> v] : e \in kels, v \in vals}),
    R("setC", {[op |-> "setC", el |-> e, v |-> v] : e \in cels, v \in vals}),
    R("fullK", {[op |-> "fullK", v |-> v] : v \in vals}),
    R("fullC", {[op |-> "fullC", v |-> v] : v \in vals}),
    R("rv", {[op |-> o, v |-> v] : o \in {"setR", "setV"}, v \in vals}),
    R("anom", KAnomOps(s, vals)),
    R("derived", IF FullK(s, all) /\ FullC(s, all)
                 THEN {[op |-> o, v |-> v] : o \in {"period", "mm", "vel"}, v \in vals} ELSE {}),
    R("equi", {[op |-> "equi", v |-> v] : v \in vals}),
    R("prop", IF FullK(s, all) THEN {[op |-> "prop", v |-> v] : v \in vals} ELSE {}),
    R("type", IF \A i \in all : LET x == KCheck(s.mem[i], s.mode, s.type).k
                                IN 6 \in x.s => 2 \in x.s
              THEN {[op |-> "type", t |-> t] : t \in Types} ELSE {}),
    R("updK", {[op |-> "updK", sel |-> x, el |-> e, v |-> v] : x \in sels, e \in kels, v \in vals}),
    R("updC", {[op |-> "updC", sel |-> x, el |-> e, v |-> v] : x \in sels, e \in cels, v \in vals}),
    R("updF", {[op |-> o, sel |-> x, v |-> v] : o \in {"updKfull", "updCfull"}, x \in sels, v \in vals}),
    R("updS", {[op |-> "updKs", sel |-> x, els |-> e, v |-> v] : x \in sels, e \in KSets, v \in vals}
              \cup {[op |-> "updCs", sel |-> x, els |-> e, v |-> v] : x \in sels, e \in CSets, v \in vals}),
    R("updSM", {[op |-> "updMKs", sel |-> x, m |-> m, els |-> e, v |-> v] :
                    x \in sels, m \in OwnMasses, e \in KSets, v \in vals}
               \cup {[op |-> "updMCs", sel |-> x, m |-> m, els |-> e, v |-> v] :
                    x \in sels, m \in OwnMasses, e \in CSets, v \in vals}),
    R("updM", {[op |-> "updM", sel |-> x, m |-> m] : x \in sels, m \in OwnMasses}),
    R("updME", {[op |-> "updMK", sel |-> x, m |-> m, el |-> e, v |-> v] :
                    x \in sels, m \in OwnMasses, e \in kels, v \in vals}
               \cup {[op |-> "updMC", sel |-> x, m |-> m, el |-> e, v |-> v] :
                    x \in sels, m \in OwnMasses, e \in cels, v \in vals}),
    R("mass", IF ~Pending(s) /\ ~Failed THEN {[op |-> "mass", sel |-> x, m |-> m] : x \in sels, m \in OwnMasses} ELSE {}),
    R("central", IF ~Pending(s) /\ ~Failed THEN {[op |-> "central", m |-> m] : m \in {0, 1, 2} \ {s.cm % 10}} \cup
                                             {[op |-> "grav", m |-> m] : m \in {0, 1} \ {s.cm \div 10}} ELSE {}),
    R("str", {[op |-> "str"]}),
    R("calc", {[op |-> o, sel |-> x] : o \in {"calcC", "calcK"}, x \in sels}),
    R("calcA", {[op |-> "calcA", t |-> t, sel |-> x] : t \in Types, x \in sels}),
    R("add", IF n < MaxN
             THEN {[op |-> "add", w |-> w, num |-> k, v |-> v, m |-> m] :
                     w \in {"none", "K", "C", "Kpart", "Cpart"}, k \in {1, 2} \cap 1..(MaxN - n), v \in vals,
                     m \in IF 9 \in OwnMasses THEN {0, 9} ELSE {0, 2}}
             ELSE {}),
    R("addS", IF n < MaxN
             THEN UNION {{[op |-> "add", w |-> w, els |-> e, num |-> k, v |-> v, m |-> 0] : e \in IF w = "Kset" THEN KSets ELSE CSets} :
                     w \in {"Kset", "Cset"}, k \in {1, 2} \cap 1..(MaxN - n), v \in vals}
             ELSE {}),
    R("addK", IF n < MaxN
             THEN {[op |-> "add", w |-> w, num |-> 1, v |-> v, m |-> 2] : w \in {"K", "C"}, v \in vals}
             ELSE {}),
    R("delete", {[op |-> "delete", sel |-> x] : x \in sels}),
    R("mode", {[op |-> "mode", t |-> t] :
                 t \in {x \in {"direct", "lazy"} : x # s.mode}}),
    R("modes", {[op |-> "mode", t |-> t] :
                 t \in {x \in Modes : x # s.mode /\ (x = "manual" => ~Pending(s) /\ ~Failed)}}),
    R("ro", {[op |-> "ro", k |-> k, c |-> c] : k \in BOOLEAN, c \in BOOLEAN}),
    R("read", {[op |-> "readK"], [op |-> "readC"]}),
    R("iter", {[op |-> "iter", form |-> f] : f \in {"plain", "nested", "twice", "broken"}}),
    R("copy", IF sh = <<>> THEN {[op |-> "copy", sel |-> x, keep |-> k, form |-> "index"] : x \in sels, k \in {"copy", "orig"}}
                                \cup {[op |-> "copy", sel |-> [f |-> "all", s |-> all], keep |-> k, form |-> f] :
                                       k \in {"copy", "orig"}, f \in IF Has("copies") THEN {"copy", "copy.copy", "deepcopy", "pickle"}
                                                                      ELSE {"copy", "copy.copy"}}
              ELSE {}),
    R("bad", {[op |-> "badtype"]} \cup {[op |-> "badmix", sel |-> x] : x \in sels}
             \cup {[op |-> "badaddmix", num |-> k] : k \in {1, 2}}),
    \* values that do not fit, members that do not exist
    R("badval", {[op |-> "badval", w |-> w] : w \in {"K", "C", "Kfull", "Cfull", "r", "v", "anom", "derived", "equi", "prop", "add",
                                                     "addfull", "addmass", "noindex"}}
                \cup {[op |-> "badval", w |-> w, sel |-> x] : w \in {"updK", "updC", "updKs", "updCs", "updfull", "updM", "updMK", "updMC"},
                                                              x \in sels}),
    R("alloc", {[op |-> "alloc", num |-> k] : k \in 0..2})
  }

\* operations that can be tried with the solver out of order
FailClasses == {"setK", "setC", "fullK", "fullC", "rv", "anom", "derived", "equi", "prop", "type", "updK", "updC", "updF", "updS",
                "updME", "calc", "add", "addS", "read", "str"}
OpsOf(s, classes, sels, vals, kels, cels) ==
  PlainOpsOf(s, classes, sels, vals, kels, cels) \cup
    (IF "fail" \in classes
     THEN {[op |-> "fail", in |-> o] :
             o \in {x \in PlainOpsOf(s, Classes \cap FailClasses, sels, vals, kels, cels) : Rejected(s, x) = ""}}
     ELSE {})

Ops(s) == OpsOf(s, Classes, Sels(NumOf(s)), Vals, KEls, CEls)

-----------------------------------------------------------------------------
(* Creation                                                                 *)
KindOps == [ nan |-> 0 ]
Create(n, mode, ty, kind, ms) ==
  LET s0 == [Obj(n, mode, ty) EXCEPT !.mem = [i \in 1..n |-> NewMember(IF ms THEN 1 + (i % 2) ELSE 0)]]
      all == 1..n
      k(v) == LET f(o, i) == WriteK(o, LAMBDA x : Lit("klit", v, P(v, all, i)), TRUE, mode, ty) IN MapSel(s0, all, f)
      c(v) == LET f(o, i) == WriteC(o, LAMBDA x : Lit("clit", v, P(v, all, i)), TRUE, mode, ty) IN MapSel(s0, all, f)
  IN CASE kind = "nan" -> s0
       [] kind = "k1" -> k(1) [] kind = "k2" -> k(2) [] kind = "k3" -> k(3) [] kind = "k4" -> k(4)
       [] kind = "pk" -> LET f(o, i) == WriteK(o, LAMBDA x : SetMany(x, {1, 2, 6}, 2, P(2, all, i), 6), FALSE, mode, ty)
                         IN MapSel(s0, all, f)
       [] kind = "pc" -> LET f(o, i) == WriteC(o, LAMBDA x : SetMany(x, {2, 3, 4}, 2, P(2, all, i), 6), FALSE, mode, ty)
                         IN MapSel(s0, all, f)
       [] kind = "c1" -> c(1) [] kind = "c2" -> c(2)

Init ==
  \E n \in N0, mode \in InitModes, ty \in InitTypes, kind \in InitKinds :
    /\ st = Create(n, mode, ty, kind, Has("masses"))
    /\ sh = <<>>
    /\ h = <<[op |-> "new", n |-> n, mode |-> mode, t |-> ty, kind |-> kind, ms |-> Has("masses")]>>

Obs(s) == [k |-> [i \in All(s) |-> ViewK(s)[i].t], c |-> [i \in All(s) |-> ViewC(s)[i].t],
           m |-> [i \in All(s) |-> s.mem[i].m], type |-> s.type, mode |-> s.mode]

Entry(s, op) ==
  LET rej == Rejected(s, op)
  IN IF rej # "" THEN op @@ [rej |-> rej]
     ELSE IF op.op = "fail" THEN op @@ [obs |-> Obs(Apply(s, op)), alt |-> Obs(s)]
     ELSE IF op.op \in {"readK", "readC", "iter", "copy", "calcA", "str"} THEN op @@ [obs |-> Obs(s)]
     ELSE op

Step(op) ==
  /\ st' = IF op.op = "copy" /\ op.keep = "orig" THEN st ELSE Apply(st, op)
  /\ sh' = IF op.op = "copy" THEN <<Other(st, op)>> ELSE sh
  /\ h' = Append(h, Entry(st, op))

Next == \E op \in Ops(st) : Step(op)

Spec == Init /\ [][Next]_vars

\* random long histories (simulation): only complete ones are printed
One(S) == IF S = {} THEN {} ELSE {RandomElement(S)}
NextRand ==
  \E sels \in {One(Sels(NumOf(st)))}, vals \in {One(Vals)}, kels \in {One(KEls)}, cels \in {One(CEls)} :
    \E c \in One({x \in Classes : OpsOf(st, {x}, sels, vals, kels, cels) # {}}) :
      \E op \in One(OpsOf(st, {c}, sels, vals, kels, cels)) : Step(op)
NextEnd ==
  IF Len(h) <= Depth THEN NextRand
  ELSE /\ Len(h) = Depth + 1
       /\ st' = st /\ sh' = sh /\ h' = Append(h, [op |-> "end"])
SpecEnd == Init /\ [][NextEnd]_vars

-----------------------------------------------------------------------------
(* Properties of the specification                                          *)
SeqAll(s) == \A i \in All(s) : TRUE

\* C03: what deferred conversion shows is what direct conversion shows
RefinesObj(s) ==
  Auto(s.mode) => \A i \in All(s) : /\ ViewK(s)[i] = s.mem[i].tk
                                    /\ ViewC(s)[i] = s.mem[i].tc
Refines == RefinesObj(st) /\ \A j \in 1..Len(sh) : RefinesObj(sh[j])

\* C01: the two representations agree (unless the mass was changed without recalculation)
NoContradiction ==
  Auto(st.mode) => \A i \in All(st) :
    LET o == st.mem[i]
        a == ViewK(st)[i]
        b == ViewC(st)[i]
    IN (a.s = Full /\ b.s = Full /\ ~o.ms) =>
          \/ K2C(a, o.m, st.type) = b
          \/ C2K(b, o.m, st.type) = a

\* C09: nothing is invented: a side without all elements is never the source of the other one
NothingInvented ==
  \A i \in All(st) :
    LET a == ViewK(st)[i] b == ViewC(st)[i]
    IN /\ (a.t[1] = "nan") <=> (a.s = {})
       /\ (b.t[1] \in {"k2c"}) => (b.s = Full)

\* the flags never claim that both sides are outdated once something was converted
FlagsOk == \A i \in All(st) : LET o == st.mem[i] IN (o.fk /\ o.fc) => TRUE

\* C05 as an action property: members outside the selection keep everything they show
Untouched ==
  [][ \A op \in {h'[Len(h')]} :
        (op.op \in {"updK", "updC", "updKfull", "updCfull", "updM", "updMK", "updMC", "updKs", "updCs", "updMKs",
                   "updMCs", "mass", "calcC", "calcK"}) =>
          \A i \in All(st) \ op.sel.s : /\ ViewK(st')[i] = ViewK(st)[i]
                                        /\ ViewC(st')[i] = ViewC(st)[i]
                                        /\ st'.mem[i].m = st.mem[i].m ]_vars
\* C07 as an action property
RejectedUnchanged ==
  [][ ("rej" \in DOMAIN h'[Len(h')]) => (st' = st /\ sh' = sh) ]_vars
\* C08 as an action property: the Cartesian elements survive a change of type (and the orbit does)
TypeKeepsOrbit ==
  [][ (h'[Len(h')].op = "type") => ViewC(st') = ViewC(st) ]_vars
\* a failure of the solver leaves what the operation gives, or what was there
FailLosesNothing ==
  [][ \A op \in {h'[Len(h')]} : (op.op = "fail" /\ Auto(st.mode)) =>
        Obs(st') \in {Obs(st), Obs(ApplyOp(st, op.in))} ]_vars
\* reads, copies and iterations change nothing that is shown
ReadsSilent ==
  [][ (h'[Len(h')].op \in {"readK", "readC", "iter", "calcA", "mode", "str"} /\ Auto(st.mode)) =>
        (ViewK(st') = ViewK(st) /\ ViewC(st') = ViewC(st)) ]_vars

-----------------------------------------------------------------------------
(* Exploration                                                              *)
Bound == Len(h) <= Depth + 1

LastOps == [i \in 1..(IF Len(h) < ViewLast THEN Len(h) ELSE ViewLast) |->
               LET e == h[Len(h) + 1 - i] IN
               IF e.op = "new" THEN <<"new", e.kind>> ELSE IF e.op = "fail" THEN <<"fail", e.in.op>> ELSE <<e.op, IF "rej" \in DOMAIN e THEN e.rej ELSE "">>]
MemView(o) == <<o.k.s, o.c.s, o.fk, o.fc, o.m, o.ms>>
ObjView(s) == <<[i \in All(s) |-> MemView(s.mem[i])], s.mode, s.type, s.rok, s.roc, s.cm>>
View == <<ObjView(st), [j \in 1..Len(sh) |-> ObjView(sh[j])], LastOps>>

\* every transition is printed with its history and with what must be seen after it
Emit == PrintT(ToJson([h |-> h', obs |-> Obs(st'), sh |-> [j \in 1..Len(sh') |-> Obs(sh'[j])]]))
EmitEnd == (h'[Len(h')].op = "end") =>
  PrintT(ToJson([h |-> h, obs |-> Obs(st), sh |-> [j \in 1..Len(sh) |-> Obs(sh[j])]]))
=============================================================================
