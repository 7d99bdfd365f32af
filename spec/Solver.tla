------------------------------- MODULE Solver -------------------------------
(***************************************************************************)
(* The iterative solution of Kepler's equation as a process, and the       *)
(* configurations it is run with.                                          *)
(*                                                                         *)
(* The sequence of iterates is fixed by (E0, M, e, degree); what a run     *)
(* sees of an iterate is whether its residual is below tol.  A run with    *)
(* limit max stops at the first iterate below tol or after max iterations. *)
(* Two runs with different limits are stepped together: the shorter one is *)
(* a prefix of the longer one.                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, FiniteSets

CONSTANTS K,        \* longest run
          Eccs, Means, Starts, Tols, Degrees, Forms, Emitting

VARIABLES below,    \* set of iterates with residual below tol
          m1, m2,   \* limits of the two runs
          n1, n2, d1, d2, \* iterations done, finished
          cfg
vars == <<below, m1, m2, n1, n2, d1, d2, cfg>>

Cfg == [ecc : Eccs, mean : Means, start : Starts, tol : Tols, degree : Degrees, form : Forms]
Open(e) == e \in {"just-above", "hyp", "far"}
Sensible(c) ==
  /\ c.mean = "turns" => ~Open(c.ecc)
  /\ c.mean = "large" => Open(c.ecc)

Init ==
  /\ below \in SUBSET (0..K)
  /\ m1 \in 0..K /\ m2 \in 0..K /\ m1 <= m2
  /\ n1 = 0 /\ n2 = 0 /\ d1 = FALSE /\ d2 = FALSE
  /\ cfg = <<>>
Step(n, d, m, n_, d_) ==
  IF d THEN n_ = n /\ d_ = d
  ELSE IF n \in below \/ n >= m THEN n_ = n /\ d_ = TRUE
  ELSE n_ = n + 1 /\ d_ = FALSE
Next == /\ ~(d1 /\ d2)
        /\ Step(n1, d1, m1, n1', d1') /\ Step(n2, d2, m2, n2', d2')
        /\ UNCHANGED <<below, m1, m2, cfg>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* result of a run as a function
Stop(b, m) == CHOOSE n \in 0..m : /\ n \in b \/ n = m
                                  /\ \A j \in 0..(n - 1) : j \notin b
Limited == n1 <= m1 /\ n2 <= m2
RootOrLimit == (d1 => (n1 \in below \/ n1 = m1)) /\ (d2 => (n2 \in below \/ n2 = m2))
StartKept == (0 \in below) => (n1 = 0 /\ n2 = 0)
Prefix == (d1 /\ d2) => /\ n1 <= n2
                        /\ n1 < m1 => n1 = n2
                        /\ n1 = (IF n2 < m1 THEN n2 ELSE m1)
Function == (d1 => n1 = Stop(below, m1)) /\ (d2 => n2 = Stop(below, m2))
Terminates == <>(d1 /\ d2)

\* configurations to run the code with
InitCfg == /\ cfg \in {c \in Cfg : Sensible(c)}
           /\ below = {} /\ m1 = 0 /\ m2 = 0 /\ n1 = 0 /\ n2 = 0 /\ d1 = FALSE /\ d2 = FALSE
NextCfg == /\ ~d1 /\ d1' = TRUE /\ UNCHANGED <<below, m1, m2, n1, n2, d2, cfg>>
SpecCfg == InitCfg /\ [][NextCfg]_vars
EmitCfg == PrintT(ToJson(cfg))
=============================================================================
