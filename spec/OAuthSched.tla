------------------------------ MODULE OAuthSched ------------------------------
(* Schedules of concurrent requests, for the harness to replay.  A schedule   *)
(* is a sequence of runs <<r, n>>: request r is started if it has not been,   *)
(* and n of its adapter calls take effect; consecutive runs are of different  *)
(* requests, so k runs are k - 1 context switches.  After the runs the        *)
(* requests are finished.  The specification does not fix how many calls a    *)
(* request makes: runs that exceed it are cut short, and up to MaxLen calls   *)
(* per run every interleaving with fewer than MaxRuns switches is there.      *)
(* A schedule may carry one fault: the i-th adapter call of request r raises, *)
(* is refused with an OAuth error, or is cancelled, before or after its       *)
(* effect.                                                                    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Combos,     \* names of combinations of requests
          Size,       \* number of requests of each
          MaxRuns, MaxLen,
          FaultKinds, \* {} or kinds of faults
          MaxFaultAt  \* largest index of a failing call

RECURSIVE RunSeqs(_)
RunSeqs(k) ==
  IF k = 0 THEN {<<>>}
  ELSE LET R == RunSeqs(k - 1) IN
       R \cup UNION {{Append(q, <<r, n>>) : r \in {x \in 1..Size : q = <<>> \/ q[Len(q)][1] # x}, n \in 0..MaxLen} :
                     q \in {x \in R : Len(x) = k - 1}}

Faults == IF FaultKinds = {} THEN {<<>>}
          ELSE {<<r, i, k>> : r \in 1..Size, i \in 1..MaxFaultAt, k \in FaultKinds}

(* Only maximal schedules: shorter ones are prefixes, hence implied.          *)
Complete(q) == Len(q) = MaxRuns
(* Requests are interchangeable names only if the combination is symmetric,   *)
(* which is not assumed.                                                      *)

VARIABLES combo, runs, fault
Init == /\ combo \in Combos
        /\ runs \in {q \in RunSeqs(MaxRuns) : Complete(q)}
        /\ fault \in Faults
Next == UNCHANGED <<combo, runs, fault>>
Spec == Init /\ [][Next]_<<combo, runs, fault>>
Report == PrintT("SCHED " \o ToJson([c |-> combo, r |-> runs, f |-> fault]))
=============================================================================
