----------------------------- MODULE ClaimsTrace ------------------------------
(* Trace validation of the validation of claims: one line is one scenario     *)
(* recorded from the real code.  now: the clock as the scenario moved it; it  *)
(* never runs backwards, and a token that was too old stays so.               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.VP_TRACE)
M == INSTANCE ClaimsMonitor

VARIABLES s, l, dead
vars == <<s, l, dead>>

Init == s \in DOMAIN Trace /\ l = 1 /\ dead = {}

Next ==
  /\ l <= Len(Trace[s].ev)
  /\ LET e == Trace[s].ev[l]
         v == M!Judge(e) \cup (IF e.tok # "" /\ e.tok \in dead /\ e.ok THEN {<<"C19", "accepted again after it expired">>} ELSE {})
     IN
     /\ dead' = IF e.tok # "" /\ ~e.ok /\ e.err = "ExpiredToken" THEN dead \cup {e.tok} ELSE dead
     /\ v # {} => PrintT("VIOL " \o ToJson([s |-> Trace[s].id, l |-> l, v |-> v]))
  /\ l' = l + 1
  /\ s' = s

Spec == Init /\ [][Next]_vars
=============================================================================
