------------------------------- MODULE DispatchTrace -------------------------------
(* Trace validation of dispatch: one line of the file is one scenario recorded    *)
(* from the real code.                                                         *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.VP_TRACE)

VARIABLES s, l, st
vars == <<s, l, st>>
M == INSTANCE DispatchMonitor WITH st <- st

Init == s \in DOMAIN Trace /\ l = 1 /\ st = M!World
Next ==
  /\ l <= Len(Trace[s].ev)
  /\ LET r == M!Step(Trace[s].ev[l]) IN
     /\ st' = r.w
     /\ r.v # {} => PrintT("VIOL " \o ToJson([s |-> Trace[s].id, l |-> l, v |-> r.v]))
  /\ l' = l + 1
  /\ s' = s
Spec == Init /\ [][Next]_vars
=============================================================================
