------------------------------ MODULE OAuthTrace ------------------------------
(* Trace validation of the OAuth endpoints: one line of the file is one       *)
(* scenario recorded from the real code: the provider, the initial world,     *)
(* lexical facts and the events.  Every clause an event breaks is printed; a  *)
(* trace without a broken clause is a behaviour of the specification.  The    *)
(* number of states is the number of events plus the number of scenarios.     *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.VP_TRACE)

VARIABLES s, l, st
vars == <<s, l, st>>

M == INSTANCE OAuthMonitor WITH Cfg <- Trace[s].cfg, Lex <- Trace[s].lex, st <- st

Init ==
  /\ s \in DOMAIN Trace
  /\ l = 1
  /\ st = M!World(Trace[s].clients, Trace[s].users, Trace[s].now, Trace[s].codes, Trace[s].rts)

Next ==
  /\ l <= Len(Trace[s].ev)
  /\ LET r == M!Step(Trace[s].ev[l]) IN
     /\ st' = r.w
     /\ r.v # {} => PrintT("VIOL " \o ToJson([s |-> Trace[s].id, l |-> l, v |-> r.v]))
  /\ l' = l + 1
  /\ s' = s

Spec == Init /\ [][Next]_vars
=============================================================================
