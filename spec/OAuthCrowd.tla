------------------------------ MODULE OAuthCrowd ------------------------------
(* Crowds of requests on one provider: many codes (or refresh tokens, or       *)
(* authorization requests), after a history of earlier requests, each moved    *)
(* some way in a first wave and presented again in a second one before any of  *)
(* the first ends.  Each case is a shape; harness/scheds.py makes it concrete. *)
EXTENDS CaseSpace, TLC, Json

CONSTANTS MaxDev, Kinds, Sizes

Dims == <<D("kind", <<"redeem", "mixed", "authorize", "refresh">>),
          D("many", <<"2", "6", "12", "20", "40", "70", "130">>),
          D("at", <<"3", "1", "2", "4", "5", "6">>),
          D("dup", <<"all", "first", "last", "thrice", "none">>),
          D("second", <<"start", "step", "run">>),
          D("finish", <<"fifo", "lifo", "random", "robin">>),
          D("before", <<"none", "some", "many">>),
          D("fail", <<"none", "some", "most">>)>>
All == {Dims[i].n : i \in DOMAIN Dims}
Init == SpaceInit(Dims)
Next == SpaceNext(Dims, MaxDev, All, {"kind", "many"})
Spec == Init /\ [][Next]_cvars
Report == (case["kind"] \in Kinds /\ case["many"] \in Sizes) => PrintT("CROWD " \o ToJson(case))
=============================================================================
