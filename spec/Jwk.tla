---------------------------------- MODULE Jwk ---------------------------------
(* The design of key conversions: a chain of operations on one key, and the   *)
(* key sets made of what the chain produced.  Do(..) is what the library does *)
(* at each step; JwkMonitor judges it.  The chain is part of the state, so    *)
(* that exploring the model enumerates every chain for replay.                *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Kty, StartPriv, MaxLen, Bug, Lean

VARIABLES st, cur, path, bad
vars == <<st, cur, path, bad>>
M == INSTANCE JwkMonitor

Other == IF Kty = "RSA" THEN "EC" ELSE "RSA"
Meta0 == {<<"kid", "k1">>, <<"use", "sig">>}
Seq2(S) == IF S = {} THEN <<>> ELSE IF S = Meta0 THEN <<<<"kid", "k1">>, <<"use", "sig">>>> ELSE <<<<"kid", "k2">>>>
Obs(x) == [ok |-> TRUE, err |-> "", kty |-> x.kty, pub |-> x.pub, priv |-> IF x.priv THEN "ok" ELSE "none", meta |-> Seq2(x.meta), clean |-> TRUE]
NoObs == [ok |-> FALSE, err |-> "x", kty |-> "", pub |-> "", priv |-> "none", meta |-> <<>>, clean |-> TRUE]

Name == "f" \o ToString(Len(path))
CurName == cur.n
X == cur.x

(* What the library makes of form x.                                          *)
DoDump(x, pub) ==
  IF ~pub /\ ~x.priv /\ Bug # "publicdump" THEN M!Fail
  ELSE M!Form("dict", x.kty, x.pub, x.priv /\ (~pub \/ x.kty = "oct" \/ Bug = "leak"), IF Bug = "dropmeta" THEN {} ELSE x.meta)
DoExport(x, pub) == IF ~pub /\ ~x.priv THEN M!Fail ELSE M!Form("text", x.kty, IF Bug = "export" THEN "other" ELSE x.pub, x.priv /\ (~pub \/ x.kty = "oct"), {})
DoLoad(x, kty) == IF kty # x.kty THEN M!Fail ELSE M!Form("obj", x.kty, x.pub, x.priv, x.meta)
DoParse(x, kty, pub, meta, pw) ==
  IF (kty # x.kty /\ Bug # "anytype") \/ ~pw \/ (~pub /\ ~x.priv) THEN M!Fail
  ELSE M!Form("obj", x.kty, x.pub, x.kty = "oct" \/ (x.priv /\ (~pub \/ Bug = "parsepriv")), meta)

ProbeEv(n, x) ==
  LET side(y) == IF y = M!Fail THEN NoObs ELSE Obs(y) IN
  [op |-> "probe", src |-> n, pd |-> side(DoDump(x, TRUE)), sd |-> side(DoDump(x, FALSE)), pe |-> side(DoExport(x, TRUE)),
   se |-> side(DoExport(x, FALSE)), signs |-> x.priv, fit |-> TRUE, good |-> TRUE]

(* One step: the event, and the probe of a resulting key object.              *)
Apply(ev, y, step) ==
  LET e == IF y = M!Fail THEN ev @@ [ok |-> FALSE, err |-> "x", obs |-> NoObs]
           ELSE ev @@ [ok |-> TRUE, err |-> "", obs |-> Obs(y)]
      r == M!Step(e)
  IN /\ path' = Append(path, step)
     /\ st' = r.w
     /\ cur' = IF y = M!Fail THEN cur ELSE [n |-> Name, x |-> y]
     /\ bad' = bad \cup r.v

Init ==
  /\ path = <<>>
  /\ bad = {}
  /\ LET x == M!Form("dict", Kty, "m", StartPriv, Meta0) IN
     /\ cur = [n |-> "s", x |-> x]
     /\ st = [forms |-> ("s" :> x), sets |-> [z \in {} |-> <<>>], made |-> {}]

Bools == {TRUE, FALSE}
Next ==
  /\ Len(path) < MaxLen
  /\ bad = {}
  /\ \/ X.f = "obj" /\ \E pub \in Bools : Apply([op |-> "dump", src |-> CurName, out |-> Name, public |-> pub], DoDump(X, pub), [op |-> "dump", public |-> pub])
     \/ X.f = "obj" /\ \E pub \in Bools : Apply([op |-> "export", src |-> CurName, out |-> Name, public |-> pub], DoExport(X, pub), [op |-> "export", public |-> pub])
     \/ X.f = "dict" /\ \E kty \in {Kty, Other} :
          (~Lean \/ kty = Kty) /\ Apply([op |-> "load", src |-> CurName, out |-> Name, kty |-> kty], DoLoad(X, kty), [op |-> "load", same |-> kty = Kty])
     \/ X.f = "text" /\ \E kty \in {Kty, Other}, pub \in Bools, m \in {{}, {<<"kid", "k2">>}}, pw \in Bools :
          /\ (kty = Kty \/ (pub /\ m = {} /\ pw))
          /\ (pw \/ (X.priv /\ X.kty # "oct" /\ m = {}))
          /\ (~Lean \/ (kty = Kty /\ pw /\ (m = {} <=> pub)))
          /\ Apply([op |-> "parse", src |-> CurName, out |-> Name, kty |-> kty, public |-> pub, meta |-> Seq2(m), goodpw |-> pw],
                   DoParse(X, kty, pub, m, pw), [op |-> "parse", same |-> kty = Kty, public |-> pub, meta |-> m # {}, pw |-> pw])
Spec == Init /\ [][Next]_vars

Sound == bad = {} /\ (X.f = "obj" => M!Step(ProbeEv(CurName, X)).v = {})
(* Whatever the chain, the public material is that of the first form, and     *)
(* private material never reappears once a public form was made.              *)
SameKey == X.pub = "m"
NeverBack == [][Kty # "oct" /\ ~cur.x.priv => ~cur'.x.priv]_vars
Report == Len(path) < MaxLen \/ PrintT("PLAN " \o ToJson([kty |-> Kty, priv |-> StartPriv, h |-> path]))
=============================================================================
