----------------------------- MODULE ClaimsMonitor ----------------------------
(* Judges one validation of claims.                                           *)
EXTENDS ClaimsRules, TLC

(* e: api ("claims", "idtoken", "encode", "decode", "decodeoff"), claims,     *)
(* opts, nonce, gray, ok, err, jose, same (what is returned equals what was   *)
(* given), without (when rejected: the verdict on the same claims without     *)
(* their time claims).                                                        *)
Defects(e) ==
  LET id == e.api = "idtoken" IN
  TimeDefects(e.claims, id) \cup TypeDefects(e.claims, id, e.nonce) \cup
  (IF e.api \in {"encode", "decodeoff"} THEN {} ELSE OptionDefects(e.claims, e.opts))

Judge(e) ==
  LET D == Defects(e)
      T == D \cap TimeCodes
      O == D \ TimeCodes
      open == Open(e.claims, e.opts, e.gray)
      maybe == e.api = "decodeoff" /\ OptionDefects(e.claims, e.opts) # {}
  IN (IF e.ok
      THEN {<<"C19", "accepted despite " \o d>> : d \in T} \cup
           (IF Range(e.gray) = {} THEN {<<"C20", "accepted despite " \o d>> : d \in O} ELSE {}) \cup
           (IF D = {} /\ ~e.same THEN {<<"C20", "returned claims">>} ELSE {})
      ELSE IF D = {} /\ open = {} /\ ~maybe
      THEN {<<"C20", "rejected: " \o e.err>>} \cup
           (IF e.without \/ e.err \in {"ExpiredToken", "NotYetValidToken"} THEN {<<"C19", "rejected: " \o e.err>>} ELSE {})
      ELSE {}) \cup
     (IF ~e.ok /\ ~e.jose /\ e.api \in {"decode", "decodeoff"} THEN {<<"C23", "raised " \o e.err>>} ELSE {}) \cup
     (IF e.chk /\ Range(e.exp) # D THEN {<<"MODEL", ToString(<<Range(e.exp), D>>)>>} ELSE {})
=============================================================================
