------------------------------ MODULE JoseMonitor -----------------------------
(* Judges what the JOSE code does: Step(e) is the next state and the broken   *)
(* clauses.  State: the signatures made so far.                               *)
EXTENDS JoseRules, TLC
VARIABLES Keys,          \* name -> key (does not change)
          st

World == [signed |-> {}]

PropsOf(d) ==
  CASE d = "pin" -> {"C16"}
    [] d = "signature" -> {"C16"}
    [] d = "keyalg" -> {"C16", "C18"}
    [] d \in Policy -> {"C18"}
    [] d \in HeaderCodes \cup {"segments", "payload", "claims"} -> {"C23"}
    [] OTHER -> {"C16"}

Despite(what, D) == UNION {{<<p, what \o " despite " \o d>> : p \in PropsOf(d)} : d \in D}

Exp(e, D) == IF e.chk /\ Range(e.exp) # D THEN {<<"MODEL", ToString(<<e.e, Range(e.exp), D>>)>>} ELSE {}

(* Signing: by psion, or by the independent implementation (by = "ext").      *)
Sign(e) ==
  LET k == Keys[e.k]
      a == e.hd.alg
      D == SignDefects(k, e.hd, e.jwt, e.pay)
      fact == [mat |-> k.mat, alg |-> a, h |-> e.h, p |-> e.p, s |-> e.s, by |-> e.by]
      open == e.gray # <<>> \/ e.hd.crit = "gray" \/ ~k.big
      v == IF e.by = "ext" THEN {}
           ELSE IF e.ok
           THEN Despite("signed", D) \cup
                (IF D = {} /\ ~e.three THEN {<<"C17", "not three unpadded base64url segments">>} ELSE {}) \cup
                (IF D = {} /\ ~e.hsame THEN {<<"C17", "encoded header">>} ELSE {}) \cup
                (IF D = {} /\ ~e.psame THEN {<<"C17", "encoded payload">>} ELSE {}) \cup
                (IF D = {} /\ a # "none" /\ ~e.ext THEN {<<"C24", "rejected by others">>} ELSE {})
           ELSE IF D = {}
           THEN IF open THEN {}
                ELSE {<<"C17", "not signed: " \o e.err>>} \cup
                     (IF e.err = "InvalidKey" THEN {<<"C18", "key refused for signing">>} ELSE {})
           ELSE IF D \subseteq Policy /\ e.err # "InvalidKey"
           THEN {<<"C18", "signing refused with " \o e.err>>}
           ELSE {}
  IN [w |-> IF e.ok THEN [st EXCEPT !.signed = @ \cup {fact}] ELSE st,
      v |-> v \cup Exp(e, D)]

Verify(e) ==
  LET k == Keys[e.k]
      D == VerifyDefects(st.signed, e, k, e.pin, e.validate, e.jwt)
      G == IF D = {} /\ e.validate /\ e.hd.alg # "none" THEN Genuine(st.signed, k, e.hd.alg, e) ELSE {}
      by == {x.by : x \in G}
      origin == IF "psion" \in by \/ by = {} THEN "C17" ELSE "C24"
      v == IF ~e.ok /\ ~e.jose
           THEN {<<"C23", "raised " \o e.err>>} \cup (IF D = {} /\ Open(e, k, e.validate) = {} THEN {<<origin, "rejected: " \o e.err>>} ELSE {})
           ELSE IF e.ok
           THEN Despite("accepted", D) \cup
                (IF D = {} /\ Range(e.gray) = {} /\ ~e.hsame THEN {<<origin, "header returned">>, <<"C16", "header returned">>} ELSE {}) \cup
                (IF D = {} /\ Range(e.gray) = {} /\ ~e.psame THEN {<<origin, "payload returned">>, <<"C16", "payload returned">>} ELSE {})
           ELSE IF D = {}
           THEN IF Open(e, k, e.validate) # {} THEN {}
                ELSE {<<origin, "rejected: " \o e.err>>} \cup
                     (IF e.err = "InvalidKey" THEN {<<"C18", "key refused for verifying">>} ELSE {}) \cup
                     (IF e.err \in {"InvalidJWSHeader", "UnsupportedAlgorithm"} THEN {<<"C23", "header refused">>} ELSE {})
           ELSE IF D \subseteq Policy /\ Range(e.gray) = {} /\ e.err # "InvalidKey"
           THEN {<<"C18", "verifying refused with " \o e.err>>}
           ELSE {}
  IN [w |-> st, v |-> v \cup Exp(e, D)]

(* EC keys are dumped with full-length coordinates (C24).                     *)
DumpEv(e) == [w |-> st, v |-> IF e.full THEN {} ELSE {<<"C24", "length of coordinates">>}]

Step(e) ==
  CASE e.e = "sign" -> Sign(e)
    [] e.e = "verify" -> Verify(e)
    [] e.e = "dump" -> DumpEv(e)
=============================================================================
