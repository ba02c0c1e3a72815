------------------------------ MODULE ClaimsRules -----------------------------
(* When claims are acceptable.  A JSON value is a record: t is its type       *)
(* ("absent", "null", "str", "int", "float", "bool", "list", "obj"), v its    *)
(* canonical text (equal texts: equal values), items the texts of the         *)
(* elements of a list, strs whether these are all strings, and d, for an      *)
(* integer, its distance from the current UNIX time in whole seconds          *)
(* (clipped, which changes no sign).                                          *)
EXTENDS Integers, Sequences, FiniteSets

Range(q) == {q[i] : i \in DOMAIN q}
Absent == [t |-> "absent", v |-> "", items |-> <<>>, strs |-> TRUE, d |-> 0]
Get(cl, n) == IF n \in DOMAIN cl THEN cl[n] ELSE Absent
There(x) == x.t \notin {"absent", "null"}

(* C19: the current time is before exp, not before nbf, not before iat.       *)
TimeDefects(cl, idtoken) ==
  LET exp == Get(cl, "exp")
      nbf == Get(cl, "nbf")
      iat == Get(cl, "iat")
  IN (IF There(exp) /\ (exp.t # "int" \/ exp.d <= 0) THEN {"exp"} ELSE {}) \cup
     (IF There(nbf) /\ (nbf.t # "int" \/ nbf.d > 0) THEN {"nbf"} ELSE {}) \cup
     (IF There(iat) /\ (iat.t # "int" \/ iat.d > 0) THEN {"iat"} ELSE {}) \cup
     (IF idtoken /\ There(Get(cl, "auth_time")) /\ Get(cl, "auth_time").t # "int" THEN {"auth_time"} ELSE {})
TimeCodes == {"exp", "nbf", "iat", "auth_time"}

(* C20: types of registered claims, the nonce of an ID token.                 *)
TypeDefects(cl, idtoken, nonce) ==
  {n \in {"iss", "sub", "jti"} : There(Get(cl, n)) /\ Get(cl, n).t # "str"} \cup
  (LET aud == Get(cl, "aud") IN
   IF There(aud) /\ aud.t # "str" /\ ~(aud.t = "list" /\ aud.strs) THEN {"aud"} ELSE {}) \cup
  (IF idtoken /\ There(nonce) /\ Get(cl, "nonce").v # nonce.v THEN {"nonce"} ELSE {})

(* An option: slot s, claim c, essential ess, expected value v if hasv,       *)
(* expected values vs if hasvs.                                               *)
Violated(cl, o) ==
  LET x == Get(cl, o.c) IN
  \/ o.ess /\ x.t = "absent"
  \/ o.hasv /\ x.v # o.v
  \/ o.hasvs /\ x.v \notin Range(o.vs) /\ ~(x.t = "list" /\ Range(x.items) \cap Range(o.vs) # {})
OptionDefects(cl, opts) == {opts[i].s : i \in {i \in DOMAIN opts : Violated(cl, opts[i])}}

(* What leaves the answer open: null members (dropped by the library), an     *)
(* option that does not say what it expects, values whose equality depends on *)
(* the language (1 and true).                                                 *)
Open(cl, opts, gray) ==
  (IF \E n \in DOMAIN cl : cl[n].t = "null" THEN {"null"} ELSE {}) \cup Range(gray)
=============================================================================
