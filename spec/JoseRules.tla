------------------------------- MODULE JoseRules ------------------------------
(* When a JWS may be produced and when it has to be accepted, stated on       *)
(* symbolic tokens.  A token is three segments h, p (their text) and s (the   *)
(* value of the signature).  Cryptography is symbolic: the set of signatures  *)
(* that exist is the set of those made by a holder of the key.                *)
EXTENDS Naturals, Sequences, FiniteSets

Range(q) == {q[i] : i \in DOMAIN q}

HS == {"HS256", "HS384", "HS512"}
RS == {"RS256", "RS384", "RS512", "PS256", "PS384", "PS512"}
ES == {"ES256", "ES384", "ES512"}
Algs == HS \cup RS \cup ES \cup {"none"}

CurveOf == [a \in ES |-> CASE a = "ES256" -> "P-256" [] a = "ES384" -> "P-384" [] OTHER -> "P-521"]

(* A key: kty, crv, priv (has private material), mat (its identity),          *)
(* big (no RSA key below 2048 bits), and the parameters alg, kid, use, ops    *)
(* ("" and <<>>: not there).                                                  *)
TypeFits(k, a) ==
  CASE a = "none" -> TRUE
    [] a \in HS -> k.kty = "oct"
    [] a \in RS -> k.kty = "RSA"
    [] OTHER -> k.kty = "EC" /\ k.crv = CurveOf[a]

(* What forbids the use of key k for a header with algorithm a and key id kid *)
(* (C18).                                                                     *)
PolicyDefects(k, a, kid, signing) ==
  IF k.kty = "nokey" THEN {"nokey"} ELSE
  (IF ~TypeFits(k, a) THEN {"keytype"} ELSE {}) \cup
  (IF k.alg # "" /\ k.alg # a THEN {"keyalg"} ELSE {}) \cup
  (IF kid # "" /\ k.kid # kid THEN {"kid"} ELSE {}) \cup
  (IF k.use \notin {"", "sig"} THEN {"use"} ELSE {}) \cup
  (IF Range(k.ops) \ {"sign", "verify"} # {} THEN {"ops"} ELSE {}) \cup
  (IF signing /\ a # "none" /\ TypeFits(k, a) /\ ~k.priv THEN {"private"} ELSE {})
Policy == {"nokey", "keytype", "keyalg", "kid", "use", "ops", "private"}

(* A header as read by an independent parser: form is "object", "empty",      *)
(* "other" (JSON, no object), "text" (no JSON) or "base64"; alg is the name,  *)
(* "absent", "unsupported" or "type"; kid, typ, cty: "absent", "str" or "bad";*)
(* crit: "absent", "ok", "missing", "bad" or "gray".  (C23)                   *)
HeaderDefects(hd) ==
  IF hd.form # "object" THEN {"header"} ELSE
  (IF hd.alg \notin Algs THEN {"alg"} ELSE {}) \cup
  (IF hd.kid = "bad" THEN {"badkid"} ELSE {}) \cup
  (IF hd.typ = "bad" THEN {"badtyp"} ELSE {}) \cup
  (IF hd.cty = "bad" THEN {"badcty"} ELSE {}) \cup
  (IF hd.crit \in {"missing", "bad"} THEN {"badcrit"} ELSE {})
HeaderCodes == {"header", "alg", "badkid", "badtyp", "badcty", "badcrit"}

(* Signatures: a set of [mat, alg, h, p, s, by].                              *)
Genuine(signed, k, a, t) ==
  {x \in signed : x.mat = k.mat /\ x.alg = a /\ x.h = t.h /\ x.p = t.p /\ x.s = t.s}

SignDefects(k, hd, jwt, pay) ==
  HeaderDefects(hd) \cup
  (IF hd.form = "object" /\ hd.alg \in Algs THEN PolicyDefects(k, hd.alg, hd.kidv, TRUE) ELSE {})

(* What forbids accepting token t with key k (C16, C18, C23).                 *)
VerifyDefects(signed, t, k, pin, validate, jwt) ==
  IF t.n # 3 THEN {"segments"} ELSE
  LET H == HeaderDefects(t.hd) IN
  H \cup
  (IF ~t.pb64 THEN {"payload"} ELSE {}) \cup
  (IF jwt /\ t.pb64 /\ t.pay # "object" THEN {"claims"} ELSE {}) \cup
  (IF H # {} THEN {}
   ELSE (IF pin # "" /\ pin # t.hd.alg THEN {"pin"} ELSE {}) \cup
        (IF ~validate THEN {}
         ELSE PolicyDefects(k, t.hd.alg, t.hd.kidv, FALSE) \cup
              (IF t.hd.alg # "none" /\ k.kty # "nokey" /\ Genuine(signed, k, t.hd.alg, t) = {} THEN {"signature"} ELSE {})))

(* What leaves it open whether a token without defects is accepted.           *)
Open(t, k, validate) ==
  Range(t.gray) \cup
  (IF t.hd.crit = "gray" THEN {"crit"} ELSE {}) \cup
  (IF validate /\ t.hd.alg = "none" THEN {"none"} ELSE {}) \cup
  (IF validate /\ k.kty # "nokey" /\ ~k.big THEN {"small"} ELSE {})
=============================================================================
