--------------------------------- MODULE Jose ---------------------------------
(* The design of signing and verifying tokens, with an attacker.  Honest      *)
(* holders sign; the attacker knows every token made so far and all public    *)
(* keys, recombines segments, makes up headers, and computes HMACs with       *)
(* whatever he knows (a public key among it).  Design(..) is the verifier as  *)
(* the library is built: header, named algorithm, key parameters, key type,   *)
(* signature.  JoseMonitor judges every answer.                               *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxSign, MaxOps, Bug, Hist

Key(kty, crv, priv, mat, alg, kid, use, ops) ==
  [kty |-> kty, crv |-> crv, priv |-> priv, mat |-> mat, alg |-> alg, kid |-> kid, use |-> use, ops |-> ops, big |-> TRUE]

Keys == "O"  :> Key("oct", "", TRUE, "o1", "", "", "", <<>>) @@
        "Ob" :> Key("oct", "", TRUE, "o1", "HS256", "k1", "sig", <<"sign", "verify">>) @@
        "O2" :> Key("oct", "", TRUE, "o2", "", "k2", "", <<>>) @@
        "R"  :> Key("RSA", "", TRUE, "r1", "", "", "", <<>>) @@
        "Rp" :> Key("RSA", "", FALSE, "r1", "", "", "", <<>>) @@
        "Rb" :> Key("RSA", "", FALSE, "r1", "RS256", "k1", "sig", <<"verify">>) @@
        "Re" :> Key("RSA", "", TRUE, "r1", "", "k1", "enc", <<>>) @@
        "Ro" :> Key("RSA", "", TRUE, "r1", "", "k1", "", <<"sign", "encrypt">>) @@
        "R2" :> Key("RSA", "", TRUE, "r2", "", "k1", "", <<>>) @@
        "E"  :> Key("EC", "P-256", TRUE, "e1", "", "", "", <<>>) @@
        "Ep" :> Key("EC", "P-256", FALSE, "e1", "", "", "", <<>>) @@
        "E3" :> Key("EC", "P-384", TRUE, "e3", "", "", "", <<>>)
Secret == {"o1", "o2"}          \* material the attacker does not know
Public == {"r1", "r2", "e1", "e3"}

AlgsHere == {"HS256", "RS256", "PS256", "ES256", "none"}
KidsHere == {"", "k1", "k2"}
Payloads == {"p1", "p2"}

VARIABLES st, hist, ops, nsign
vars == <<st, hist, ops, nsign>>
R == INSTANCE JoseRules
M == INSTANCE JoseMonitor

HName(a, kid) == a \o "/" \o kid
Hd(a, kid) == [form |-> "object", alg |-> a, kid |-> IF kid = "" THEN "absent" ELSE "str", kidv |-> kid,
               typ |-> "absent", cty |-> "absent", crit |-> "absent"]
SigTerm(a, mat, h, p) == IF a = "none" THEN "" ELSE a \o ":" \o mat \o ":" \o h \o ":" \o p

(* The library's own checks, in its order; "" or the name of the error.       *)
PolicyError(k, a, kid) ==
  CASE k.alg # "" /\ k.alg # a /\ Bug # "nokeyalg" -> "InvalidKey"
    [] kid # "" /\ k.kid # kid /\ Bug # "nokid" -> "InvalidKey"
    [] k.use \notin {"", "sig"} /\ Bug # "nouse" -> "InvalidKey"
    [] (\E o \in R!Range(k.ops) : o \notin {"sign", "verify"}) /\ Bug # "noops" -> "InvalidKey"
    [] ~R!TypeFits(k, a) /\ Bug # "notype" -> "InvalidKey"
    [] OTHER -> ""
SignError(k, a, kid) ==
  CASE PolicyError(k, a, kid) # "" -> PolicyError(k, a, kid)
    [] a # "none" /\ ~k.priv /\ Bug # "noprivate" -> "InvalidKey"
    [] OTHER -> ""
CryptoOk(a, k, h, p, s) ==
  CASE Bug = "nosig" -> TRUE
    [] Bug = "payloadonly" -> \E x \in st.signed : x.p = p /\ x.s = s
    [] OTHER -> s = SigTerm(a, k.mat, h, p)
VerifyError(a, kid, h, p, s, k, pin, validate) ==
  CASE pin # "" /\ pin # a /\ Bug # "nopin" /\ ~(Bug = "noneok" /\ a = "none") -> "InvalidJWSSerialization"
    [] ~validate -> ""
    [] Bug = "noneok" /\ a = "none" -> ""
    [] PolicyError(k, a, kid) # "" -> PolicyError(k, a, kid)
    [] a = "none" -> ""
    [] ~CryptoOk(a, k, h, p, s) -> "InvalidSignature"
    [] OTHER -> ""

SignEv(kn, a, kid, p, by) ==
  LET k == Keys[kn]
      err == SignError(k, a, kid)
  IN [e |-> "sign", k |-> kn, jwt |-> FALSE, hd |-> Hd(a, kid), h |-> HName(a, kid), p |-> p,
      s |-> SigTerm(a, k.mat, HName(a, kid), p), by |-> by, ok |-> err = "", err |-> err, jose |-> TRUE, three |-> TRUE,
      hsame |-> TRUE, psame |-> TRUE, ext |-> TRUE, gray |-> <<>>, pay |-> "object", exp |-> <<>>, chk |-> FALSE]

VerEv(a, kid, p, s, kn, pin, validate) ==
  LET err == VerifyError(a, kid, HName(a, kid), p, s, Keys[kn], pin, validate)
  IN [e |-> "verify", k |-> kn, jwt |-> FALSE, n |-> 3, hd |-> Hd(a, kid), h |-> HName(a, kid), p |-> p, s |-> s,
      pb64 |-> TRUE, pay |-> "object", gray |-> <<>>, pin |-> pin, validate |-> validate, ok |-> err = "", err |-> err,
      jose |-> TRUE, hsame |-> TRUE, psame |-> TRUE, exp |-> <<>>, chk |-> FALSE]

(* Signatures the attacker has or can make.                                   *)
Known == {x.s : x \in st.signed} \cup {"", "junk"}
Forged(h, p) == {SigTerm("HS256", m, h, p) : m \in Public}

Init == st = M!World /\ hist = <<>> /\ ops = 0 /\ nsign = 0

Note(r) == hist' = IF Hist THEN Append(hist, r) ELSE hist

Sign(kn, a, kid, p, by) ==
  LET e == SignEv(kn, a, kid, p, by)
      r == M!Step(e)
  IN /\ (by = "ext" => e.ok)
     /\ st' = r.w
     /\ nsign' = nsign + 1
     /\ ops' = ops + 1
     /\ Note([op |-> "sign", k |-> kn, a |-> a, kid |-> kid, p |-> p, by |-> by])

Next ==
  /\ nsign < MaxSign
  /\ \E kn \in DOMAIN Keys, a \in AlgsHere, kid \in KidsHere, p \in Payloads, by \in {"psion", "ext"} :
       (by = "ext" => kid = "") /\ Sign(kn, a, kid, p, by)

(* Judged for every token the attacker can present, in every reachable state. *)
SignSound == \A kn \in DOMAIN Keys, a \in AlgsHere, kid \in KidsHere : M!Sign(SignEv(kn, a, kid, "p1", "psion")).v = {}
VerifySound ==
  \A a \in AlgsHere, kid \in KidsHere, p \in Payloads, kn \in DOMAIN Keys,
     m \in {<<"", TRUE>>, <<"RS256", TRUE>>, <<"HS256", TRUE>>, <<"RS256", FALSE>>} :
    \A s \in Known \cup Forged(HName(a, kid), p) : M!Verify(VerEv(a, kid, p, s, kn, m[1], m[2])).v = {}

Spec == Init /\ [][Next]_vars

(* Histories for replay: one random operation per step.                       *)
Pick(S) == RandomElement(S)
Verify(a, kid, p, s, kn, pin, validate) ==
  /\ st' = st
  /\ nsign' = nsign
  /\ ops' = ops + 1
  /\ Note([op |-> "verify", a |-> a, kid |-> kid, p |-> p, s |-> s, k |-> kn, pin |-> pin, val |-> validate])
SimSign ==
  \E kn \in {Pick(DOMAIN Keys)}, c \in {<<Pick(1..5), Pick(1..3), Pick(1..3)>>}, p \in {Pick(Payloads)} :
  LET good == {a \in AlgsHere \ {"none"} : SignError(Keys[kn], a, Keys[kn].kid) = ""} IN
  \E a \in {IF good # {} /\ c[1] > 1 THEN Pick(good) ELSE Pick(AlgsHere)},
     kid \in {IF c[2] = 1 THEN Pick(KidsHere) ELSE Pick({"", Keys[kn].kid})} :
    Sign(kn, a, kid, p, IF c[3] = 1 /\ SignError(Keys[kn], a, kid) = "" THEN "ext" ELSE "psion")
Nothing == [alg |-> "HS256", h |-> "", p |-> "p1", s |-> "junk", mat |-> "o1"]
SimVerify ==
  \E x \in {IF st.signed = {} THEN Nothing ELSE Pick(st.signed)}, c \in {[i \in 1..8 |-> Pick(1..6)]} :
  \E a \in {IF c[1] > 1 THEN x.alg ELSE Pick(AlgsHere)}, p \in {IF c[2] > 1 THEN x.p ELSE Pick(Payloads)} :
  LET kids == {kid \in KidsHere : HName(a, kid) = x.h} IN
  \E kid \in {IF kids # {} /\ c[3] > 1 THEN Pick(kids) ELSE Pick(KidsHere)} :
  LET mine == {kn \in DOMAIN Keys : Keys[kn].mat = x.mat} IN
  \E s \in {IF c[4] > 2 THEN x.s ELSE Pick(Known \cup Forged(HName(a, kid), p))},
     kn \in {IF c[5] > 1 THEN Pick(mine) ELSE Pick(DOMAIN Keys)},
     pin \in {CASE c[6] > 3 -> "" [] c[6] > 1 -> a [] OTHER -> Pick(AlgsHere)} :
    Verify(a, kid, p, s, kn, pin, c[7] > 1)
SimNext ==
  /\ ops < MaxOps
  /\ \E c \in {Pick(1..4)} :
       IF nsign < 2 \/ (c = 1 /\ nsign < MaxSign) THEN SimSign ELSE SimVerify
SimSpec == Init /\ [][SimNext]_vars
Report == ops < MaxOps \/ ~Hist \/ PrintT("PLAN " \o ToJson([h |-> hist]))
=============================================================================
