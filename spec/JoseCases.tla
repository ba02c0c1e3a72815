------------------------------ MODULE JoseCases -------------------------------
(* The inputs of signing and verifying as products of dimensions.  Every case *)
(* has a meaning in the terms of JoseRules, from which its defects follow;    *)
(* the harness makes concrete keys and tokens of it, and the trace            *)
(* specification checks that these have exactly the defects predicted here.   *)
EXTENDS JoseRules, CaseSpace, TLC, Json

CONSTANTS Family, MaxDev,
          Active,     \* dimensions that may change
          Free        \* dimensions explored in full

AlgSeq == <<"HS256", "RS256", "ES256", "PS256", "HS384", "HS512", "RS384", "RS512", "ES384", "ES512", "PS384", "PS512", "none">>
KidDim == D("kids", <<"none", "both", "keyonly", "headeronly", "differ", "near">>)
KalgDim == D("keyalg", <<"absent", "same", "other", "foreign">>)
UseDim == D("use", <<"absent", "sig", "enc", "Sig", "signature", "nosig">>)
OpsDim == D("ops", <<"absent", "both", "verify", "sign", "encrypt", "signencrypt", "verifyderive", "part", "case">>)
ApiDim == D("api", <<"jws", "jwtb", "jwts">>)
PayDim == D("payload", <<"plain", "odd", "large", "dots", "unicode", "tiny">>)
ExtraDim == D("extra", <<"none", "typ", "cty", "unicode", "nested", "crit", "many">>)

DimsOf ==
  CASE Family = "token" ->
    << D("alg", AlgSeq), D("by", <<"psion", "ext">>), ApiDim, PayDim, ExtraDim, KidDim, KalgDim, UseDim, OpsDim,
       D("vkey", <<"public", "private", "other", "othertype", "othercurve", "nokey", "near">>),
       D("pin", <<"absent", "same", "other", "foreign", "none", "lower">>),
       D("validate", <<"yes", "no">>),
       D("tamper", <<"kept", "header", "payload", "sig", "sigfirst", "siglast", "respaced", "trunc", "extend", "empty", "zero", "othersig",
                     "otheralg", "relabel", "tonone", "tononesig", "hmacpub", "hmacjwk", "upper", "splicehdr", "splicepay",
                     "onesegment", "twosegments", "foursegments", "der", "half", "twice", "otherkeysig", "othertypesig", "recoded", "rehead",
                     "gap", "widened", "fore">>) >>
    [] Family = "sign" ->
    << D("alg", AlgSeq), D("api", <<"jws", "jwt">>), PayDim, ExtraDim, KidDim, KalgDim, UseDim, OpsDim,
       D("skey", <<"private", "public", "othertype", "othercurve", "nokey">>) >>
    [] Family = "header" ->
    << D("api", <<"jws", "jwtb", "jwts", "construct">>), D("validate", <<"yes", "no">>),
       D("form", <<"object", "dup", "spaced", "escaped", "extra", "nestedvalue", "empty", "list", "string", "number", "null", "true", "badjson",
                   "single", "trailing", "badb64", "nonutf8", "deep", "blank", "listofobject">>),
       D("alg", <<"HS256", "absent", "unknown", "null", "number", "list", "lower", "space", "blank", "object", "bool">>),
       D("kid", <<"absent", "str", "blank", "null", "number", "list", "zero", "object">>),
       D("typ", <<"absent", "str", "blank", "null", "number", "list", "false", "object">>),
       D("cty", <<"absent", "str", "blank", "null", "number", "list", "false", "object">>),
       D("crit", <<"absent", "ok", "two", "missing", "onemissing", "blanklist", "str", "number", "blankitem", "numitem", "null", "object", "falsy">>),
       D("segments", <<"3", "0", "1", "2", "4", "5", "dots">>),
       D("payload", <<"plain", "badb64", "list", "badjson", "number", "deep">>) >>
Dims == DimsOf

OtherAlg(a) ==
  CASE a = "HS256" -> "HS384" [] a = "HS384" -> "HS512" [] a = "HS512" -> "HS256"
    [] a = "RS256" -> "PS256" [] a = "RS384" -> "RS256" [] a = "RS512" -> "PS512"
    [] a = "PS256" -> "RS256" [] a = "PS384" -> "PS512" [] a = "PS512" -> "RS512"
    [] a = "ES256" -> "ES384" [] a = "ES384" -> "ES512" [] a = "ES512" -> "ES256"
    [] OTHER -> "HS256"
ForeignAlg(a) == IF a \in HS THEN "RS256" ELSE "HS256"
Lower(a) == IF a = "none" THEN "None" ELSE "lower"

KtyOf(a) == CASE a \in HS -> "oct" [] a \in RS -> "RSA" [] a \in ES -> "EC" [] OTHER -> "oct"
CrvOf(a) == IF a \in ES THEN CurveOf[a] ELSE ""

OpsOf(o) == CASE o = "both" -> <<"sign", "verify">> [] o = "verify" -> <<"verify">> [] o = "sign" -> <<"sign">>
              [] o = "encrypt" -> <<"encrypt">> [] o = "signencrypt" -> <<"sign", "encrypt">>
              [] o = "part" -> <<"ver", "sign">> [] o = "case" -> <<"Sign", "verify">>
              [] o = "verifyderive" -> <<"verify", "deriveKey">> [] OTHER -> <<>>
HdrKid(c) == IF c["kids"] \in {"both", "headeronly", "differ", "near"} THEN "kid" ELSE ""
KeyKid(c) == CASE c["kids"] \in {"both", "keyonly"} -> "kid" [] c["kids"] = "differ" -> "kid2" [] c["kids"] = "near" -> "KID" [] OTHER -> ""

(* The key used, for role r.                                                  *)
KeyOf(c, r) ==
  LET a == c["alg"]
      kty == IF r = "othertype" THEN (IF KtyOf(a) = "RSA" THEN "EC" ELSE "RSA") ELSE KtyOf(a)
      crv == IF r = "othertype" THEN (IF kty = "EC" THEN "P-256" ELSE "")
             ELSE IF r = "othercurve" /\ a \in ES THEN CurveOf[OtherAlg(a)] ELSE CrvOf(a)
  IN IF r = "nokey" THEN [kty |-> "nokey"]
     ELSE [kty |-> kty, crv |-> crv, priv |-> r \notin {"public"} \/ kty = "oct", big |-> TRUE,
           mat |-> IF r \in {"public", "private"} \/ (r = "othercurve" /\ a \notin ES) THEN "m" ELSE r,
           alg |-> CASE c["keyalg"] = "same" -> a [] c["keyalg"] = "other" -> OtherAlg(a)
                     [] c["keyalg"] = "foreign" -> ForeignAlg(a) [] OTHER -> "",
           kid |-> KeyKid(c), use |-> IF c["use"] = "absent" THEN "" ELSE c["use"], ops |-> OpsOf(c["ops"])]

Hd(c, a) == [form |-> "object", alg |-> a, kid |-> IF HdrKid(c) = "" THEN "absent" ELSE "str", kidv |-> HdrKid(c),
             typ |-> "absent", cty |-> "absent", crit |-> "absent"]

Fact(m, a, h, p, s) == [mat |-> m, alg |-> a, h |-> h, p |-> p, s |-> s, by |-> ""]

(* Family "token": a token is made with key m, changed, and verified.         *)
TokenAfter(c) ==
  LET a == c["alg"]
      t == c["tamper"]
      ha == CASE t = "relabel" -> OtherAlg(a) [] t \in {"tonone", "tononesig"} -> "none" [] t \in {"hmacpub", "hmacjwk"} -> "HS256"
              [] t = "upper" -> "unsupported" [] OTHER -> a
  IN [n |-> CASE t = "onesegment" -> 1 [] t = "twosegments" -> 2 [] t = "foursegments" -> 4 [] OTHER -> 3,
      hd |-> Hd(c, ha),
      h |-> IF t \in {"header", "respaced", "relabel", "upper", "hmacpub", "hmacjwk", "tonone", "tononesig", "splicehdr", "rehead"} THEN "h2" ELSE "h",
      p |-> IF t \in {"payload", "splicepay", "recoded"} THEN "p2" ELSE "p",
      s |-> CASE t \in {"sig", "sigfirst", "siglast", "trunc", "extend", "empty", "zero", "hmacpub", "hmacjwk", "der", "half", "twice", "gap", "widened", "fore", "tonone", "otheralg",
                      "othertypesig"} -> "x"
              [] t = "othersig" -> "s2" [] t = "otherkeysig" -> "s4" [] OTHER -> "s",
      pb64 |-> TRUE, pay |-> "object", gray |-> <<>>]
TokenDefects(c) ==
  LET a == c["alg"]
      signed == {Fact("m", a, "h", "p", "s"), Fact("m", a, "h", "p2", "s2"), Fact("m", a, "h2x", "p", "s6")}
                \cup (IF c["tamper"] = "otherkeysig" THEN {Fact("other", a, "h", "p", "s4")} ELSE {})
      pin == CASE c["pin"] = "absent" -> "" [] c["pin"] = "same" -> a [] c["pin"] = "other" -> OtherAlg(a)
               [] c["pin"] = "foreign" -> ForeignAlg(a) [] c["pin"] = "none" -> "none" [] OTHER -> "lower"
  IN VerifyDefects(signed, TokenAfter(c), KeyOf(c, c["vkey"]), pin, c["validate"] = "yes", c["api"] # "jws")

SignCaseDefects(c) == SignDefects(KeyOf(c, c["skey"]), Hd(c, c["alg"]), c["api"] # "jws", "object")

(* Family "header": the token carries a valid signature of whatever it says.  *)
Member(x) == CASE x = "absent" -> "absent" [] x = "str" -> "str" [] OTHER -> "bad"
HdOf(c) ==
  LET f == c["form"] IN
  [form |-> CASE f \in {"object", "spaced", "escaped"} /\ \A n \in {"alg", "kid", "typ", "cty", "crit"} : c[n] = "absent" -> "empty"
              [] f \in {"object", "dup", "spaced", "escaped", "extra", "nestedvalue"} -> "object" [] f = "empty" -> "empty"
              [] f \in {"badjson", "single", "trailing", "nonutf8", "deep", "blank"} -> "text" [] f = "badb64" -> "base64" [] OTHER -> "other",
   alg |-> CASE c["alg"] = "HS256" -> "HS256" [] c["alg"] = "absent" -> "absent" [] c["alg"] \in {"unknown", "lower", "space", "blank"} -> "unsupported"
             [] OTHER -> "type",
   kid |-> Member(c["kid"]), kidv |-> IF c["kid"] = "str" THEN "kid" ELSE "", typ |-> Member(c["typ"]), cty |-> Member(c["cty"]),
   crit |-> CASE c["crit"] = "absent" -> "absent" [] c["crit"] = "ok" -> "ok" [] c["crit"] = "two" -> IF c["alg"] = "absent" THEN "missing" ELSE "ok"
              [] c["crit"] \in {"missing", "onemissing"} -> "missing"
              [] c["crit"] = "falsy" -> "gray" [] OTHER -> "bad"]
HeaderCaseDefects(c) ==
  IF c["api"] = "construct"
  THEN LET k == [kty |-> "oct", crv |-> "", priv |-> TRUE, big |-> TRUE, mat |-> "m", alg |-> "", kid |-> "kid", use |-> "", ops |-> <<>>]
       IN SignDefects(k, HdOf(c), FALSE, "object")
  ELSE
  LET n == CASE c["segments"] = "3" -> 3 [] c["segments"] = "0" -> 1 [] c["segments"] = "1" -> 1 [] c["segments"] = "2" -> 2
             [] c["segments"] = "4" -> 4 [] OTHER -> 5
      t == [n |-> n, hd |-> HdOf(c), h |-> "h", p |-> "p", s |-> "s", pb64 |-> c["payload"] # "badb64",
            pay |-> IF c["payload"] = "plain" THEN "object" ELSE "other", gray |-> <<>>]
      k == [kty |-> "oct", crv |-> "", priv |-> TRUE, big |-> TRUE, mat |-> "m", alg |-> "", kid |-> "kid", use |-> "", ops |-> <<>>]
  IN VerifyDefects({Fact("m", "HS256", "h", "p", "s")}, t, k, "", c["validate"] = "yes", c["api"] # "jws")

Applies(c) ==
  CASE Family = "token" ->
         (c["tamper"] = "der" => c["alg"] \in ES) /\ (c["tamper"] \in {"hmacpub", "hmacjwk"} => c["alg"] \notin HS \cup {"none"})
         /\ (c["alg"] = "none" => c["tamper"] \in {"kept", "header", "payload", "respaced", "upper", "splicepay", "onesegment",
                                                   "twosegments", "foursegments"})
         /\ (c["vkey"] = "othercurve" => c["alg"] \in ES)
         /\ (c["pin"] = "lower" => TRUE)
         /\ (c["tamper"] = "otheralg" => c["alg"] \in HS \cup RS)
         /\ (c["payload"] # "plain" => c["tamper"] # "payload")
    [] Family = "sign" -> (c["skey"] = "othercurve" => c["alg"] \in ES) /\ (c["skey"] = "public" => c["alg"] \notin HS \cup {"none"})
    [] OTHER -> (c["form"] \in {"empty", "list", "string", "number", "null", "true", "badjson", "single", "trailing", "nonutf8", "deep",
                                "blank", "listofobject", "badb64"} =>
                   c["alg"] = "HS256" /\ c["kid"] = "absent" /\ c["typ"] = "absent" /\ c["cty"] = "absent" /\ c["crit"] = "absent")
                /\ (c["api"] = "construct" => c["form"] \in {"object", "extra", "nestedvalue", "empty", "list", "string", "number", "null", "true", "listofobject"}
                                              /\ c["segments"] = "3" /\ c["payload"] = "plain" /\ c["validate"] = "yes")

DefectsOfCase(c) == CASE Family = "token" -> TokenDefects(c) [] Family = "sign" -> SignCaseDefects(c) [] OTHER -> HeaderCaseDefects(c)

ASSUME DefectsOfCase(Start(Dims)) = {}

Init == SpaceInit(Dims)
Next == SpaceNext(Dims, MaxDev, Active, Free)
Spec == Init /\ [][Next]_cvars
Dev(c) == LET s == Start(Dims) IN [n \in {n \in DOMAIN c : c[n] # s[n]} |-> c[n]]
Report == Applies(case) => PrintT("CASE " \o ToJson([f |-> Family, d |-> Dev(case), x |-> DefectsOfCase(case)]))
ASSUME PrintT("DIMS " \o ToJson(Start(Dims)))
=============================================================================
