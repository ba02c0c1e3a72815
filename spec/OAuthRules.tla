------------------------------ MODULE OAuthRules ------------------------------
(* The rules of the authorization server: what makes a request defective,     *)
(* which OAuth error may name which defect, and what a permitted request      *)
(* does.  Pure operators over                                                 *)
(*   cfg  the provider  [scopes, grants, rtypes, lifespan, idlife, error,     *)
(*                       issuer, oidc, alg, kid]                              *)
(*   lex  lexical facts [scope: text -> items, len: challenge -> length,      *)
(*                       s256: verifier -> S256 challenge,                    *)
(*                       uri: text -> [base, pairs]]                          *)
(*   st   the world     [clients, users, now, codes, rts]                     *)
(*   rq   a request     [ep, eff, body, auth, user]                           *)
(* They are shared by the design model OAuth.tla (small abstract values) and  *)
(* by the trace specification OAuthTrace.tla (values of the real code), so    *)
(* that both are judged by the same text.                                     *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

Range(s) == {s[i] : i \in DOMAIN s}

PNames == {"response_type", "client_id", "redirect_uri", "scope", "state",
           "code_challenge", "code_challenge_method", "nonce", "grant_type",
           "code", "code_verifier", "refresh_token", "token",
           "token_type_hint", "client_secret"}

(* The value of a parameter in a sequence of <<name, value>> pairs: the last  *)
(* non-blank one; "" if there is none.                                        *)
LastOf(pairs, k) ==
  LET I == {i \in DOMAIN pairs : pairs[i][1] = k /\ pairs[i][2] # ""}
  IN  IF I = {} THEN "" ELSE pairs[CHOOSE i \in I : \A j \in I : j <= i][2]

(* The body wins over the URL.                                                *)
Effective(q, f) ==
  [k \in PNames |-> LET b == LastOf(f, k) IN IF b # "" THEN b ELSE LastOf(q, k)]
BodyOnly(f) == [k \in PNames |-> LastOf(f, k)]

-----------------------------------------------------------------------------
(* Client authentication (C06).                                               *)

BasicFull(rq) == rq.auth.kind = "basic" /\ rq.auth.id # "" /\ rq.auth.secret # ""

NoClient == [ok |-> FALSE, id |-> "", how |-> ""]

Claimed(rq) == \* which identity the request claims, and how
  LET bid == rq.body["client_id"]  bsec == rq.body["client_secret"] IN
  IF BasicFull(rq) /\ bsec # "" THEN [how |-> "two", id |-> "", secret |-> ""]
  ELSE IF BasicFull(rq)
    THEN [how |-> "client_secret_basic", id |-> rq.auth.id, secret |-> rq.auth.secret]
  ELSE IF bid # "" /\ bsec # ""
    THEN [how |-> "client_secret_post", id |-> bid, secret |-> bsec]
  ELSE IF bid # "" THEN [how |-> "none", id |-> bid, secret |-> ""]
  ELSE [how |-> "nothing", id |-> "", secret |-> ""]

Auth(st, rq) ==
  LET c == Claimed(rq) IN
  IF c.how \in {"two", "nothing"} \/ c.id \notin DOMAIN st.clients THEN NoClient
  ELSE LET r == st.clients[c.id] IN
    IF r.method = c.how /\ (IF c.how = "none" THEN ~r.hassecret
                            ELSE r.hassecret /\ r.secret = c.secret)
    THEN [ok |-> TRUE, id |-> c.id, how |-> c.how]
    ELSE NoClient

(* Requests about which no claim is made: an unusable Authorization header    *)
(* next to credentials in the body, or a Basic header next to another id.     *)
AuthGray(rq) ==
  \/ rq.auth.kind = "junk" /\ rq.body["client_id"] # ""
  \/ rq.auth.kind = "basic" /\ ~BasicFull(rq) /\ rq.body["client_id"] # ""
  \/ BasicFull(rq) /\ rq.body["client_id"] \notin {"", rq.auth.id}

-----------------------------------------------------------------------------
(* Scopes (C05).                                                              *)

Items(lex, rq) == IF rq.eff["scope"] = "" THEN <<>> ELSE lex.scope[rq.eff["scope"]]
Asked(lex, rq) == Range(Items(lex, rq))

-----------------------------------------------------------------------------
(* Defects of an authorization request (C03, C04, C05, C07) and of a consent  *)
(* query (C26).                                                               *)

Fatal == {"noredirect", "noclientid", "unknownclient", "badredirect"}

ClientDefects(st, rq) ==
  LET id == rq.eff["client_id"]  ru == rq.eff["redirect_uri"] IN
  (IF ru = "" THEN {"noredirect"} ELSE {}) \cup
  (IF id = "" THEN {"noclientid"}
   ELSE IF id \notin DOMAIN st.clients THEN {"unknownclient"}
   ELSE IF ru # "" /\ ru \notin Range(st.clients[id].redirs) THEN {"badredirect"}
   ELSE {})

TypeDefects(cfg, st, rq) ==
  LET id == rq.eff["client_id"]  rt == rq.eff["response_type"] IN
  IF rt = "" THEN {"noresponsetype"}
  ELSE (IF rt \notin Range(cfg.rtypes) THEN {"unsupportedtype"} ELSE {}) \cup
       (IF id \in DOMAIN st.clients /\ rt \notin Range(st.clients[id].rtypes)
        THEN {"unregisteredtype"} ELSE {})

ChallengeDefects(lex, rq) ==
  LET ch == rq.eff["code_challenge"] IN
  (IF ch = "" THEN {"nochallenge"}
   ELSE IF lex.len[ch] < 43 \/ lex.len[ch] > 128 THEN {"challengelength"} ELSE {}) \cup
  (IF rq.eff["code_challenge_method"] \notin {"plain", "S256"} THEN {"badmethod"} ELSE {})

ScopeDefects(cfg, lex, st, rq) ==
  LET id == rq.eff["client_id"] IN
  (IF rq.eff["scope"] = "" THEN {"noscope"} ELSE {}) \cup
  (IF Asked(lex, rq) \ Range(cfg.scopes) # {} THEN {"unsupportedscope"} ELSE {}) \cup
  (IF id \in DOMAIN st.clients /\ Asked(lex, rq) \ Range(st.clients[id].scopes) # {}
   THEN {"unallowedscope"} ELSE {})

AuthorizeDefects(cfg, lex, st, rq) ==
  ClientDefects(st, rq) \cup TypeDefects(cfg, st, rq) \cup
  (IF rq.user = "" THEN {"nologin"} ELSE {}) \cup
  ChallengeDefects(lex, rq) \cup ScopeDefects(cfg, lex, st, rq)

ConsentDefects(cfg, lex, st, rq) ==
  ClientDefects(st, rq) \cup TypeDefects(cfg, st, rq) \cup
  (IF rq.eff["scope"] = "" THEN {"noscope"} ELSE {})

-----------------------------------------------------------------------------
(* Defects of a token request.                                                *)

CodeDefects(lex, st, rq, a) ==
  LET c == rq.eff["code"]  ru == rq.eff["redirect_uri"]  v == rq.eff["code_verifier"] IN
  (IF c = "" THEN {"nocodeparam"} ELSE {}) \cup
  (IF ru = "" THEN {"noredirectparam"} ELSE {}) \cup
  (IF v = "" THEN {"noverifier"} ELSE {}) \cup
  (IF c = "" THEN {}
   ELSE IF c \notin DOMAIN st.codes THEN {"nocode"}
   ELSE LET r == st.codes[c] IN
     (IF ru # "" /\ ru # r.redir THEN {"redirectdiffers"} ELSE {}) \cup
     (IF v = "" THEN {}
      ELSE IF r.meth = "plain" THEN (IF v = r.chal THEN {} ELSE {"pkce"})
      ELSE IF r.meth = "S256" THEN (IF lex.s256[v] = r.chal THEN {} ELSE {"pkce"})
      ELSE {"pkcemethod"}) \cup
     (IF st.now >= r.exp THEN {"codeexpired"} ELSE {}) \cup
     (IF r.user \notin st.users THEN {"codeuser"} ELSE {}) \cup
     (IF a.ok /\ r.client # a.id THEN {"foreigncode"} ELSE {})) \cup
  (IF a.ok /\ ru # "" /\ ru \notin Range(st.clients[a.id].redirs)
   THEN {"redirectunregistered"} ELSE {})

RefreshDefects(cfg, lex, st, rq, a) ==
  LET t == rq.eff["refresh_token"] IN
  (IF t = "" THEN {"norefreshparam"}
   ELSE IF t \notin DOMAIN st.rts THEN {"norefresh"}
   ELSE LET r == st.rts[t] IN
     (IF st.now >= r.exp THEN {"refreshexpired"} ELSE {}) \cup
     (IF r.user \notin st.users THEN {"refreshuser"} ELSE {}) \cup
     (IF a.ok /\ r.client # a.id THEN {"foreignrefresh"} ELSE {}) \cup
     (IF Asked(lex, rq) \ Range(r.scopes) # {} THEN {"broaderscope"} ELSE {})) \cup
  (IF Asked(lex, rq) \ Range(cfg.scopes) # {} THEN {"unsupportedscope"} ELSE {}) \cup
  (IF a.ok /\ Asked(lex, rq) \ Range(st.clients[a.id].scopes) # {}
   THEN {"unallowedscope"} ELSE {})

CredDefects(cfg, lex, st, rq, a) ==
  (IF a.ok /\ a.how = "none" THEN {"publiccredentials"} ELSE {}) \cup
  (IF Asked(lex, rq) \ Range(cfg.scopes) # {} THEN {"unsupportedscope"} ELSE {}) \cup
  (IF a.ok /\ Asked(lex, rq) \ Range(st.clients[a.id].scopes) # {}
   THEN {"unallowedscope"} ELSE {})

TokenDefects(cfg, lex, st, rq) ==
  LET gt == rq.eff["grant_type"]  a == Auth(st, rq) IN
  (IF gt = "" THEN {"nogranttype"}
   ELSE IF gt \notin Range(cfg.grants) THEN {"unsupportedgrant"} ELSE {}) \cup
  (IF ~a.ok THEN {"auth"} ELSE {}) \cup
  (IF a.ok /\ gt # "" /\ gt \notin Range(st.clients[a.id].grants)
   THEN {"unregisteredgrant"} ELSE {}) \cup
  (CASE gt = "authorization_code" -> CodeDefects(lex, st, rq, a)
     [] gt = "refresh_token" -> RefreshDefects(cfg, lex, st, rq, a)
     [] gt = "client_credentials" -> CredDefects(cfg, lex, st, rq, a)
     [] OTHER -> {})

RevokeDefects(st, rq) ==
  (IF ~Auth(st, rq).ok THEN {"auth"} ELSE {}) \cup
  (IF rq.body["token"] = "" THEN {"notoken"} ELSE {}) \cup
  (IF rq.body["token_type_hint"] \notin {"", "access_token", "refresh_token"}
   THEN {"badhint"} ELSE {})

Defects(cfg, lex, st, rq) ==
  CASE rq.ep = "authorize" -> AuthorizeDefects(cfg, lex, st, rq)
    [] rq.ep = "consent"   -> ConsentDefects(cfg, lex, st, rq)
    [] rq.ep = "token"     -> TokenDefects(cfg, lex, st, rq)
    [] rq.ep = "revoke"    -> RevokeDefects(st, rq)

(* Conditions under which both granting and refusing are accepted.            *)
Grays(cfg, lex, rq) ==
  (IF rq.ep \in {"token", "revoke"} /\ AuthGray(rq) THEN {"gray"} ELSE {}) \cup
  (IF rq.ep \in {"authorize", "consent"} /\ rq.eff["scope"] # ""
      /\ Items(lex, rq) = <<>> THEN {"gray"} ELSE {}) \cup
  (IF rq.ep = "consent" /\ Asked(lex, rq) \ Range(cfg.scopes) # {} THEN {"gray"} ELSE {})

-----------------------------------------------------------------------------
(* Which property a defect belongs to, and which error codes may name it.     *)

PropOf(d) ==
  CASE d \in Fatal -> "C04"
    [] d \in {"nologin", "nochallenge", "challengelength", "badmethod",
              "noscope", "noresponsetype"} -> "C03"
    [] d \in {"unsupportedtype", "unregisteredtype", "unsupportedgrant",
              "unregisteredgrant", "publiccredentials", "nogranttype"} -> "C07"
    [] d \in {"unsupportedscope", "unallowedscope", "broaderscope"} -> "C05"
    [] d = "auth" -> "C06"
    [] d \in {"nocodeparam", "noredirectparam", "noverifier", "nocode",
              "redirectdiffers", "pkce", "pkcemethod", "codeexpired",
              "codeuser", "foreigncode", "redirectunregistered"} -> "C02"
    [] d \in {"norefreshparam", "norefresh", "refreshexpired", "refreshuser",
              "foreignrefresh"} -> "C08"
    [] d \in {"notoken", "badhint"} -> "C09"
    [] OTHER -> "C10"

(* All properties broken when request rq is granted in spite of defect d.     *)
PropsOf(rq, d) ==
  {PropOf(d)} \cup
  (CASE rq.ep = "authorize" -> {"C03"}
     [] rq.ep = "consent" -> {"C26"}
     [] rq.ep = "revoke" -> {"C09"}
     [] d = "auth" -> (CASE rq.eff["grant_type"] = "authorization_code" -> {"C02"}
                         [] rq.eff["grant_type"] = "refresh_token" -> {"C08"}
                         [] OTHER -> {"C07"})
     [] rq.eff["grant_type"] = "refresh_token" /\ PropOf(d) = "C05" -> {"C08"}
     [] OTHER -> {})

AllErrors == {"invalid_request", "invalid_client", "invalid_grant",
  "unauthorized_client", "access_denied", "unsupported_response_type",
  "unsupported_grant_type", "unsupported_token_type", "invalid_scope",
  "server_error", "temporarily_unavailable"}

ErrorsOf(d) ==
  CASE d \in {"noredirect", "noclientid", "badredirect", "noresponsetype",
              "nochallenge", "challengelength", "badmethod", "nogranttype",
              "nocodeparam", "noredirectparam", "noverifier",
              "norefreshparam", "notoken"} -> {"invalid_request"}
    [] d = "unknownclient" -> {"invalid_request", "invalid_client", "unauthorized_client"}
    [] d = "nologin" -> {"access_denied"}
    [] d = "unsupportedtype" -> {"unsupported_response_type"}
    [] d = "unregisteredtype" -> {"unauthorized_client"}
    [] d = "noscope" -> {"invalid_request", "invalid_scope"}
    [] d \in {"unsupportedscope", "unallowedscope", "broaderscope"} -> {"invalid_scope"}
    [] d = "unsupportedgrant" -> {"unsupported_grant_type"}
    [] d = "unregisteredgrant" -> {"unauthorized_client"}
    [] d = "publiccredentials" -> {"invalid_client", "unauthorized_client"}
    [] d = "auth" -> {"invalid_client"}
    [] d \in {"nocode", "redirectdiffers", "redirectunregistered", "pkce",
              "pkcemethod", "codeexpired", "codeuser", "contended",
              "norefresh", "refreshexpired", "refreshuser"} ->
         {"invalid_grant", "invalid_request"}
    [] d \in {"foreigncode", "foreignrefresh"} ->
         {"invalid_grant", "invalid_client", "invalid_request"}
    [] d = "badhint" -> {"unsupported_token_type"}
    [] OTHER -> AllErrors

ErrorsOfAll(D) == UNION {ErrorsOf(d) : d \in D}

(* Which property is broken when a request without defect is refused.         *)
RefusedProps(rq, error) ==
  {CASE rq.ep = "authorize" -> "C03"
     [] rq.ep = "consent" -> "C26"
     [] rq.ep = "revoke" -> "C09"
     [] OTHER -> CASE rq.eff["grant_type"] = "authorization_code" -> "C02"
                   [] rq.eff["grant_type"] = "refresh_token" -> "C08"
                   [] OTHER -> "C07"} \cup
  (CASE error = "invalid_client" -> {"C06"}
     [] error = "invalid_scope" -> {"C05"}
     [] error \in {"unauthorized_client", "unsupported_grant_type",
                   "unsupported_response_type"} -> {"C07"}
     [] OTHER -> {})

-----------------------------------------------------------------------------
(* What a permitted token request mints.                                      *)

(* The scope sets a token may carry, given the world st.                      *)
Minted(lex, st, rq) ==
  LET gt == rq.eff["grant_type"]  a == Auth(st, rq) IN
  IF ~a.ok THEN {}
  ELSE CASE gt = "authorization_code" /\ rq.eff["code"] \in DOMAIN st.codes ->
              {Range(st.codes[rq.eff["code"]].scopes)}
         [] gt = "refresh_token" /\ rq.eff["refresh_token"] \in DOMAIN st.rts ->
              {(IF Items(lex, rq) = <<>> THEN Range(st.rts[rq.eff["refresh_token"]].scopes)
                ELSE Asked(lex, rq)) \cap Range(st.clients[a.id].scopes)}
         [] gt = "client_credentials" ->
              IF rq.eff["scope"] = "" THEN {Range(st.clients[a.id].scopes)}
              ELSE IF Items(lex, rq) = <<>> THEN {Range(st.clients[a.id].scopes), {}}
              ELSE {Asked(lex, rq)}
         [] OTHER -> {}

(* Whose token it is.                                                         *)
Owner(st, rq) ==
  LET gt == rq.eff["grant_type"]  a == Auth(st, rq) IN
  IF ~a.ok THEN {}
  ELSE CASE gt = "authorization_code" /\ rq.eff["code"] \in DOMAIN st.codes ->
              {<<"user", st.codes[rq.eff["code"]].user>>}
         [] gt = "refresh_token" /\ rq.eff["refresh_token"] \in DOMAIN st.rts ->
              {<<"user", st.rts[rq.eff["refresh_token"]].user>>}
         [] gt = "client_credentials" -> {<<"client", a.id>>}
         [] OTHER -> {}

(* Whether a refresh token is due with the access token.                      *)
RefreshDue(st, rq) ==
  LET gt == rq.eff["grant_type"]  a == Auth(st, rq) IN
  /\ a.ok
  /\ gt \in {"authorization_code", "refresh_token"}
  /\ "refresh_token" \in Range(st.clients[a.id].grants)

(* The scopes against which a response without "scope" is read by the client. *)
Implied(lex, st, rq) ==
  LET gt == rq.eff["grant_type"] IN
  CASE gt = "refresh_token" /\ Items(lex, rq) = <<>> /\ rq.eff["refresh_token"] \in DOMAIN st.rts ->
         {Range(st.rts[rq.eff["refresh_token"]].scopes)}
    [] gt = "authorization_code" /\ rq.eff["code"] \in DOMAIN st.codes ->
         {Range(st.codes[rq.eff["code"]].scopes)}
    [] OTHER -> {Asked(lex, rq)}

(* A token request that counts as a presentation of its code (C01).           *)
Presents(cfg, st, rq) ==
  /\ rq.ep = "token"
  /\ rq.eff["grant_type"] = "authorization_code"
  /\ "authorization_code" \in Range(cfg.grants)
  /\ rq.eff["code"] # ""
  /\ Auth(st, rq).ok
  /\ "authorization_code" \in Range(st.clients[Auth(st, rq).id].grants)
=============================================================================
