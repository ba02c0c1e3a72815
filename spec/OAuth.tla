-------------------------------- MODULE OAuth --------------------------------
(* Design model of the authorization server at the granularity of the calls   *)
(* it makes on the application's adapter: each action is one adapter call     *)
(* taking effect together with the local computation up to the next call,     *)
(* which is the atomicity of the asyncio implementation.  Several requests    *)
(* run concurrently; adapter calls may fail or be cancelled; the environment  *)
(* moves the clock, removes and restores users and changes registrations.     *)
(*                                                                            *)
(* Every action emits the event that the harness records from the real code   *)
(* and feeds it to the same monitor; `bad' collects broken clauses.  The      *)
(* constant Bug turns single safeguards of the design off, to show that the   *)
(* properties depend on them.                                                 *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANTS MaxReq,      \* number of requests in a behaviour
          MaxConc,     \* how many of them at a time
          MaxFault,    \* failing adapter calls
          MaxEnv,      \* changes by the environment
          Eps,         \* which endpoints and grants are exercised
          Oidc,        \* whether the OpenID Connect hook is installed
          Codes0,      \* whether a code exists initially
          Hist,        \* keep the history (for generation) or not
          Bug          \* "" or the name of a design mutation

VARIABLES st, loc, redeeming, n, faults, envs, bad, h
vars == <<st, loc, redeeming, n, faults, envs, bad, h>>

-----------------------------------------------------------------------------
(* The abstract universe.                                                     *)

Scopes == <<"s1", "s2", "openid">>
ScopeTexts == [t \in {"", "s1", "s2", "s1 s2", "openid s1", "s1 openid", "openid s2", "s2 s1 openid", "s3"} |->
   CASE t = "" -> <<>> [] t = "s1" -> <<"s1">> [] t = "s2" -> <<"s2">>
     [] t = "s1 s2" -> <<"s1", "s2">> [] t = "openid s1" -> <<"openid", "s1">>
     [] t = "s1 openid" -> <<"s1", "openid">> [] t = "openid s2" -> <<"openid", "s2">>
     [] t = "s2 s1 openid" -> <<"s2", "s1", "openid">> [] OTHER -> <<"s3">>]
Uris == [u \in {"ua", "ub", "uc", "err"} |-> [base |-> u, pairs |-> <<>>]]

Cfg == [scopes |-> Scopes, grants |-> <<"authorization_code", "refresh_token", "client_credentials">>,
        rtypes |-> <<"code">>, lifespan |-> 3600, idlife |-> 36000, error |-> "err",
        issuer |-> "iss", oidc |-> Oidc, alg |-> "HS256", kid |-> "k"]
Lex == [scope |-> ScopeTexts, len |-> [c \in {"", "h1", "h2"} |-> IF c = "" THEN 0 ELSE 43],
        s256 |-> [v \in {"", "v1", "v2", "v3"} |-> IF v = "v1" THEN "h1" ELSE IF v = "v3" THEN "h2" ELSE "h" \o v],
        uri |-> Uris]

Client(id, sec, meth, uri) ==
  [id |-> id, secret |-> sec, hassecret |-> TRUE, method |-> meth,
   grants |-> <<"authorization_code", "refresh_token", "client_credentials">>,
   rtypes |-> <<"code">>, redirs |-> <<uri>>, scopes |-> Scopes]
ClientA == Client("A", "sa", "client_secret_basic", "ua")
ClientB == Client("B", "sb", "client_secret_post", "ub")
ClientC ==   \* a public client sharing a redirect URI with A (long histories only)
  [Client("C", "", "none", "ua") EXCEPT !.hassecret = FALSE, !.redirs = <<"ua", "uc">>,
                                        !.grants = <<"authorization_code", "refresh_token">>]
ClientOf(c) == CASE c = "A" -> ClientA [] c = "B" -> ClientB [] OTHER -> ClientC
Clients == {"A", "B"} \cup (IF Hist THEN {"C"} ELSE {})
Wide(few, more) == IF Hist THEN few \cup more ELSE few

Life == 10                      \* lifetime of codes and refresh tokens
Code0 == [code |-> "k0", client |-> "A", user |-> "u", redir |-> "ua",
          scopes |-> <<"openid", "s1">>, chal |-> "h1", meth |-> "S256",
          nonce |-> "n0", exp |-> Life]
Rt0 == [rt |-> "t0", client |-> "A", user |-> "u", scopes |-> <<"s1", "s2">>, exp |-> Life]

M == INSTANCE OAuthMonitor

Ids == <<"1", "2", "3", "4", "5", "6", "7", "8", "9", "10", "11", "12", "13", "14">>
Active == DOMAIN loc

Init ==
  /\ st = M!World(IF Hist THEN <<ClientA, ClientB, ClientC>> ELSE <<ClientA, ClientB>>, <<"u", "v">>, 0,
                  IF Codes0 THEN <<Code0>> ELSE <<>>, IF Codes0 THEN <<Rt0>> ELSE <<>>)
  /\ loc = <<>> /\ redeeming = {} /\ n = 0 /\ faults = 0 /\ envs = 0 /\ bad = {}
  /\ h = <<>>

Log(x) == h' = IF Hist THEN Append(h, x) ELSE h

Emit(e) == LET r == M!Step(e) IN st' = r.w /\ bad' = bad \cup r.v

-----------------------------------------------------------------------------
(* Requests.                                                                  *)

Creds(c, how) ==    \* credentials of client c: right, wrong, or sent otherwise
  LET sec == IF how = "wrong" THEN "sx" ELSE IF how = "swapped" THEN (IF c = "A" THEN "sb" ELSE "sa")
             ELSE IF how = "next" THEN "s" \o c \o "2" ELSE IF c = "A" THEN "sa" ELSE "sb"
      basic == (c = "A") # (how = "moved") IN
  IF how = "absent" THEN [auth |-> [kind |-> "none", id |-> "", secret |-> ""], f |-> <<>>]
  ELSE IF c = "C" THEN [auth |-> [kind |-> "none", id |-> "", secret |-> ""],
                        f |-> << <<"client_id", c>> >> \o (IF how = "right" THEN <<>> ELSE << <<"client_secret", sec>> >>)]
  ELSE IF basic THEN [auth |-> [kind |-> "basic", id |-> c, secret |-> sec], f |-> <<>>]
  ELSE [auth |-> [kind |-> "none", id |-> "", secret |-> ""],
        f |-> << <<"client_id", c>>, <<"client_secret", sec>> >>]

UriOf(c) == CASE c = "A" -> "ua" [] c = "B" -> "ub" [] OTHER -> "uc"

AuthorizeWith(c, ru, sc, user, non, x, ch) ==
  [ep |-> "authorize", user |-> user, auth |-> [kind |-> "none", id |-> "", secret |-> ""], f |-> <<>>,
   q |-> << <<"response_type", "code">>, <<"client_id", c>>, <<"redirect_uri", ru>>, <<"scope", sc>>,
            <<"state", x>>, <<"nonce", non>>, <<"code_challenge", ch>>,
            <<"code_challenge_method", "S256">> >>]
Authorize(c, ru, sc, user, non) == AuthorizeWith(c, ru, sc, user, non, "x", "h1")
Consent(c, ru, sc) == [Authorize(c, ru, sc, "", "") EXCEPT !.ep = "consent"]
Redeem(c, how, k, ru, v) ==
  [ep |-> "token", user |-> "", auth |-> Creds(c, how).auth, q |-> <<>>,
   f |-> Creds(c, how).f \o << <<"grant_type", "authorization_code">>, <<"code", k>>,
                               <<"redirect_uri", ru>>, <<"code_verifier", v>> >>]
Refresh(c, how, t, sc) ==
  [ep |-> "token", user |-> "", auth |-> Creds(c, how).auth, q |-> <<>>,
   f |-> Creds(c, how).f \o << <<"grant_type", "refresh_token">>, <<"refresh_token", t>>,
                               <<"scope", sc>> >>]
Cred(c, how, sc) ==
  [ep |-> "token", user |-> "", auth |-> Creds(c, how).auth, q |-> <<>>,
   f |-> Creds(c, how).f \o << <<"grant_type", "client_credentials">>, <<"scope", sc>> >>]
Revoke(c, how, t) ==
  [ep |-> "revoke", user |-> "", auth |-> Creds(c, how).auth, q |-> <<>>,
   f |-> Creds(c, how).f \o << <<"token", t>> >>]

KnownCodes == st.issued \cup (IF Codes0 THEN {"k0"} ELSE {})
KnownRts == DOMAIN st.rts \cup st.revoked

GoodOf(E) ==
  (IF "authorize" \in E
   THEN {AuthorizeWith(c, UriOf(c), sc, us, non, x, ch) :
           c \in Clients, sc \in Wide({"s1", "s1 s2", "openid s1"}, {"openid s2", "s2 s1 openid"}),
           us \in {"u", "v"}, non \in Wide({"", "n"}, {"m"}), x \in Wide({"x"}, {"y", ""}),
           ch \in Wide({"h1"}, {"h2"})} ELSE {}) \cup
  (IF "consent" \in E THEN {Consent(c, UriOf(c), sc) : c \in Clients, sc \in Wide({"s1 s2"}, {"s2", "s2 s1 openid"})} ELSE {}) \cup
  (IF "redeem" \in E
   THEN {Redeem(st.codes[k].client, "right", k, st.codes[k].redir, IF st.codes[k].chal = "h2" THEN "v3" ELSE "v1") : k \in DOMAIN st.codes} ELSE {}) \cup
  (IF "refresh" \in E
   THEN {Refresh(st.rts[t].client, "right", t, sc) : t \in DOMAIN st.rts, sc \in Wide({"", "s1"}, {"s1 s2"})} ELSE {}) \cup
  (IF "cred" \in E THEN {Cred(c, "right", sc) : c \in {"A", "B"}, sc \in Wide({"", "s2"}, {"s2 s1 openid"})} ELSE {}) \cup
  (IF "revoke" \in E THEN {Revoke(st.rts[t].client, "right", t) : t \in DOMAIN st.rts} ELSE {})

OddOf(E) ==
  (IF "authorize" \in E
   THEN {Authorize("A", "ub", "s1", "u", ""), Authorize("A", "ua", "s3", "u", ""),
         Authorize("A", "ua", "s1", "", ""), Authorize("X", "ua", "s1", "u", "")} \cup
        (IF Hist THEN {Authorize("A", "uc", "s1", "u", "n"), Authorize("C", "ub", "s1", "v", "m"),
                       AuthorizeWith("B", "ub", "s1", "u", "n", "y", ""), Authorize("C", "ua", "", "v", "m")} ELSE {}) ELSE {}) \cup
  (IF "consent" \in E THEN {Consent("A", "ub", "s1"), Consent("A", "ua", "s3")} ELSE {}) \cup
  (IF "redeem" \in E
   THEN {Redeem(c, how, k, ru, v) : c \in Clients, how \in Wide({"right", "wrong", "moved", "absent"}, {"swapped", "next"}),
                                    k \in KnownCodes \cup {"kx"}, ru \in Wide({"ua", "ub"}, {"uc"}),
                                    v \in Wide({"v1", "v2"}, {"v3"})} ELSE {}) \cup
  (IF "refresh" \in E
   THEN {Refresh(c, how, t, sc) : c \in Clients, how \in Wide({"right", "wrong"}, {"next"}),
                                  t \in KnownRts \cup {"tx"}, sc \in {"", "s1", "s1 s2", "openid s1", "s3"}} ELSE {}) \cup
  (IF "cred" \in E THEN {Cred(c, how, sc) : c \in Clients, how \in Wide({"right", "wrong", "absent"}, {"swapped", "next"}), sc \in {"s1", "s3"}} ELSE {}) \cup
  (IF "revoke" \in E THEN {Revoke(c, how, t) : c \in Clients, how \in Wide({"right", "wrong"}, {"swapped", "next"}),
                                                 t \in KnownRts \cup {"tx"}} ELSE {})

GoodRequests == GoodOf(Eps)
OddRequests == OddOf(Eps)

Fresh == [pc |-> "", rq |-> <<>>, code |-> <<>>, rt |-> <<>>, user |-> "", id |-> "",
          at |-> "", nrt |-> "", scopes |-> <<>>, err |-> "", exc |-> FALSE, held |-> FALSE, saved |-> "", trust |-> FALSE, key |-> [alg |-> "", kid |-> ""]]

Finish(L, err) == [L EXCEPT !.pc = "end", !.err = err]

Begin(x) ==
  /\ n < MaxReq /\ Cardinality(Active) < MaxConc
  /\ n' = n + 1
  /\ LET r == Ids[n + 1]
         e == [e |-> "start", r |-> r, ep |-> x.ep, q |-> x.q, f |-> x.f, auth |-> x.auth,
               user |-> x.user, gray |-> FALSE, chk |-> FALSE, exp |-> <<>>]
         rq == [ep |-> x.ep, eff |-> M!Effective(x.q, x.f), body |-> M!BodyOnly(x.f),
                auth |-> x.auth, user |-> x.user]
         c == M!Claimed(rq)
         L == [Fresh EXCEPT !.rq = rq,
                            !.pc = IF x.ep \in {"token", "revoke"} THEN "auth" ELSE "client"]
     IN /\ Emit(e)
        /\ loc' = M!Put(loc, r, IF x.ep \in {"token", "revoke"} /\ c.how \in {"nothing", "two"}
                                THEN Finish(L, "invalid_client") ELSE L)
        /\ Log([t |-> "start", r |-> r, ep |-> x.ep, q |-> x.q, f |-> x.f, auth |-> x.auth, user |-> x.user])
  /\ UNCHANGED <<redeeming, faults, envs>>

-----------------------------------------------------------------------------
(* The server.  After a call takes effect the request goes on to its next     *)
(* call.  A code redemption that holds its code must pass "delete".           *)

Leave(L) == IF L.held /\ Bug # "nofinally" THEN [L EXCEPT !.pc = "delete"] ELSE [L EXCEPT !.pc = "end"]
Refuse(L, err) == Leave([L EXCEPT !.err = err])

Ok(r, m, fields) == [e |-> "call", r |-> r, m |-> m, fault |-> "", ferr |-> "", done |-> TRUE] @@ fields

FirstOf(D) ==  \* some error that names one of the defects
  CHOOSE x \in M!ErrorsOfAll(D) : TRUE

AfterAuth(L, a) ==
  LET gt == L.rq.eff["grant_type"]  c == L.rq.eff["code"] IN
  IF ~a.ok THEN Finish(L, "invalid_client")
  ELSE IF L.rq.ep = "revoke"
  THEN (IF L.rq.body["token"] = "" THEN [L EXCEPT !.pc = "end", !.id = a.id]
        ELSE [L EXCEPT !.pc = "revoke", !.id = a.id])
  ELSE IF gt \notin M!Range(st.clients[a.id].grants) /\ Bug # "anygrant" THEN Finish(L, "unauthorized_client")
  ELSE LET L1 == [L EXCEPT !.id = a.id] IN
  CASE gt = "authorization_code" ->
         IF c = "" THEN Finish(L1, "invalid_request")
         ELSE IF c \in redeeming /\ Bug # "noclaim" THEN Finish(L1, "invalid_grant")
         ELSE [L1 EXCEPT !.held = TRUE, !.pc = "getcode"]
    [] gt = "refresh_token" -> [L1 EXCEPT !.pc = "getrt"]
    [] gt = "client_credentials" ->
         LET D == M!CredDefects(Cfg, Lex, st, L.rq, a) IN
         IF D # {} /\ Bug # "anyscope" THEN Finish(L1, FirstOf(D))
         ELSE [L1 EXCEPT !.pc = "mint",
                 !.scopes = IF L.rq.eff["scope"] = "" THEN st.clients[a.id].scopes
                            ELSE M!Items(Lex, L.rq)]

AfterCode(L) ==
  LET c == L.rq.eff["code"]
      D == M!CodeDefects(Lex, st, L.rq, M!Auth(st, L.rq)) \ {"codeuser"}
      E == CASE Bug = "foreigncode" -> D \ {"foreigncode", "redirectunregistered"}
             [] Bug = "nopkce" -> D \ {"pkce"}
             [] Bug = "noexpiry" -> D \ {"codeexpired"}
             [] OTHER -> D IN
  IF c \notin DOMAIN st.codes THEN Refuse(L, "invalid_request")
  ELSE IF E # {} THEN Refuse(L, FirstOf(E))
  ELSE [L EXCEPT !.pc = "finduser", !.code = st.codes[c], !.user = st.codes[c].user,
                 !.scopes = st.codes[c].scopes]

AfterRt(L) ==
  LET t == L.rq.eff["refresh_token"]
      D == M!RefreshDefects(Cfg, Lex, st, L.rq, M!Auth(st, L.rq)) \ {"refreshuser"}
      E == CASE Bug = "broaderscope" -> D \ {"broaderscope"}
             [] Bug = "foreignrefresh" -> D \ {"foreignrefresh"}
             [] OTHER -> D IN
  IF t \notin DOMAIN st.rts THEN Refuse(L, "invalid_request")
  ELSE IF E # {} THEN Refuse(L, FirstOf(E))
  ELSE [L EXCEPT !.pc = "finduser", !.rt = st.rts[t], !.user = st.rts[t].user,
                 !.scopes = LET base == IF M!Items(Lex, L.rq) = <<>> THEN st.rts[t].scopes
                                        ELSE M!Items(Lex, L.rq)
                            IN SelectSeq(base, LAMBDA x : x \in M!Range(st.clients[L.id].scopes))]

AfterUser(L) ==
  IF L.user \notin st.users /\ Bug # "anyuser" THEN Refuse(L, "invalid_request")
  ELSE [L EXCEPT !.pc = "mint"]

Openid(L) == Cfg.oidc /\ L.rq.eff["grant_type"] = "authorization_code" /\ "openid" \in M!Range(L.scopes)

AfterMint(L) ==
  LET gt == L.rq.eff["grant_type"] IN
  IF L.nrt = "" /\ gt # "client_credentials" /\ "refresh_token" \in M!Range(st.clients[L.id].grants)
  THEN [L EXCEPT !.pc = "mintr"]
  ELSE IF Openid(L) THEN [L EXCEPT !.pc = "idt"] ELSE Leave(L)

AfterClient(L0, r) ==
  LET L == [L0 EXCEPT !.trust = Bug = "openredirect" \/ M!ClientDefects(st, L0.rq) = {}]
      D == M!Defects(Cfg, Lex, st, L.rq) IN
  IF D # {} THEN Finish(L, FirstOf(IF D \cap M!Fatal # {} THEN D \cap M!Fatal ELSE D))
  ELSE IF L.rq.ep = "consent"
  THEN [L EXCEPT !.pc = "end", !.scopes = SelectSeq(M!Items(Lex, L.rq),
                                 LAMBDA x : x \in M!Range(st.clients[L.rq.eff["client_id"]].scopes))]
  ELSE [L EXCEPT !.pc = "save", !.saved = "k" \o r, !.scopes = M!Items(Lex, L.rq)]

OkindOf(L) == IF L.rq.eff["grant_type"] = "client_credentials" THEN "client" ELSE "user"
OwnerOf(L) == IF L.rq.eff["grant_type"] = "client_credentials" THEN L.id ELSE L.user

MintFields(L, tok) ==
  [client |-> L.id, okind |-> OkindOf(L), owner |-> OwnerOf(L), scopes |-> L.scopes, token |-> tok]
SaveFields(L) ==
  [code |-> L.saved, short |-> FALSE, client |-> L.rq.eff["client_id"], user |-> L.rq.user,
   redir |-> L.rq.eff["redirect_uri"], scopes |-> L.scopes, chal |-> L.rq.eff["code_challenge"], meth |-> "S256",
   nonce |-> IF Cfg.oidc /\ Bug # "nononce" THEN L.rq.eff["nonce"] ELSE "", exp |-> st.now + Life]

(* What the call at L.pc is, and where the request goes from there.           *)
CallOf(r, L) ==
  CASE L.pc = "auth" -> [e |-> Ok(r, "find_client", <<>>), L |-> AfterAuth(L, M!Auth(st, L.rq))]
    [] L.pc = "client" -> [e |-> Ok(r, "find_client", <<>>), L |-> AfterClient(L, r)]
    [] L.pc = "getcode" -> [e |-> Ok(r, "get_code", <<>>), L |-> AfterCode(L)]
    [] L.pc = "getrt" -> [e |-> Ok(r, "get_rt", <<>>), L |-> AfterRt(L)]
    [] L.pc = "finduser" -> [e |-> Ok(r, "find_user", <<>>), L |-> AfterUser(L)]
    [] L.pc = "mint" -> [e |-> Ok(r, "create_access", MintFields(L, "a" \o r)),
                         L |-> AfterMint([L EXCEPT !.at = "a" \o r])]
    [] L.pc = "mintr" -> [e |-> Ok(r, "create_refresh", MintFields(L, "t" \o r) @@ [exp |-> st.now + Life]),
                          L |-> AfterMint([L EXCEPT !.nrt = "t" \o r])]
    [] L.pc = "idt" -> [e |-> Ok(r, "keyinfo", <<>>), L |-> Leave([L EXCEPT !.key = st.key])]
    [] L.pc = "save" -> [e |-> Ok(r, "save_code", SaveFields(L)), L |-> [L EXCEPT !.pc = "end"]]
    [] L.pc = "revoke" -> [e |-> Ok(r, "revoke", [client |-> L.id, token |-> L.rq.body["token"], hint |-> ""]),
                           L |-> [L EXCEPT !.pc = "end", !.saved = "revoked"]]
    [] L.pc = "delete" -> [e |-> Ok(r, "delete_code", [code |-> L.rq.eff["code"]]),
                           L |-> [L EXCEPT !.pc = "end"]]

Claims(old, new, c) ==   \* the set of codes being redeemed
  IF ~old.held /\ new.held THEN redeeming \cup {c}
  ELSE IF old.held /\ new.pc = "end" THEN redeeming \ {c} ELSE redeeming

Do(r) ==
  /\ loc[r].pc # "end"
  /\ LET x == CallOf(r, loc[r]) IN
     /\ Emit(x.e)
     /\ loc' = [loc EXCEPT ![r] = x.L]
     /\ redeeming' = Claims(loc[r], x.L, loc[r].rq.eff["code"])
  /\ Log([t |-> "step", r |-> r])
  /\ UNCHANGED <<n, faults, envs>>

(* The call fails before taking effect, or the request is cancelled there.    *)
Fault(r, kind) ==
  /\ loc[r].pc # "end" /\ faults < MaxFault
  /\ faults' = faults + 1
  /\ LET x == CallOf(r, loc[r])
         L == IF loc[r].pc = "delete" THEN [loc[r] EXCEPT !.pc = "end", !.exc = TRUE]
              ELSE Leave([loc[r] EXCEPT !.exc = TRUE])
     IN /\ Emit([x.e EXCEPT !.fault = kind, !.done = FALSE])
        /\ loc' = [loc EXCEPT ![r] = L]
        /\ redeeming' = Claims(loc[r], L, loc[r].rq.eff["code"])
  /\ Log([t |-> kind, r |-> r])
  /\ UNCHANGED <<n, envs>>

-----------------------------------------------------------------------------
(* Responses.                                                                 *)

NoBody == [error |-> "", access_token |-> "", token_type |-> "", expires_in |-> -1,
           refresh_token |-> "", hasscope |-> FALSE, scope |-> <<>>]
NoIdt == [present |-> FALSE, sig |-> FALSE, alg |-> "", kid |-> "", iss |-> "", aud |-> "",
          sub |-> "", scp |-> <<>>, nonce |-> "", iat |-> 0, exp |-> 0, athash |-> FALSE]
Blank(r) == [e |-> "end", r |-> r, kind |-> "resp", status |-> 200, ctype |-> "application/json",
             cache |-> "no-store", pragma |-> "no-cache", hasloc |-> FALSE,
             loc |-> [base |-> "", pairs |-> <<>>], hascode |-> FALSE, bodykind |-> "json", wwwauth |-> FALSE,
             body |-> NoBody, idt |-> NoIdt, leak |-> <<>>, found |-> <<>>, solo |-> "", digest |-> ""]

Params(L) == <<IF L.err = "" THEN <<"code", L.saved>> ELSE <<"error", L.err>>>> \o
             (IF L.rq.eff["state"] = "" THEN <<>> ELSE << <<"state", L.rq.eff["state"]>> >>)

ToClient(L) == L.trust  \* is the redirect URI trusted? (decided when the client was read)

(* What of the things kept by the two sides the answer shows.                 *)
Shows(L) ==
  LET x(k, v) == IF v = "" THEN <<>> ELSE << [kind |-> k, v |-> v, given |-> FALSE] >>
      stored == L.rq.eff["code"] IN
  IF L.rq.ep \in {"authorize", "consent"} THEN (IF L.err = "" THEN x("code", L.saved) ELSE <<>>)
  ELSE IF L.err # ""
  THEN (IF Bug = "tellsecret" /\ L.err = "invalid_client" /\ M!Claimed(L.rq).id \in DOMAIN st.clients
        THEN x("secret", st.clients[M!Claimed(L.rq).id].secret) ELSE <<>>) \o
       (IF Bug = "tellfact" /\ stored \in DOMAIN st.codes THEN x("fact", st.codes[stored].user) ELSE <<>>)
  ELSE x("access", L.at) \o x("refresh", L.nrt) \o
       (IF Bug = "passalong" /\ Openid(L) /\ DOMAIN st.rts # {} THEN x("refresh", CHOOSE t \in DOMAIN st.rts : t # L.nrt) ELSE <<>>)

Reply(r, L) ==
  IF L.exc THEN [e |-> "end", r |-> r, kind |-> "exc", what |-> "AdapterFailure"]
  ELSE CASE L.rq.ep = "consent" /\ L.err = "" ->
              [e |-> "end", r |-> r, kind |-> "consent", client |-> L.rq.eff["client_id"], scopes |-> L.scopes]
         [] L.rq.ep \in {"authorize", "consent"} ->
              [Blank(r) EXCEPT !.status = 303, !.ctype = "", !.hasloc = TRUE, !.bodykind = "empty",
                               !.hascode = L.err = "",
                               !.loc = [base |-> IF ToClient(L) THEN L.rq.eff["redirect_uri"] ELSE "err",
                                        pairs |-> Params(L)]]
         [] L.err # "" -> [Blank(r) EXCEPT !.status = IF L.rq.ep = "revoke" /\ L.err = "invalid_client" THEN 401 ELSE 400,
                                           !.body.error = L.err]
         [] L.rq.ep = "revoke" -> [Blank(r) EXCEPT !.bodykind = "null"]
         [] OTHER -> [Blank(r) EXCEPT
               !.body = [NoBody EXCEPT !.access_token = L.at, !.token_type = "Bearer", !.expires_in = 3600,
                                       !.refresh_token = L.nrt, !.hasscope = TRUE, !.scope = L.scopes],
               !.idt = IF Openid(L)
                       THEN [present |-> TRUE, sig |-> TRUE, alg |-> IF Bug = "oldkey" THEN "HS256" ELSE L.key.alg,
                             kid |-> IF Bug = "oldkey" THEN "k" ELSE L.key.kid, iss |-> "iss",
                             aud |-> L.id, sub |-> L.user, scp |-> L.scopes, nonce |-> L.code.nonce,
                             iat |-> st.now \div 1000, exp |-> st.now \div 1000 + 36000, athash |-> TRUE]
                       ELSE NoIdt]

Answer(r, L) == LET x == Reply(r, L) IN IF x.kind = "resp" THEN [x EXCEPT !.found = Shows(L)] ELSE x

End(r) ==
  /\ loc[r].pc = "end"
  /\ Emit(Answer(r, loc[r]))
  /\ loc' = M!Drop(loc, r)
  /\ Log([t |-> "end", r |-> r])
  /\ UNCHANGED <<redeeming, n, faults, envs>>

-----------------------------------------------------------------------------
(* The environment.                                                           *)

EnvOps ==
  {[op |-> "now", v |-> st.now + Life \div 2]} \cup
  {[op |-> "deluser", u |-> u] : u \in st.users} \cup
  {[op |-> "adduser", u |-> u] : u \in {"u", "v"} \ st.users} \cup
  {[op |-> "client", c |-> [st.clients[c] EXCEPT !.scopes = <<"s1">>]] : c \in Clients} \cup
  (IF ~(Hist \/ Bug = "oldkey") \/ ~Cfg.oidc THEN {} ELSE
     {[op |-> "key", alg |-> a, kid |-> k] : a \in {"HS256", "RS256", "ES256"}, k \in {"k", "k2", ""}}) \cup
  (IF ~Hist THEN {} ELSE
     {[op |-> "client", c |-> [st.clients[c] EXCEPT !.secret = "s" \o c \o "2"]] : c \in {"A", "B"}} \cup
     {[op |-> "client", c |-> [st.clients[c] EXCEPT !.redirs = <<"uc">>]] : c \in Clients} \cup
     {[op |-> "client", c |-> [st.clients[c] EXCEPT !.scopes = <<"openid", "s2">>]] : c \in Clients} \cup
     {[op |-> "client", c |-> [st.clients[c] EXCEPT !.rtypes = <<>>]] : c \in Clients}) \cup
  {[op |-> "client", c |-> [st.clients[c] EXCEPT !.grants = SelectSeq(@, LAMBDA g : g # x)]] :
      c \in Clients, x \in {"refresh_token", "authorization_code"}} \cup
  {[op |-> "client", c |-> ClientOf(c)] : c \in Clients}

Change ==
  /\ envs < MaxEnv
  /\ envs' = envs + 1
  /\ \E o \in EnvOps :
       /\ Emit([e |-> "env"] @@ o)
       /\ st' # st
       /\ Log([t |-> "env", o |-> o])
  /\ UNCHANGED <<loc, redeeming, n, faults>>

BeginGood == \E x \in GoodRequests : Begin(x)
BeginOdd == \E x \in OddRequests : Begin(x)
Serve == \E r \in Active : Do(r)
Answering == \E r \in Active : End(r)
Failing == \E r \in Active : \E k \in {"raise", "cancel"} : Fault(r, k)

Over == n = MaxReq /\ Active = {}
Stop == Over /\ UNCHANGED vars

Next == BeginGood \/ BeginOdd \/ Serve \/ Answering \/ Failing \/ Change \/ Stop

(* For generating long histories: one random successor instead of all.        *)
One(S) == {RandomElement(S)}
SimBegin ==
  \E ep \in One(Eps), k \in One(1..100) :
    \E x \in One(IF k <= 60 /\ GoodOf({ep}) # {} THEN GoodOf({ep}) ELSE OddOf({ep})) : Begin(x)
SimChange ==
  /\ envs' = envs + 1
  /\ \E o \in One(EnvOps) : Emit([e |-> "env"] @@ o) /\ Log([t |-> "env", o |-> o])
  /\ UNCHANGED <<loc, redeeming, n, faults>>
SimNext ==
  /\ ~Over
  /\ \E k \in One(1..100) :
       IF envs < MaxEnv /\ k > 93 THEN SimChange
       ELSE IF n < MaxReq /\ Cardinality(Active) < MaxConc /\ (Active = {} \/ k <= 30) THEN SimBegin
       ELSE IF Active = {} THEN SimChange
       ELSE \E r \in One(Active) :
            IF loc[r].pc = "end" THEN End(r)
            ELSE IF faults < MaxFault /\ k > 85 THEN \E f \in One({"raise", "cancel"}) : Fault(r, f)
            ELSE Do(r)
SimSpec == Init /\ [][SimNext]_vars

Spec == Init /\ [][Next]_vars /\ WF_vars(Serve) /\ WF_vars(Answering)

-----------------------------------------------------------------------------
(* Properties of the design.                                                  *)

Conforms == bad = {}                                    \* all clauses of all properties

Succeeded == {r \in DOMAIN loc : loc[r].pc = "end" /\ loc[r].at # "" /\ loc[r].err = "" /\ ~loc[r].exc}

(* C01: nobody who holds a code finds another holder past the claim.          *)
OneHolder ==
  \A a, b \in Active : loc[a].held /\ loc[b].held /\ loc[a].pc # "end" /\ loc[b].pc # "end"
     /\ loc[a].rq.eff["code"] = loc[b].rq.eff["code"] => a = b
(* C01: a redeemed code is gone.                                              *)
UsedIsGone == st.succ \cap (DOMAIN st.codes \ st.exempt) = {}
(* C05: every refresh token lives within the provider's scopes, and those     *)
(* minted by refreshing within their parent's (checked as a step property).   *)
Confined == \A t \in DOMAIN st.rts : M!Range(st.rts[t].scopes) \subseteq M!Range(Scopes)
NoGain ==
  [][\A r \in DOMAIN loc : loc[r].pc = "mintr" /\ loc[r].rt # <<>>
        /\ ("t" \o r) \in DOMAIN st'.rts
        => M!Range(st'.rts["t" \o r].scopes) \subseteq M!Range(loc[r].rt.scopes)]_vars
(* C02, C08: a token's user is the user of what it was obtained with.         *)
Bound ==
  \A r \in DOMAIN loc : loc[r].at # "" =>
     (loc[r].code # <<>> => loc[r].user = loc[r].code.user /\ loc[r].id = loc[r].code.client) /\
     (loc[r].rt # <<>> => loc[r].user = loc[r].rt.user /\ loc[r].id = loc[r].rt.client)
(* The claim does not outlive the requests: a code is never locked forever.   *)
NoStaleClaim == Active = {} => redeeming = {}
(* C10: every request is eventually answered.                                 *)
Answered == \A i \in 1..MaxReq : (Ids[i] \in Active) ~> (Ids[i] \notin Active)

(* Generation: print the history of finished behaviours.                      *)
Report == Over /\ Hist => PrintT("PLAN " \o ToJson([h |-> h]))
=============================================================================
