----------------------------- MODULE OAuthMonitor -----------------------------
(* What the OAuth endpoints may do, event by event.  Step(e) takes the world  *)
(* st and an event e to the next world w and to the set v of broken clauses,  *)
(* each named by the property it belongs to.  It is total: every event has a  *)
(* verdict.  The design model OAuth.tla feeds it the events of the modelled   *)
(* server (and must break nothing); OAuthTrace.tla feeds it the events        *)
(* recorded from the real code.                                               *)
(*                                                                            *)
(* An event is the start of a request, the moment an adapter call takes       *)
(* effect, a change made by the environment (clock, registrations, users), or *)
(* the end of a request.                                                      *)
(*                                                                            *)
(* A request lasts from its start to its end; the world may change meanwhile. *)
(* dA are the defects it had all the time, dE those it had at some time:      *)
(* granting requires dA = {}, refusing requires dE # {}, which is exact for   *)
(* requests that run alone.                                                   *)
EXTENDS OAuthRules

VARIABLES Cfg, Lex, st   \* instantiated by state functions

ToFun(seq, key(_)) == [k \in {key(seq[i]) : i \in DOMAIN seq} |->
                         seq[CHOOSE i \in DOMAIN seq : key(seq[i]) = k]]

World(clients, users, now, codes, rts) ==
  [clients |-> ToFun(clients, LAMBDA c : c.id),
   users   |-> Range(users),
   now     |-> now,
   codes   |-> ToFun(codes, LAMBDA c : c.code),
   rts     |-> ToFun(rts, LAMBDA t : t.rt),
   key     |-> [alg |-> Cfg.alg, kid |-> Cfg.kid],   \* what the application signs ID tokens with
   reqs    |-> <<>>,
   issued  |-> {codes[i].code : i \in DOMAIN codes},
   succ    |-> {},      \* codes answered with tokens
   shown   |-> {},      \* codes presented by an authenticated request
   exempt  |-> {},      \* codes whose deletion failed in the adapter
   revoked |-> {},      \* refresh tokens revoked
   tokens  |-> {}]      \* tokens handed out by the adapter

Put(f, k, v) == (k :> v) @@ f
Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]

(* The world as seen by request q: its own deletion does not count against it *)
View(w, q) == [w EXCEPT !.codes = q.own @@ w.codes]

Refreshed(w, q) ==
  LET v == View(w, q)
      d == Defects(Cfg, Lex, v, q.rq)
      a == Auth(v, q.rq) IN
  [q EXCEPT !.dA = @ \cap d, !.dE = @ \cup d,
            !.scopes = @ \cup (IF q.rq.ep = "token" THEN Minted(Lex, v, q.rq) ELSE {}),
            !.owners = @ \cup (IF q.rq.ep = "token" THEN Owner(v, q.rq) ELSE {}),
            !.implied = @ \cup (IF q.rq.ep = "token" THEN Implied(Lex, v, q.rq) ELSE {}),
            !.due = @ \cup {IF q.rq.ep = "token" THEN RefreshDue(v, q.rq) ELSE FALSE},
            !.ids = @ \cup (IF q.rq.ep \in {"token", "revoke"} /\ a.ok THEN {a.id} ELSE {}),
            !.pres = @ \cup {Presents(Cfg, v, q.rq)},
            !.nonces = @ \cup (IF q.rq.ep = "token" /\ q.rq.eff["code"] \in DOMAIN v.codes
                               THEN {v.codes[q.rq.eff["code"]].nonce} ELSE {}),
            !.nows = @ \cup {w.now},
            !.keys = @ \cup {w.key},
            !.cons = @ \cup (IF q.rq.ep = "consent" /\ q.rq.eff["client_id"] \in DOMAIN v.clients
                             THEN {Asked(Lex, q.rq) \cap Range(v.clients[q.rq.eff["client_id"]].scopes)} ELSE {}),
            !.full = @ \cup (IF q.rq.ep = "consent"
                             THEN AuthorizeDefects(Cfg, Lex, v, q.rq)
                                  \ {"nologin", "nochallenge", "challengelength", "badmethod"} ELSE {})]

RefreshAll(w) == [w EXCEPT !.reqs = [r \in DOMAIN @ |-> Refreshed(w, @[r])]]

-----------------------------------------------------------------------------
(* start of a request                                                         *)

NewReq(w, e) ==
  LET rq == [ep |-> e.ep, eff |-> Effective(e.q, e.f), body |-> BodyOnly(e.f),
             auth |-> e.auth, user |-> e.user]
      d  == Defects(Cfg, Lex, w, rq)
      q0 == [rq |-> rq, dA |-> d, own |-> <<>>, cons |-> {}, full |-> {},
             dE |-> d \cup Grays(Cfg, Lex, rq) \cup (IF e.gray THEN {"gray"} ELSE {}),
             scopes |-> {}, owners |-> {}, implied |-> {}, due |-> {}, ids |-> {},
             pres |-> {}, nonces |-> {}, nows |-> {}, keys |-> {}, access |-> <<>>, refresh |-> <<>>,
             saves |-> <<>>, revs |-> <<>>, faults |-> {}, ferrs |-> {}, eff |-> FALSE]
  IN Refreshed(w, q0)

Start(e) ==
  LET q == NewReq(st, e)
      c == q.rq.eff["code"]
      rivals == {r \in DOMAIN st.reqs :
                   /\ TRUE \in st.reqs[r].pres
                   /\ st.reqs[r].rq.eff["code"] = c}
      contended == TRUE \in q.pres /\ rivals # {}
      q1 == IF contended THEN [q EXCEPT !.dE = @ \cup {"contended"}] ELSE q
      old == [r \in DOMAIN st.reqs |->
                IF contended /\ r \in rivals
                THEN [st.reqs[r] EXCEPT !.dE = @ \cup {"contended"}] ELSE st.reqs[r]]
  IN [w |-> [st EXCEPT !.reqs = Put(old, e.r, q1)],
      \* a request made from a case of OAuthCases has the defects predicted there
      v |-> IF e.chk /\ Range(e.exp) # q.dA THEN {<<"MODEL", ToString(<<Range(e.exp), q.dA>>)>>} ELSE {}]

-----------------------------------------------------------------------------
(* an adapter call takes effect                                               *)

Reads == {"find_client", "find_user", "get_code", "get_rt", "userinfo", "keyinfo"}

NoteFault(q, e) ==
  IF e.fault = "" THEN q
  ELSE [q EXCEPT !.faults = @ \cup {<<e.fault, e.m>>},
                 !.ferrs = IF e.fault = "oauth" THEN @ \cup {e.ferr} ELSE @]

Blame(q, D, text) == UNION {{<<p, text \o d>> : p \in PropsOf(q.rq, d)} : d \in D}
Despite(q, D) == Blame(q, q.dA \cap D, "effect despite ")
                 \cup (IF q.rq.ep = "consent" THEN {<<"C26", "consent has an effect">>} ELSE {})

SaveV(q, e) ==
  LET rq == q.rq IN
  Despite(q, q.dA) \cup
  (IF rq.ep # "authorize" THEN {<<"C03", "code stored by another endpoint">>} ELSE {}) \cup
  (IF q.saves # <<>> THEN {<<"C03", "second code for one request">>} ELSE {}) \cup
  (IF e.code \in st.issued THEN {<<"C03", "code is not new">>} ELSE {}) \cup
  (IF e.short THEN {<<"C03", "code has fewer than 128 bits">>} ELSE {}) \cup
  (IF e.client # rq.eff["client_id"] THEN {<<"C03", "stored client">>} ELSE {}) \cup
  (IF e.user # rq.user THEN {<<"C03", "stored user">>} ELSE {}) \cup
  (IF e.redir # rq.eff["redirect_uri"] THEN {<<"C03", "stored redirect URI">>} ELSE {}) \cup
  (IF Range(e.scopes) # Asked(Lex, rq)
   THEN {<<"C03", "stored scopes">>} \cup
        (IF Range(e.scopes) \ Asked(Lex, rq) # {} THEN {<<"C05", "stored scopes exceed the request">>} ELSE {})
   ELSE {}) \cup
  (IF e.chal # rq.eff["code_challenge"] THEN {<<"C03", "stored challenge">>} ELSE {}) \cup
  (IF e.meth # rq.eff["code_challenge_method"] THEN {<<"C03", "stored method">>} ELSE {}) \cup
  (IF Cfg.oidc /\ e.nonce # rq.eff["nonce"] THEN {<<"C13", "stored nonce">>} ELSE {})

MintV(q, e) ==
  LET rq == q.rq IN
  Despite(q, q.dA) \cup
  (IF "nocode" \in q.dA /\ rq.eff["code"] \in st.shown
   THEN {<<"C01", "token minted for a code already used">>} ELSE {}) \cup
  (IF "norefresh" \in q.dA /\ rq.eff["refresh_token"] \in st.revoked
   THEN {<<"C09", "token minted for a revoked refresh token">>} ELSE {}) \cup
  (IF rq.ep # "token" THEN {<<"C12", "token minted by another endpoint">>} ELSE {}) \cup
  (IF e.client \notin q.ids
   THEN {<<"C06", "token minted for another client">>,
         <<IF rq.eff["grant_type"] = "refresh_token" THEN "C08" ELSE "C02", "client of the token">>} ELSE {}) \cup
  (IF q.owners # {} /\ <<e.okind, e.owner>> \notin q.owners
   THEN {<<IF rq.eff["grant_type"] = "refresh_token" THEN "C08"
           ELSE IF rq.eff["grant_type"] = "client_credentials" THEN "C07" ELSE "C02",
           "owner of the token">>} ELSE {}) \cup
  (IF q.scopes # {} /\ Range(e.scopes) \notin q.scopes
   THEN {<<"C05", "scopes of the token">>} ELSE {})

AccessV(q, e) ==
  MintV(q, e) \cup
  (IF q.access # <<>> THEN {<<"C12", "second access token minted">>} ELSE {})

RefreshV(q, e) ==
  MintV(q, e) \cup
  (IF q.refresh # <<>> THEN {<<"C12", "second refresh token minted">>} ELSE {}) \cup
  (IF TRUE \notin q.due THEN {<<"C12", "refresh token minted though not due">>} ELSE {})

DeleteV(q, e) ==
  Despite(q, {"auth", "unregisteredgrant", "unsupportedgrant", "nogranttype"}) \cup
  (IF q.rq.ep # "token" \/ q.rq.eff["grant_type"] # "authorization_code"
      \/ e.code # q.rq.eff["code"]
   THEN {<<"C02", "deletes a code that was not presented">>} ELSE {})

RevokeV(q, e) ==
  Despite(q, q.dA) \cup
  (IF q.rq.ep # "revoke" THEN {<<"C09", "revocation by another endpoint">>} ELSE {}) \cup
  (IF q.revs # <<>> THEN {<<"C09", "second revocation">>} ELSE {}) \cup
  (IF e.client \notin q.ids THEN {<<"C09", "client of the revocation">>,
                                  <<"C06", "revocation for another client">>} ELSE {}) \cup
  (IF e.token # q.rq.body["token"] THEN {<<"C09", "token of the revocation">>} ELSE {}) \cup
  (IF e.hint # q.rq.body["token_type_hint"] THEN {<<"C09", "hint of the revocation">>} ELSE {})

Call(e) ==
  IF e.r \notin DOMAIN st.reqs
  THEN [w |-> st, v |-> IF e.m \in Reads THEN {} ELSE {<<"C15", "effect outside any request">>}]
  ELSE
  LET q0 == st.reqs[e.r]
      q  == NoteFault(q0, e)
      w0 == [st EXCEPT !.reqs[e.r] = q]
  IN
  IF e.m \in Reads THEN [w |-> w0, v |-> {}]
  ELSE
  CASE e.m = "save_code" ->
         [v |-> SaveV(q0, e),
          w |-> LET w1 == [w0 EXCEPT !.reqs[e.r].saves = Append(@, e),
                                     !.issued = @ \cup {e.code}]
                IN IF e.done
                   THEN RefreshAll([w1 EXCEPT !.codes = Put(@, e.code,
                          [code |-> e.code, client |-> e.client, user |-> e.user,
                           redir |-> e.redir, scopes |-> e.scopes, chal |-> e.chal,
                           meth |-> e.meth, nonce |-> e.nonce, exp |-> e.exp])])
                   ELSE w1]
    [] e.m = "create_access" ->
         [v |-> AccessV(q0, e),
          w |-> [w0 EXCEPT !.reqs[e.r].access = Append(@, e),
                           !.tokens = @ \cup {e.token}]]
    [] e.m = "create_refresh" ->
         [v |-> RefreshV(q0, e),
          w |-> LET w1 == [w0 EXCEPT !.reqs[e.r].refresh = Append(@, e)]
                IN IF e.done
                   THEN RefreshAll([w1 EXCEPT !.rts = Put(@, e.token,
                          [rt |-> e.token, client |-> e.client, user |-> e.owner,
                           scopes |-> e.scopes, exp |-> e.exp])])
                   ELSE w1]
    [] e.m = "delete_code" ->
         [v |-> DeleteV(q0, e),
          w |-> IF ~e.done THEN [w0 EXCEPT !.exempt = @ \cup {e.code}]
                ELSE IF e.code \notin DOMAIN w0.codes THEN w0
                ELSE LET own == Put(q.own, e.code, w0.codes[e.code])
                     IN RefreshAll([w0 EXCEPT !.reqs[e.r].own = own,
                                              !.codes = Drop(@, e.code)])]
    [] e.m = "revoke" ->
         [v |-> RevokeV(q0, e),
          w |-> LET w1 == [w0 EXCEPT !.reqs[e.r].revs = Append(@, e)]
                IN IF e.done /\ e.token \in DOMAIN w1.rts /\ w1.rts[e.token].client = e.client
                   THEN RefreshAll([w1 EXCEPT !.rts = Drop(@, e.token),
                                              !.revoked = @ \cup {e.token}])
                   ELSE w1]
    [] OTHER -> [w |-> w0, v |-> {<<"C10", "unknown adapter call " \o e.m>>}]

-----------------------------------------------------------------------------
(* the environment                                                            *)

Env(e) ==
  [v |-> {},
   w |-> RefreshAll(
     CASE e.op = "now" -> [st EXCEPT !.now = e.v]
       [] e.op = "deluser" -> [st EXCEPT !.users = @ \ {e.u}]
       [] e.op = "adduser" -> [st EXCEPT !.users = @ \cup {e.u}]
       [] e.op = "client" -> [st EXCEPT !.clients = Put(@, e.c.id, e.c)]
       [] e.op = "key" -> [st EXCEPT !.key = [alg |-> e.alg, kid |-> e.kid]]
       [] e.op = "delclient" -> [st EXCEPT !.clients = Drop(@, e.id)]
       [] OTHER -> st)]

-----------------------------------------------------------------------------
(* end of a request                                                           *)

Prefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a

(* The parameters a redirect adds to uri, if it goes there at all.            *)
GoesTo(e, uri) ==
  /\ uri # "" /\ uri \in DOMAIN Lex.uri
  /\ e.loc.base = Lex.uri[uri].base
  /\ Prefix(Lex.uri[uri].pairs, e.loc.pairs)
Added(e, uri) == SubSeq(e.loc.pairs, Len(Lex.uri[uri].pairs) + 1, Len(e.loc.pairs))
Vals(p, k) == SelectSeq(p, LAMBDA x : x[1] = k)

AllowedErrors(q) == ErrorsOfAll(q.dE) \cup q.ferrs

(* A refusal must be justified and name a defect.                             *)
RefusalV(q, error) ==
  IF q.ferrs # {} \/ q.dE # {}
  THEN IF error \in AllowedErrors(q) THEN {} ELSE {<<"C10", "error code " \o error>>} \cup
         (IF q.dE \cap {"auth"} # {} /\ q.dE \ {"auth"} = {} THEN {<<"C06", "error code " \o error>>} ELSE {}) \cup
         (IF q.dE # {} /\ q.dE \subseteq {"unsupportedscope", "unallowedscope", "broaderscope"}
          THEN {<<"C05", "error code " \o error>>} ELSE {}) \cup
         (IF q.dE # {} /\ q.dE \subseteq {"unsupportedtype", "unregisteredtype", "unsupportedgrant",
                              "unregisteredgrant", "publiccredentials"}
          THEN {<<"C07", "error code " \o error>>} ELSE {}) \cup
         (IF q.dE = {"badhint"} THEN {<<"C09", "error code " \o error>>} ELSE {})
  ELSE {<<p, "refused without defect: " \o error>> : p \in RefusedProps(q.rq, error)}

StateV(q, p) ==
  LET x == Vals(p, "state") IN
  IF q.rq.eff["state"] = ""
  THEN (IF x = <<>> THEN {} ELSE {<<"C11", "state though none was sent">>})
  ELSE IF Len(x) = 1 /\ x[1][2] = q.rq.eff["state"] THEN {} ELSE {<<"C11", "state">>}

RedirectV(q, e) ==
  LET uri == q.rq.eff["redirect_uri"]
      toClient == GoesTo(e, uri)
      toError  == GoesTo(e, Cfg.error)
      p == IF toClient THEN Added(e, uri) ELSE IF toError THEN Added(e, Cfg.error) ELSE e.loc.pairs
      codes == Vals(p, "code")
      errs == Vals(p, "error")
      granted == codes # <<>>
  IN
  (IF e.status # 303 THEN {<<"C10", "redirect status">>} ELSE {}) \cup
  (IF ~toClient /\ ~toError
   THEN {<<"C04", "redirected elsewhere">>} \cup
        (IF q.dA \cap Fatal = {} THEN {<<"C11", "redirect URI not intact">>} ELSE {})
   ELSE {}) \cup
  (IF toClient /\ q.dA \cap Fatal # {}
   THEN {<<"C04", "redirected to an unvalidated URI">>} ELSE {}) \cup
  (IF toClient THEN StateV(q, p) ELSE {}) \cup
  (IF ~toClient /\ granted THEN {<<"C04", "code sent elsewhere">>} ELSE {}) \cup
  (IF toError /\ ~toClient /\ (Len(errs) # 1 \/ errs[1][2] = "")
   THEN {<<"C04", "error page without error">>} ELSE {}) \cup
  (IF toClient /\ (Len(errs) + Len(codes) # 1 \/ (errs # <<>> /\ errs[1][2] = ""))
   THEN {<<"C11", "not exactly one of code and error">>,
         <<"C10", "malformed authorization response">>} ELSE {}) \cup
  (IF granted
   THEN Blame(q, q.dA, "granted despite ") \cup
        (IF q.rq.ep = "consent" THEN {<<"C26", "consent grants a code">>} ELSE
         IF q.saves = <<>> THEN {<<"C03", "code was not stored">>}
         ELSE IF q.saves[Len(q.saves)].code # codes[1][2] \/ ~q.saves[Len(q.saves)].done
         THEN {<<"C03", "code is not the stored one">>, <<"C11", "code is not the stored one">>} ELSE {}) \cup
        (IF q.ferrs # {} THEN {<<"C10", "adapter error not rendered">>} ELSE {})
   ELSE IF errs # <<>> THEN RefusalV(q, errs[1][2]) ELSE {})

SecHeaders(e) == e.cache = "no-store" /\ e.pragma = "no-cache"

TokenOkV(q, e) ==
  LET b == e.body  a == q.access  rq == q.rq  c == rq.eff["code"] IN
  Blame(q, q.dA, "granted despite ") \cup
  (IF "nocode" \in q.dA /\ c \in st.shown THEN {<<"C01", "used code granted">>} ELSE {}) \cup
  (IF rq.eff["grant_type"] = "authorization_code" /\ c \in st.succ
   THEN {<<"C01", "code redeemed twice">>} ELSE {}) \cup
  (IF q.ferrs # {} THEN {<<"C10", "adapter error not rendered">>} ELSE {}) \cup
  (IF e.ctype # "application/json" \/ ~SecHeaders(e) \/ e.status # 200
   THEN {<<"C12", "status or headers">>, <<"C10", "status or headers">>} ELSE {}) \cup
  (IF a = <<>> THEN {<<"C12", "no access token was minted">>}
   ELSE IF b.access_token # a[Len(a)].token THEN {<<"C12", "access token">>} ELSE {}) \cup
  (IF b.token_type # "Bearer" THEN {<<"C12", "token type">>} ELSE {}) \cup
  (IF b.expires_in # Cfg.lifespan THEN {<<"C12", "lifetime">>} ELSE {}) \cup
  (IF b.refresh_token = ""
   THEN (IF q.refresh # <<>> THEN {<<"C12", "refresh token withheld">>} ELSE {}) \cup
        (IF FALSE \notin q.due THEN {<<"C12", "refresh token missing">>} ELSE {})
   ELSE (IF q.refresh = <<>> \/ b.refresh_token # q.refresh[Len(q.refresh)].token
         THEN {<<"C12", "refresh token">>} ELSE {})) \cup
  (IF a = <<>> THEN {}
   ELSE LET got == Range(a[Len(a)].scopes) IN
        IF b.hasscope THEN (IF Range(b.scope) # got THEN {<<"C12", "scope">>} ELSE {})
        ELSE IF got \notin q.implied /\ got # {} THEN {<<"C12", "scope missing">>} ELSE {}) \cup
  (LET openid == Cfg.oidc /\ rq.eff["grant_type"] = "authorization_code"
                 /\ a # <<>> /\ "openid" \in Range(a[Len(a)].scopes)
       i == e.idt IN
   IF ~openid THEN (IF i.present THEN {<<"C13", "ID token though not openid">>} ELSE {})
   ELSE IF ~i.present THEN {<<"C13", "ID token missing">>}
   ELSE (IF ~i.sig THEN {<<"C13", "ID token signature">>} ELSE {}) \cup
        (IF [alg |-> i.alg, kid |-> i.kid] \notin q.keys THEN {<<"C13", "ID token algorithm or key id">>} ELSE {}) \cup
        (IF i.iss # Cfg.issuer THEN {<<"C13", "issuer">>} ELSE {}) \cup
        (IF i.aud \notin q.ids THEN {<<"C13", "audience">>} ELSE {}) \cup
        (IF <<"user", i.sub>> \notin q.owners \/ Range(i.scp) # Range(a[Len(a)].scopes)
         THEN {<<"C13", "user claims">>} ELSE {}) \cup
        (IF i.nonce \notin q.nonces THEN {<<"C13", "nonce">>} ELSE {}) \cup
        (IF \A n \in q.nows : i.iat # n \div 1000 THEN {<<"C13", "iat">>} ELSE {}) \cup
        (IF i.exp - i.iat # Cfg.idlife THEN {<<"C13", "exp">>} ELSE {}) \cup
        (IF ~i.athash THEN {<<"C13", "at_hash">>} ELSE {}))

TokenV(q, e) ==
  IF e.bodykind # "json" THEN {<<"C10", "token response is not a JSON object">>}
  ELSE IF e.body.error # ""
  THEN RefusalV(q, e.body.error) \cup
       (IF e.status = 400 \/ (e.status = 401 /\ e.body.error = "invalid_client") THEN {}
        ELSE {<<"C10", "error status">>}) \cup
       (IF SecHeaders(e) /\ e.ctype = "application/json" THEN {} ELSE {<<"C10", "error headers">>}) \cup
       (IF e.body.access_token # "" \/ e.body.refresh_token # ""
        THEN {<<"C10", "tokens in an error">>} ELSE {})
  ELSE IF e.body.access_token = "" THEN {<<"C10", "neither tokens nor error">>}
  ELSE TokenOkV(q, e)

RevocationV(q, e) ==
  IF e.bodykind = "json" /\ e.body.error # ""
  THEN RefusalV(q, e.body.error) \cup
       (IF e.status = 400 \/ (e.status = 401 /\ e.body.error = "invalid_client") THEN {}
        ELSE {<<"C10", "error status">>}) \cup
       (IF e.body.error = "invalid_client" /\ e.status # 401 THEN {<<"C09", "status for invalid_client">>} ELSE {}) \cup
       (IF e.ctype = "application/json" THEN {} ELSE {<<"C10", "error headers">>})
  ELSE (IF e.status # 200 THEN {<<"C09", "status">>, <<"C10", "status">>} ELSE {}) \cup
       Blame(q, q.dA \ (IF "notoken" \in q.dA THEN {"notoken", "badhint"} ELSE {}), "accepted despite ") \cup
       (IF q.dE = {} /\ (q.revs = <<>> \/ ~q.revs[1].done) THEN {<<"C09", "nothing was revoked">>} ELSE {}) \cup
       (IF q.ferrs # {} THEN {<<"C10", "adapter error not rendered">>} ELSE {})

ConsentV(q, e) ==
  LET got == Range(e.scopes) IN
  {<<"C26", "consent data despite " \o d>> : d \in q.dA} \cup
  (IF e.client # q.rq.eff["client_id"] THEN {<<"C26", "client">>} ELSE {}) \cup
  (IF got \ Asked(Lex, q.rq) # {} THEN {<<"C26", "scope that was not requested">>} ELSE {}) \cup
  (IF q.dA = {} /\ \A c \in q.cons : got \ c # {}
   THEN {<<"C26", "scope that is not allowed">>} ELSE {}) \cup
  (IF q.full = {} /\ got # Asked(Lex, q.rq) THEN {<<"C26", "scopes">>} ELSE {}) \cup
  (IF q.ferrs # {} THEN {<<"C10", "adapter error not rendered">>} ELSE {})

(* A request without defect that gets no proper answer is refused, too.       *)
NoAnswerV(q, text) ==
  {<<p, text>> : p \in {"C10"} \cup (IF q.dE = {} /\ q.faults = {} THEN RefusedProps(q.rq, "") ELSE {})}

HardFault(q) == \E f \in q.faults : f[1] \in {"raise", "cancel"}

(* By the end of a presentation its code is gone (C01).                       *)
ConsumedV(q, e) ==
  LET c == q.rq.eff["code"]
      others == {r \in DOMAIN st.reqs \ {e.r} :
                   TRUE \in st.reqs[r].pres /\ st.reqs[r].rq.eff["code"] = c}
  IN IF /\ FALSE \notin q.pres /\ "gray" \notin q.dE
        /\ \A f \in q.faults : f[2] # "find_client"
        /\ c \in DOMAIN st.codes /\ c \notin st.exempt /\ others = {}
        /\ e.kind # "hang"
     THEN {<<"C01", "code still stored after it was presented">>} ELSE {}

(* A response reveals nothing kept by the application or the provider except  *)
(* what was minted for its own request; what the request carried is no news.  *)
(* Facts about stored codes and tokens may show only where they are granted.  *)
MintedFor(q) == {q.access[i].token : i \in DOMAIN q.access} \cup {q.refresh[i].token : i \in DOMAIN q.refresh}
             \cup {q.saves[i].code : i \in DOMAIN q.saves}
RevealV(q, e) ==
  LET refused == e.body.error # "" \/ (q.rq.ep # "token" /\ ~e.hascode)
      news == {x \in Range(e.found) : ~x.given /\
                 CASE x.kind \in {"code", "access", "refresh"} -> x.v \notin MintedFor(q)
                   [] x.kind = "fact" -> refused
                   [] OTHER -> TRUE}
  IN {<<"C29", "response reveals " \o x.kind>> : x \in news}

EndV(q, e) ==
  ConsumedV(q, e) \cup
  CASE e.kind = "hang" -> NoAnswerV(q, "no answer")
    [] e.kind = "exc" -> IF HardFault(q) THEN {} ELSE NoAnswerV(q, "raised " \o e.what)
    [] e.kind = "cancelled" -> IF HardFault(q) THEN {} ELSE {<<"C10", "cancelled itself">>}
    [] e.kind = "consent" -> IF q.rq.ep = "consent" THEN ConsentV(q, e)
                             ELSE {<<"C10", "not a response">>}
    [] e.kind = "resp" ->
         (IF e.wwwauth /\ e.body.error # "invalid_client"
          THEN {<<"C10", "WWW-Authenticate without invalid_client">>} ELSE {}) \cup
         (IF e.leak # <<>> THEN {<<"C15", "response carries data of another request">>} ELSE {}) \cup
         RevealV(q, e) \cup
         (IF e.solo # "" /\ e.solo # e.digest THEN {<<"C15", "outcome differs from running alone">>} ELSE {}) \cup
         IF HardFault(q) /\ (e.status # 200 \/ q.rq.ep = "revoke") /\ ~e.hascode THEN {}
         ELSE CASE q.rq.ep \in {"authorize", "consent"} ->
                     IF ~e.hasloc THEN {<<"C10", "no redirect">>} ELSE RedirectV(q, e)
                [] q.rq.ep = "token" -> TokenV(q, e)
                [] q.rq.ep = "revoke" -> RevocationV(q, e)
    [] OTHER -> NoAnswerV(q, "not a response")

Granted(q, e) == /\ e.kind = "resp" /\ q.rq.ep = "token" /\ e.bodykind = "json"
                 /\ e.status = 200 /\ e.body.access_token # ""

End(e) ==
  IF e.r \notin DOMAIN st.reqs THEN [w |-> st, v |-> {<<"C10", "answer without request">>}]
  ELSE
  LET q == st.reqs[e.r]
      c == q.rq.eff["code"]
      code == q.rq.ep = "token" /\ q.rq.eff["grant_type"] = "authorization_code"
  IN [v |-> EndV(q, e),
      w |-> [st EXCEPT !.reqs = Drop(@, e.r),
                       !.shown = IF TRUE \in q.pres THEN @ \cup {c} ELSE @,
                       !.succ = IF code /\ Granted(q, e) THEN @ \cup {c} ELSE @]]

-----------------------------------------------------------------------------
(* statistics of issued codes (C03)                                           *)

Stats(e) ==
  [w |-> st,
   v |-> (IF e.repeats > 0 THEN {<<"C03", "codes repeat">>} ELSE {}) \cup
         (IF e.reseeded > 0 THEN {<<"C03", "codes depend on clock, data or seedable generators">>} ELSE {}) \cup
         (IF e.bits < 125 THEN {<<"C03", "codes are predictable">>} ELSE {})]

-----------------------------------------------------------------------------

Step(e) ==
  CASE e.e = "start" -> Start(e)
    [] e.e = "call"  -> Call(e)
    [] e.e = "env"   -> Env(e)
    [] e.e = "end"   -> End(e)
    [] e.e = "stats" -> Stats(e)
=============================================================================
