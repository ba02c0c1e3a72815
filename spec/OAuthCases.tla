------------------------------ MODULE OAuthCases ------------------------------
(* The input space of the endpoints as a product of finitely many dimensions. *)
(* A case of a family is its default - a request that must be granted - with  *)
(* at most MaxDev dimensions changed.  Each case has a meaning in the terms   *)
(* of OAuthRules, from which its defects follow; the ASSUME at the end shows  *)
(* that every defect the rules know occurs alone in some case, so that no     *)
(* rule can be dropped from the code without some case telling.  TLC          *)
(* enumerates the cases and prints them; the harness makes concrete requests  *)
(* of them, and the trace specification checks that these have exactly the    *)
(* defects predicted here.                                                    *)
EXTENDS OAuthRules, Json

CONSTANTS MaxDev,    \* how many dimensions may differ from the default
          Families   \* which families to enumerate

D(n, v) == [n |-> n, v |-> v]

UriNears == <<"prefix", "suffix", "case", "slash", "query", "port", "userinfo", "scheme", "subdomain", "path", "pct", "frag">>
Nears == <<"near_case", "near_prefix", "near_suffix", "near_space">>
ScopeNears == <<"near_case", "near_prefix", "near_suffix">>

AuthDim == D("auth", <<"ok", "absent", "wrong", "near_case", "near_prefix", "near_suffix", "near_space", "near_form", "near_norm", "near_pct", "near_wide", "empty",
                       "othersecret", "otherclient", "unknown", "nearid", "moved", "nosecret", "extrasecret",
                       "inurl", "two", "twowrong", "junkonly", "scheme", "hdrcase", "bearer">>)
GtypeDim == D("gtype", <<"ok", "absent", "unknown">> \o Nears)
RegDim == D("regg", <<"all", "nocode", "norefresh", "nocred", "none">>)
OfferDim == D("offered", <<"all", "nocode", "norefresh", "nocred">>)
MethodDim == D("cmethod", <<"client_secret_basic", "client_secret_post", "none", "noneset">>)
TzDim == D("tz", <<"UTC", "Asia/Kolkata", "America/Los_Angeles">>)
TransDim == D("transport", <<"direct", "asgi">>)

DimsOf(f) ==
  CASE f \in {"authorize", "consent"} ->
    << D("login", <<"user", "none">>),
       D("client", <<"A", "absent", "unknown", "B">> \o Nears),
       D("redir", <<"ok", "second", "absent", "foreign", "other">> \o UriNears),
       D("urikind", <<"plain", "query", "port", "custom", "ipv6", "local", "escaped", "root", "bare", "dir", "odd", "qend", "long">>),
       D("rtype", <<"code", "absent", "token", "idtoken">> \o Nears),
       D("regr", <<"code", "token", "both", "none">>),
       D("offered", <<"all", "nocode", "codeonly">>),
       D("chal", <<"s256", "len43", "len128", "len42", "len129", "len1", "absent", "space43", "space50", "space129", "padded">>),
       D("method", <<"S256", "plain", "absent", "lower", "upper", "other", "suffix">>),
       D("scope", <<"one", "two", "rev", "dup", "openid", "openidx", "absent", "q", "x", "bad", "one q",
                    "q one", "one x", "x one", "three", "mid q", "mid x", "mid bad", "many", "many q", "many x", "many bad">> \o ScopeNears),
       D("state", <<"plain", "absent", "reserved", "unicode", "long", "inject", "plus", "blank">>),
       D("nonce", <<"absent", "plain", "unicode", "long", "spaced">>),
       D("place", <<"query", "body", "split", "shadow", "dup", "bodywins", "blank">>),
       D("oidc", <<"on", "off">>),
       D("extra", <<"nothing", "urls", "facts", "many">>),
       TransDim >>
  [] f = "redeem" ->
    << D("code", <<"ok", "absent", "unknown", "foreign", "used", "expired", "atexp", "justbefore">> \o Nears),
       D("redir", <<"ok", "absent", "second", "foreign", "suffix", "case", "slash", "query", "port", "prefix",
                    "reg_slash", "reg_case", "reg_query", "reg_port", "reg_suffix", "reg_scheme", "reg_pct", "reg_frag">>),
       D("redirreg", <<"both", "removed">>),
       D("verifier", <<"ok", "absent", "wrong", "challenge", "padded", "nonascii">> \o Nears),
       D("smeth", <<"S256", "plain", "unknown">>),
       D("schal", <<"fit", "padded", "std", "hex", "swapped">> \o Nears),
       AuthDim, MethodDim, GtypeDim, RegDim, OfferDim,
       D("cscopes", <<"r w", "openid r", "openidx r", "r openid", "openid", "r">>),
       D("user", <<"there", "gone">>),
       D("nonce", <<"absent", "plain", "unicode", "long", "spaced">>),
       D("extra", <<"nothing", "scope", "refresh_token", "client_id_query", "state", "nonce", "urls", "facts", "many">>),
       D("alg", <<"HS256", "HS512", "RS256", "PS384", "ES256", "ES512", "HS384", "ES384">>),
       D("kid", <<"set", "unset">>),
       D("rotated", <<"no", "key", "alg">>),
       D("oidc", <<"on", "off">>),
       D("place", <<"body", "query", "split", "dup", "bodywins">>),
       TzDim, TransDim >>
  [] f = "refresh" ->
    << D("rt", <<"ok", "absent", "unknown", "foreign", "expired", "atexp", "justbefore", "revoked", "code">> \o Nears),
       D("scope", <<"absent", "same", "rev", "sub", "dup", "broader", "sub broader", "broader sub", "q", "x", "bad",
                    "sub q", "heldq", "heldx", "three", "mid broader", "mid bad", "many", "many broader", "many bad">> \o ScopeNears),
       D("narrow", <<"all", "sub", "other">>),
       AuthDim, MethodDim, GtypeDim, RegDim, OfferDim,
       D("user", <<"there", "gone">>),
       D("oidc", <<"off", "on">>),
       D("extra", <<"nothing", "urls", "facts", "many">>),
       D("place", <<"body", "query", "split", "dup", "bodywins">>),
       TzDim, TransDim >>
  [] f = "cred" ->
    << D("scope", <<"absent", "one", "two", "rev", "dup", "q", "x", "bad", "one q", "q one", "one x", "x one", "three", "mid q",
                    "mid x", "mid bad", "many", "many q", "many x", "many bad">> \o ScopeNears),
       D("narrow", <<"all", "sub", "none">>),
       D("extra", <<"nothing", "urls", "facts", "many">>),
       AuthDim, MethodDim, GtypeDim, RegDim, OfferDim,
       D("place", <<"body", "query", "split", "dup", "bodywins">>),
       TransDim >>
  [] f = "revoke" ->
    << D("token", <<"rt", "at", "unknown", "foreign", "absent", "inurl", "unicode", "odd", "scheme", "code">> \o Nears),
       D("extra", <<"nothing", "urls", "facts", "many">>),
       D("hint", <<"absent", "refresh_token", "access_token", "other", "inurl">> \o Nears),
       AuthDim, MethodDim, RegDim, OfferDim,
       D("place", <<"body", "dup", "bodywins">>),
       TransDim >>

FamNames == {"authorize", "consent", "redeem", "refresh", "cred", "revoke"}
DimTab == [f \in FamNames |-> DimsOf(f)]
Dims(f) == DimTab[f]
NDim(f) == Len(DimTab[f])
IdxTab == [f \in FamNames |-> [n \in {DimTab[f][j].n : j \in 1..NDim(f)} |-> CHOOSE j \in 1..NDim(f) : DimTab[f][j].n = n]]

(* A case: for each dimension the index of its value.                         *)
Case(f, c) == [i \in 1..NDim(f) |-> Dims(f)[i].v[c[i]]]
Val(f, c, n) == LET i == IdxTab[f][n] IN DimTab[f][i].v[c[i]]
Has(f, n) == n \in DOMAIN IdxTab[f]

Default(f) == [i \in 1..NDim(f) |-> 1]

(* All cases with exactly k changes at dimensions greater than i.             *)
RECURSIVE Changes(_, _, _, _)
Changes(f, c, i, k) ==
  IF k = 0 THEN {c}
  ELSE UNION {UNION {Changes(f, [c EXCEPT ![j] = x], j, k - 1) : x \in 2..Len(Dims(f)[j].v)} : j \in (i + 1)..NDim(f)}

-----------------------------------------------------------------------------
(* Meaning.                                                                   *)

Near == {"near_case", "near_prefix", "near_suffix", "near_space"}
All3 == <<"authorization_code", "refresh_token", "client_credentials">>
Without(x) == SelectSeq(All3, LAMBDA g : g # x)
Grants(v) == CASE v = "all" -> All3
               [] v = "nocode" -> Without("authorization_code")
               [] v = "norefresh" -> Without("refresh_token")
               [] v = "nocred" -> Without("client_credentials")
               [] v = "codeonly" -> <<"authorization_code">>
               [] v = "none" -> <<>>

Supported == <<"r", "w", "openid", "openidx", "x">>
Allowed == <<"r", "w", "openid", "openidx", "q">>
Held == <<"r", "w", "openidx">>           \* of the refresh token

ScopeText(v) ==
  CASE v = "absent" -> "" [] v = "one" -> "r" [] v = "two" -> "r w" [] v = "rev" -> "w r" [] v = "dup" -> "r r"
    [] v = "openid" -> "openid r" [] v = "openidx" -> "openidx r" [] v = "q" -> "q" [] v = "x" -> "x"
    [] v = "bad" -> "bad" [] v = "one q" -> "r q" [] v = "q one" -> "q r" [] v = "one x" -> "r x"
    [] v = "x one" -> "x r" [] v = "same" -> "r w" [] v = "sub" -> "r" [] v = "broader" -> "openid"
    [] v = "sub broader" -> "r openid" [] v = "broader sub" -> "openid r" [] v = "sub q" -> "r q" [] v = "heldq" -> "q" [] v = "heldx" -> "x"
    [] v = "three" -> "w r openidx" [] v = "mid q" -> "r q w" [] v = "mid x" -> "r x w" [] v = "mid bad" -> "r bad w"
    [] v = "mid broader" -> "r openid w"
    [] v = "many" -> "r w" [] v = "many q" -> "r q" [] v = "many x" -> "r x" [] v = "many bad" -> "r bad w" [] v = "many broader" -> "r openid"
    [] v \in Near -> "bad"
ScopeItems(t) ==
  CASE t = "" -> <<>> [] t = "r" -> <<"r">> [] t = "r w" -> <<"r", "w">> [] t = "w r" -> <<"w", "r">>
    [] t = "r r" -> <<"r", "r">> [] t = "openid r" -> <<"openid", "r">> [] t = "openidx r" -> <<"openidx", "r">>
    [] t = "q" -> <<"q">> [] t = "x" -> <<"x">> [] t = "bad" -> <<"bad">> [] t = "r q" -> <<"r", "q">>
    [] t = "q r" -> <<"q", "r">> [] t = "r x" -> <<"r", "x">> [] t = "x r" -> <<"x", "r">>
    [] t = "openid" -> <<"openid">> [] t = "r openid" -> <<"r", "openid">>
    [] t = "w r openidx" -> <<"w", "r", "openidx">> [] t = "r q w" -> <<"r", "q", "w">> [] t = "r x w" -> <<"r", "x", "w">>
    [] t = "r bad w" -> <<"r", "bad", "w">> [] t = "r openid w" -> <<"r", "openid", "w">>
Texts == {"", "r", "r w", "w r", "r r", "openid r", "openidx r", "q", "x", "bad", "r q", "q r", "r x", "x r",
          "openid", "r openid", "w r openidx", "r q w", "r x w", "r bad w", "r openid w"}

Lexicon == [scope |-> [t \in Texts |-> ScopeItems(t)],
            len |-> [t \in {"", "c43", "c128", "c42", "c129", "c1"} |->
                       CASE t = "" -> 0 [] t = "c43" -> 43 [] t = "c128" -> 128 [] t = "c42" -> 42
                         [] t = "c129" -> 129 [] t = "c1" -> 1],
            s256 |-> [v \in {"", "v", "h", "w", "v'", "h'"} |-> IF v = "v" THEN "h" ELSE "h-" \o v],
            uri |-> <<>>]

ClientB == [id |-> "B", secret |-> "sb", hassecret |-> TRUE, method |-> "client_secret_basic", grants |-> All3,
            rtypes |-> <<"code">>, redirs |-> <<"ub">>, scopes |-> Supported]

(* Credentials: what the request claims.                                      *)
Credentials(how, m) ==
  LET B(id, sec) == [auth |-> [kind |-> "basic", id |-> id, secret |-> sec], id |-> "", secret |-> ""]
      P(id, sec) == [auth |-> [kind |-> "none", id |-> "", secret |-> ""], id |-> id, secret |-> sec]
      Same(id, sec) == IF m = "client_secret_basic" THEN B(id, sec)
                       ELSE IF m = "client_secret_post" THEN P(id, sec) ELSE P(id, "")
      Nothing == P("", "")
  IN CASE how \in {"ok", "scheme", "hdrcase"} -> Same("A", "sa")
       [] how \in {"absent", "inurl", "bearer"} -> Nothing
       [] how \in {"wrong", "near_form", "near_norm", "near_pct", "near_wide"} \cup Near -> IF m = "none" THEN P("A", "sx") ELSE Same("A", "sx")
       [] how = "empty" -> IF m = "client_secret_basic" THEN B("A", "")
                           ELSE IF m = "client_secret_post" THEN P("A", "") ELSE B("A", "")
       [] how = "othersecret" -> IF m = "none" THEN P("A", "sb") ELSE Same("A", "sb")
       [] how = "otherclient" -> B("B", "sb")
       [] how = "unknown" -> Same("Z", "sa")
       [] how = "nearid" -> Same("A'", "sa")
       [] how = "moved" -> IF m = "client_secret_basic" THEN P("A", "sa") ELSE B("A", "sa")
       [] how = "nosecret" -> P("A", "")
       [] how = "extrasecret" -> P("A", "sx")
       [] how = "two" -> [B("A", "sa") EXCEPT !.id = "A", !.secret = "sa"]
       [] how = "twowrong" -> [B("A", "sa") EXCEPT !.id = "A", !.secret = "sx"]
       [] how = "junkonly" -> [Nothing EXCEPT !.auth.kind = "junk"]

None == [k \in PNames |-> ""]
RegNear == {"reg_slash", "reg_case", "reg_query", "reg_port", "reg_suffix", "reg_scheme", "reg_pct", "reg_frag"}

AuthorizeMeaning(f, c) ==
  LET v(n) == Val(f, c, n)
      ru == CASE v("redir") = "ok" -> "ua" [] v("redir") = "second" -> "ua2" [] v("redir") = "absent" -> ""
              [] v("redir") = "foreign" -> "ub" [] OTHER -> "unear"
      id == CASE v("client") = "A" -> "A" [] v("client") = "B" -> "B" [] v("client") = "absent" -> "" [] OTHER -> "Z"
      ch == CASE v("chal") = "absent" -> "" [] v("chal") \in {"s256", "len43", "space43", "space50", "padded"} -> "c43" [] v("chal") = "len128" -> "c128"
              [] v("chal") = "len42" -> "c42" [] v("chal") \in {"len129", "space129"} -> "c129" [] v("chal") = "len1" -> "c1"
      me == CASE v("method") = "absent" -> "" [] v("method") \in {"S256", "plain"} -> v("method") [] OTHER -> "mx"
      rt == CASE v("rtype") = "absent" -> "" [] v("rtype") \in {"code", "token"} -> v("rtype") [] OTHER -> "rx"
      reg == CASE v("regr") = "code" -> <<"code">> [] v("regr") = "token" -> <<"token">>
               [] v("regr") = "both" -> <<"token", "code">> [] v("regr") = "none" -> <<>>
      gr == Grants(v("offered"))
      A == [id |-> "A", secret |-> "sa", hassecret |-> TRUE, method |-> "client_secret_basic", grants |-> All3,
            rtypes |-> reg, redirs |-> <<"ua", "ua2">>, scopes |-> Allowed]
  IN [cfg |-> [scopes |-> Supported, grants |-> gr,
               rtypes |-> IF "authorization_code" \in Range(gr) THEN <<"code">> ELSE <<>>],
      st |-> [clients |-> [x \in {"A", "B"} |-> IF x = "A" THEN A ELSE ClientB], users |-> {"u"}, now |-> 0,
              codes |-> <<>>, rts |-> <<>>],
      rq |-> [ep |-> f, auth |-> Credentials("absent", "none").auth, body |-> None,
              user |-> IF v("login") = "user" THEN "u" ELSE "",
              eff |-> [None EXCEPT !["response_type"] = rt, !["client_id"] = id, !["redirect_uri"] = ru,
                                   !["scope"] = ScopeText(v("scope")), !["code_challenge"] = ch,
                                   !["code_challenge_method"] = me]]]

TokenMeaning(f, c) ==
  LET v(n) == Val(f, c, n)
      m == IF v("cmethod") = "noneset" THEN "none" ELSE v("cmethod")
      usable == v("cmethod") # "noneset"   \* such a client can do nothing, nor use anything up beforehand
      cr == Credentials(v("auth"), m)
      gr == IF Has(f, "offered") THEN Grants(v("offered")) ELSE All3
      own == CASE f = "redeem" -> "authorization_code" [] f = "refresh" -> "refresh_token"
               [] f = "cred" -> "client_credentials" [] OTHER -> ""
      gt == IF ~Has(f, "gtype") THEN "" ELSE CASE v("gtype") = "ok" -> own [] v("gtype") = "absent" -> "" [] OTHER -> "gx"
      allowed == IF ~Has(f, "narrow") THEN Allowed
                 ELSE CASE v("narrow") = "all" -> Allowed [] v("narrow") = "sub" -> <<"r">> [] v("narrow") = "none" -> <<>> [] OTHER -> <<"openid">>
      A == [id |-> "A", secret |-> IF v("cmethod") = "none" THEN "" ELSE "sa", hassecret |-> v("cmethod") # "none",
            method |-> m, grants |-> Grants(v("regg")), rtypes |-> <<"code">>,
            redirs |-> (IF f = "redeem" /\ v("redirreg") = "removed" THEN <<"ua2">> ELSE <<"ua", "ua2">>)
                       \o (IF f = "redeem" /\ v("redir") \in RegNear THEN <<"ureg">> ELSE <<>>),
            scopes |-> allowed]
      life(x) == IF x = "expired" THEN -1 ELSE IF x = "atexp" THEN 0 ELSE 1
      chal == IF f # "redeem" THEN "" ELSE (IF v("smeth") = "plain" THEN "v" ELSE "h") \o (IF v("schal") = "fit" THEN "" ELSE "'")
      code == IF f # "redeem" \/ (v("code") = "used" /\ usable) THEN <<>>
              ELSE [x \in {"k"} |-> [client |-> IF v("code") = "foreign" THEN "B" ELSE "A", user |-> "u", redir |-> "ua",
                      scopes |-> <<"r">>, chal |-> chal,
                      meth |-> IF v("smeth") = "unknown" THEN "mx" ELSE v("smeth"), exp |-> life(v("code"))]]
      rts == IF f \notin {"refresh", "revoke"} \/ (f = "refresh" /\ v("rt") = "revoked" /\ usable) THEN <<>>
             ELSE [x \in {"t"} |-> [client |-> IF f = "refresh" /\ v("rt") = "foreign" THEN "B" ELSE "A", user |-> "u",
                     scopes |-> Held \o (IF f = "refresh" /\ v("scope") = "heldq" THEN <<"q">> ELSE <<>>)
                                     \o (IF f = "refresh" /\ v("scope") = "heldx" THEN <<"x">> ELSE <<>>), exp |-> IF f = "refresh" THEN life(v("rt")) ELSE 1]]
      ver == IF f # "redeem" THEN ""
             ELSE CASE v("verifier") = "ok" -> "v" [] v("verifier") = "absent" -> ""
                    [] v("verifier") = "challenge" -> chal [] OTHER -> "w"
      ru == IF f # "redeem" THEN ""
            ELSE CASE v("redir") = "ok" -> "ua" [] v("redir") = "absent" -> "" [] v("redir") = "second" -> "ua2"
                   [] v("redir") = "foreign" -> "ub" [] v("redir") \in RegNear -> "ureg" [] OTHER -> "unear"
      kc == IF f # "redeem" THEN ""
            ELSE CASE v("code") = "absent" -> "" [] v("code") \in {"unknown"} \cup Near -> "kx" [] OTHER -> "k"
      tt == IF f # "refresh" THEN ""
            ELSE CASE v("rt") = "absent" -> "" [] v("rt") \in {"unknown", "code"} \cup Near -> "tx" [] OTHER -> "t"
      sc == IF ~Has(f, "scope") THEN "" ELSE ScopeText(v("scope"))
      tok == IF f # "revoke" THEN "" ELSE IF v("token") \in {"absent", "inurl"} THEN "" ELSE "t"
      hint == IF f # "revoke" THEN "" ELSE CASE v("hint") \in {"absent", "inurl"} -> ""
                                             [] v("hint") \in {"refresh_token", "access_token"} -> v("hint") [] OTHER -> "hx"
      creds == [None EXCEPT !["client_id"] = cr.id, !["client_secret"] = cr.secret, !["token"] = tok,
                            !["token_type_hint"] = hint]
  IN [cfg |-> [scopes |-> Supported, grants |-> gr, rtypes |-> <<"code">>],
      st |-> [clients |-> [x \in {"A", "B"} |-> IF x = "A" THEN A ELSE ClientB],
              users |-> IF Has(f, "user") /\ v("user") = "gone" THEN {} ELSE {"u"},
              now |-> 0, codes |-> code, rts |-> rts],
      rq |-> [ep |-> IF f = "revoke" THEN "revoke" ELSE "token", auth |-> cr.auth, user |-> "", body |-> creds,
              eff |-> [creds EXCEPT !["grant_type"] = gt, !["code"] = kc, !["redirect_uri"] = ru,
                                    !["code_verifier"] = ver, !["refresh_token"] = tt, !["scope"] = sc]]]

Meaning(f, c) == IF f \in {"authorize", "consent"} THEN AuthorizeMeaning(f, c) ELSE TokenMeaning(f, c)

DefectsOf(f, c) == LET m == Meaning(f, c) IN Defects(m.cfg, Lexicon, m.st, m.rq)
GrayOf(f, c) == LET m == Meaning(f, c) IN Grays(m.cfg, Lexicon, m.rq) # {}

-----------------------------------------------------------------------------
Fams == FamNames

ASSUME Families \subseteq Fams
ASSUME DefaultsAreGood == \A f \in Fams : DefectsOf(f, Default(f)) = {} /\ ~GrayOf(f, Default(f))

KnownDefects(f) ==
  LET authz == Fatal \cup {"noresponsetype", "unsupportedtype", "unregisteredtype", "noscope"}
      tok == {"auth", "nogranttype", "unsupportedgrant", "unregisteredgrant"} IN
  CASE f = "authorize" -> authz \cup {"nologin", "nochallenge", "challengelength", "badmethod",
                                      "unsupportedscope", "unallowedscope"}
    [] f = "consent" -> authz
    [] f = "redeem" -> tok \cup {"nocodeparam", "noredirectparam", "noverifier", "nocode", "redirectdiffers", "pkce",
                                 "pkcemethod", "codeexpired", "codeuser", "foreigncode", "redirectunregistered"}
    [] f = "refresh" -> tok \cup {"norefreshparam", "norefresh", "refreshexpired", "refreshuser", "foreignrefresh",
                                  "broaderscope", "unsupportedscope", "unallowedscope"}
    [] f = "cred" -> tok \cup {"publiccredentials", "unsupportedscope", "unallowedscope"}
    [] f = "revoke" -> {"auth", "notoken", "badhint"}

(* Every defect occurs alone within MaxDev changes (two suffice).             *)
Alone(f) == UNION {{DefectsOf(f, c) : c \in Changes(f, Default(f), 0, k)} : k \in 1..2}
ASSUME EveryDefectAlone ==
  MaxDev <= 2 => \A f \in Families : LET S == Alone(f) IN \A d \in KnownDefects(f) : {d} \in S \/ Print(<<"not alone", f, d>>, FALSE)

-----------------------------------------------------------------------------
VARIABLES fam, case
Init == /\ fam \in Families
        /\ \E k \in 0..MaxDev : case \in Changes(fam, Default(fam), 0, k)
Next == UNCHANGED <<fam, case>>
Spec == Init /\ [][Next]_<<fam, case>>

Dev(f, c) == LET I == {i \in 1..NDim(f) : c[i] # 1} IN
             [n \in {Dims(f)[i].n : i \in I} |-> Val(f, c, n)]
Report == PrintT("CASE " \o ToJson([f |-> fam, d |-> Dev(fam, case), x |-> DefectsOf(fam, case), g |-> GrayOf(fam, case)]))
Dimensions == [f \in Families |-> [i \in 1..NDim(f) |-> Dims(f)[i]]]
ASSUME PrintT("DIMS " \o ToJson(Dimensions))
=============================================================================
