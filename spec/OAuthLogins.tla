------------------------------ MODULE OAuthLogins -----------------------------
(* Three logins on one provider, one after the other or overlapping: whatever  *)
(* one of them lacks (a nonce, a state, openid, success) another one has, so    *)
(* that anything remembered from one and used for another shows.  Each case is  *)
(* a shape; harness/scheds.py makes it concrete.                                *)
EXTENDS CaseSpace, TLC, Json

CONSTANTS MaxDev

One(i) == <<D("client" \o i, IF i = "2" THEN <<"B", "A", "P">> ELSE <<"A", "B", "P">>),
            D("user" \o i, IF i = "3" THEN <<"v", "u">> ELSE <<"u", "v">>),
            D("nonce" \o i, <<"own", "absent", "first">>),
            D("state" \o i, <<"own", "absent", "first">>),
            D("scope" \o i, <<"openid r", "r", "openid", "w r", "openidx">>),
            D("out" \o i, <<"ok", "verifier", "scope", "redirect", "anon", "gone", "secret">>),
            D("meth" \o i, <<"S256", "plain">>),
            D("after" \o i, <<"nothing", "refresh", "narrow", "broad", "revoke", "again">>)>>
Dims == One("1") \o One("2") \o One("3") \o
        <<D("order", <<"turns", "nested", "reverse", "twofirst">>), D("oidc", <<"on", "off">>), D("way", <<"direct", "asgi">>),
          D("alg", <<"HS256", "HS512", "ES256", "RS384">>)>>
All == {Dims[i].n : i \in DOMAIN Dims}
Init == SpaceInit(Dims)
Next == SpaceNext(Dims, MaxDev, All, {})
Spec == Init /\ [][Next]_cvars
Report == PrintT("LOGINS " \o ToJson([j \in {k \in All : case[k] # Start(Dims)[k]} \cup {"order"} |-> case[j]]))
=============================================================================
