"""Concrete scenarios for the schedules of spec/OAuthSched.tla and the
behaviours of spec/OAuth.tla."""
import random

from cases import ALL3, KEYOF, UNRES, idlike, make_state, make_uri, scope_names, secretlike, word
from common import s256

OERR = ["invalid_request", "invalid_grant", "access_denied", "server_error", "temporarily_unavailable", "invalid_scope",
        "invalid_client", "unauthorized_client"]

# combinations of requests; @ marks combinations presenting one code
COMBOS = {
    "same": ["redA", "redA"], "same3": ["redA", "redA", "redA"], "wrongver": ["redA", "redAw"],
    "otherclient": ["redA", "redAB"], "badauth": ["redA", "redAx"], "badredir": ["redA", "redAr"],
    "pub": ["redP", "redP"], "sameB": ["redA", "redB", "redA"], "sameA2": ["redA", "redA2", "redA"],
    "sameP": ["redP", "redAx", "redP"], "one": ["redA"], "onepub": ["redP"], "onewrong": ["redAw"], "oneother": ["redAB"],
}
SOLO = ["autA", "autB", "autAbad", "autBnol", "conA", "conB", "redA2", "redB", "redPx", "refA", "refB", "refAs",
        "revA", "revB", "creA", "creB", "autA2"]
for i, x in enumerate(SOLO):
    COMBOS[x] = [x]
    for y in SOLO[i:]:
        if x == y and x.startswith("red"):      # one code
            continue
        COMBOS["%s+%s" % (x, y)] = [x, y]
for x, y, z in (("autA", "autB", "autAbad"), ("redA2", "redB", "refA"), ("refA", "refB", "creA"), ("redA2", "autA", "conB"),
                ("redB", "refAs", "revB"), ("autA", "redB", "creB")):
    COMBOS["%s+%s+%s" % (x, y, z)] = [x, y, z]


def rid(rng, n=10):
    return rng.choice("abcXYZ") + word(rng, n)


class SchedMaker:
    def __init__(self, seed):
        self.seed = seed
        self.cache = {}

    def base(self, combo, variant):
        """The plan of a combination without steps, the same for all schedules."""
        key = (combo, variant)
        if key in self.cache:
            return self.cache[key]
        rng = random.Random("%s|%s|%s" % (self.seed, combo, variant))
        nm = scope_names(rng)
        sup = [nm[i] for i in ("r", "w", "openid", "openidx", "x")]
        A, B, P = rid(rng), rid(rng), rid(rng)
        u, u2 = "user-" + rid(rng), "user-" + rid(rng)
        ua, ub, up = make_uri(rng, rng.choice(["plain", "query"])), make_uri(rng, "plain"), make_uri(rng, "custom")
        sa, sb = secretlike(rng), secretlike(rng)
        allowed = [nm[i] for i in ("r", "w", "openid", "openidx")]

        def client(i, s, m, ru):
            return dict(id=i, secret=s, hassecret=s is not None, method=m, grants=list(ALL3), rtypes=["code"], redirs=[ru],
                        scopes=list(allowed))
        cl = [client(A, sa, "client_secret_basic", ua), client(B, sb, "client_secret_post", ub), client(P, None, "none", up)]
        now = rng.randint(1, 1_000_000)
        ver = {k: word(rng, 50, UNRES) for k in ("kA", "kA2", "kB", "kP", "aA", "aB")}
        code = {k: rid(rng, 40) for k in ("kA", "kA2", "kB", "kP")}
        codes = [dict(code=code[k], client=c, user=us, redir=ru, scopes=[nm["openid"], nm["r"]] if k != "kP" else [nm["r"]],
                      chal=s256(ver[k]) if k != "kB" else ver[k], meth="S256" if k != "kB" else "plain",
                      nonce="nonce-" + rid(rng), exp=now + 3_600_000)
                 for k, c, us, ru in (("kA", A, u, ua), ("kA2", A, u2, ua), ("kB", B, u2, ub), ("kP", P, u, up))]
        rt = {k: rid(rng, 30) for k in ("tA", "tB", "tA2", "tB2")}
        rts = [dict(rt=rt["tA"], client=A, user=u, scopes=[nm["r"], nm["w"]], exp=now + 3_600_000),
               dict(rt=rt["tA2"], client=A, user=u, scopes=[nm["r"]], exp=now + 3_600_000),
               dict(rt=rt["tB"], client=B, user=u2, scopes=[nm["w"], nm["openid"]], exp=now + 3_600_000),
               dict(rt=rt["tB2"], client=B, user=u2, scopes=[nm["w"]], exp=now + 3_600_000)]
        aa = dict(kind="basic", id=A, secret=sa)
        bb = [["client_id", B], ["client_secret", sb]]
        pp = [["client_id", P]]
        alg = rng.choice(["HS256", "ES256", "HS512"])
        non = {c["code"]: c["nonce"] for c in codes}

        def red(k, ru, v=None):
            return [["grant_type", "authorization_code"], ["code", code[k]], ["redirect_uri", ru],
                    ["code_verifier", v or ver[k]]]

        def aut(c, ru, sc, ch):
            st, no = "state-" + rid(rng), "nonce-" + rid(rng)
            return dict(q=[["response_type", "code"], ["client_id", c], ["redirect_uri", ru], ["scope", sc], ["state", st],
                           ["nonce", no], ["code_challenge", s256(ver[ch])], ["code_challenge_method", "S256"]],
                        markers=[st, no, ru])
        T = {
            "redA": lambda: dict(ep="token", auth=aa, f=red("kA", ua)),
            "redAw": lambda: dict(ep="token", auth=aa, f=red("kA", ua, word(rng, 43))),
            "redAr": lambda: dict(ep="token", auth=aa, f=red("kA", ub)),
            "redAB": lambda: dict(ep="token", f=red("kA", ua) + bb),
            "redAx": lambda: dict(ep="token", auth=dict(aa, secret=sa + "x"), f=red("kA", ua)),
            "redA2": lambda: dict(ep="token", auth=aa, f=red("kA2", ua), markers=[non[code["kA2"]], u2]),
            "redB": lambda: dict(ep="token", f=red("kB", ub) + bb, markers=[non[code["kB"]], u2]),
            "redP": lambda: dict(ep="token", f=red("kP", up) + pp),
            "redPx": lambda: dict(ep="token", f=red("kP", up, word(rng, 43)) + pp),
            "refA": lambda: dict(ep="token", auth=aa, f=[["grant_type", "refresh_token"], ["refresh_token", rt["tA"]]]),
            "refAs": lambda: dict(ep="token", auth=aa, f=[["grant_type", "refresh_token"], ["refresh_token", rt["tA"]],
                                                          ["scope", nm["r"]]]),
            "refB": lambda: dict(ep="token", f=[["grant_type", "refresh_token"], ["refresh_token", rt["tB"]]] + bb),
            "revA": lambda: dict(ep="revoke", auth=aa, f=[["token", rt["tA2"]], ["token_type_hint", "refresh_token"]]),
            "revB": lambda: dict(ep="revoke", f=[["token", rt["tB2"]]] + bb),
            "creA": lambda: dict(ep="token", auth=aa, f=[["grant_type", "client_credentials"], ["scope", nm["w"]]]),
            "creB": lambda: dict(ep="token", f=[["grant_type", "client_credentials"]] + bb),
            "autA": lambda: dict(ep="authorize", user=u, **aut(A, ua, nm["openid"] + " " + nm["r"], "aA")),
            "autA2": lambda: dict(ep="authorize", user=u2, **aut(A, ua, nm["w"], "aA")),
            "autB": lambda: dict(ep="authorize", user=u2, **aut(B, ub, nm["w"], "aB")),
            "autAbad": lambda: dict(ep="authorize", user=u, **aut(A, ua, nm["r"] + " " + nm["x"], "aA")),
            "autBnol": lambda: dict(ep="authorize", user=None, **aut(B, ub, nm["w"], "aB")),
            "conA": lambda: dict(ep="consent", **aut(A, ua, nm["r"], "aA")),
            "conB": lambda: dict(ep="consent", **aut(B, ub, nm["w"] + " " + nm["r"], "aB")),
        }
        reqs = {}
        names = COMBOS[combo]
        for i, t in enumerate(names):
            reqs["r%d" % (i + 1)] = T[t]()
        epi = []
        for i, t in enumerate(names):
            if t.startswith("red"):
                base = dict(reqs["r%d" % (i + 1)])
                if t in ("redAw", "redAr", "redAB", "redAx"):
                    base = T["redA"]()
                reqs["e%d" % (i + 1)] = base
                epi.append(["run", "e%d" % (i + 1)])
                reqs["f%d" % (i + 1)] = dict(ep="token", auth=base.get("auth"),
                                             f=[["grant_type", "refresh_token"], ["refresh_token", {"$rt": "r%d" % (i + 1)}]] +
                                             [x for x in base["f"] if x[0] in ("client_id", "client_secret")])
                epi.append(["run", "f%d" % (i + 1)])
            if t in ("autA", "autB"):
                c = "A" if t == "autA" else "B"
                reqs["e%d" % (i + 1)] = dict(ep="token", auth=aa if c == "A" else None,
                                             f=[["grant_type", "authorization_code"], ["code", {"$code": "r%d" % (i + 1)}],
                                                ["redirect_uri", ua if c == "A" else ub], ["code_verifier", ver["a" + c]]] +
                                             (bb if c == "B" else []))
                epi.append(["run", "e%d" % (i + 1)])
        p = dict(base=rng.randint(1_500_000_000, 1_900_000_000), now=now, tz="UTC",
                 cfg=dict(scopes=sup, grants=list(ALL3), lifespan=rng.choice([60, 3600]), idlife=36000,
                          error="https://server.example.com/oauth/error", issuer="https://issuer.example.com",
                          oidc=variant % 3 != 2, alg=alg, kid=idlike(rng), key=KEYOF[alg]),
                 adapter=dict(shared=variant % 2 == 1, order=rng.choice(["asked", "reg"]), codelife=3_600_000,
                              rtlife=3_600_000, tok="at-%d-" + word(rng, 20)),
                 clients=cl, users=[u, u2], codes=codes, rts=rts, reqs=reqs)
        self.cache[key] = (p, epi, names)
        return self.cache[key]

    def plan(self, s, variant=0, gates="pre"):
        p, epi, names = self.base(s["c"], variant)
        p = dict(p, id="sched-%s-%s%s-v%d%s" % (s["c"], "".join("%d:%d," % tuple(r) for r in s["r"]),
                                                 ("!%d@%d%s" % tuple(s["f"])) if s["f"] else "", variant,
                                                 "" if gates == "pre" else "b"),
                 adapter=dict(p["adapter"], gates=gates), reqs=dict(p["reqs"]), steps=[])
        steps = p["steps"]
        cancel = None
        if s["f"]:
            r, i, kind = s["f"]
            q = p["reqs"]["r%d" % r] = dict(p["reqs"]["r%d" % r])
            if kind in ("cancel", "cancelafter"):
                # reached when the call is pending (before) or its result is (after)
                cancel = ["r%d" % r, 2 * (i - 1) + (1 if kind == "cancelafter" else 0) if gates == "both" else i - 1]
            elif kind == "oauth":
                q["faults"] = {str(i): dict(kind="oauth", err=OERR[(i + len(steps) + variant) % len(OERR)])}
            else:
                exc = ["", "key", "value", "type", "attr", "conn", "timeout"][(i + variant) % 7]
                q["faults"] = {str(i): dict(kind="raise", after=kind == "raiseafter", exc=exc)}
        done = {}

        def step(r, n):
            for _ in range(n):
                if cancel and cancel[0] == r and done.get(r, 0) == cancel[1]:
                    steps.append(["cancel", r])
                    cancel[0] = None
                steps.append(["step", r])
                done[r] = done.get(r, 0) + 1
        for r, n in s["r"]:
            r = "r%d" % r
            steps.append(["start", r])
            step(r, n)
        for i in range(len(names)):
            r = "r%d" % (i + 1)
            steps.append(["start", r])
            if cancel and cancel[0] == r:
                step(r, max(0, cancel[1] - done.get(r, 0)) + 1)
            steps.append(["finish", r])
        steps += epi
        p["sched"] = s
        return p

    def solos(self, combo, variant):
        """One plan per request of the combination, running it alone."""
        p, epi, names = self.base(combo, variant)
        out = []
        for i in range(len(names)):
            r = "r%d" % (i + 1)
            out.append((r, dict(p, id="solo-%s-%s-v%d" % (combo, r, variant), adapter=dict(p["adapter"], gates="pre"),
                                reqs={r: p["reqs"][r]}, steps=[["run", r]])))
        return out


def crowd_plan(c, seed, gates="pre"):
    """A shape of spec/OAuthCrowd.tla made concrete."""
    ident = "crowd-" + ",".join("%s=%s" % x for x in sorted(c.items()))
    rng = random.Random("%s|%s" % (seed, ident))
    nm = scope_names(rng)
    now = rng.randint(1, 1_000_000)
    A, B, P = rid(rng), rid(rng), rid(rng)
    uri = {A: make_uri(rng, rng.choice(["plain", "query"])), B: make_uri(rng, "plain"), P: make_uri(rng, "custom")}
    sa, sb = secretlike(rng), secretlike(rng)
    users = ["user-" + rid(rng) for _ in range(5)]
    cl = [dict(id=i, secret=s, hassecret=s is not None, method=m, grants=list(ALL3), rtypes=["code"], redirs=[uri[i]],
               scopes=[nm[k] for k in ("r", "w", "openid", "openidx")])
          for i, s, m in ((A, sa, "client_secret_basic"), (B, sb, "client_secret_post"), (P, None, "none"))]
    codes, rts, reqs = [], [], {}
    once = c["dup"] == "none"

    def auth(i):
        return {A: (dict(kind="basic", id=A, secret=sa), []), B: (None, [["client_id", B], ["client_secret", sb]]), P: (None, [["client_id", P]])}[i]

    def redeem(bad):
        i, u, ver, k = rng.choice([A, B, P]), rng.choice(users), word(rng, 50, UNRES), rid(rng, 40)
        no = "nonce-" + rid(rng)
        codes.append(dict(code=k, client=i, user=u, redir=uri[i], scopes=rng.choice([["openid", nm["r"]], [nm["w"]]]), chal=s256(ver), meth="S256",
                          nonce=no, exp=now + 3_600_000))
        au, cf = auth(i)
        return dict(ep="token", auth=au, markers=[no] if once else [], f=[["grant_type", "authorization_code"], ["code", k], ["redirect_uri", uri[i]],
                                                                         ["code_verifier", word(rng, 43) if bad else ver]] + cf)

    def refresh(bad):
        i, u, t = rng.choice([A, B]), rng.choice(users), rid(rng, 30)
        rts.append(dict(rt=t, client=i, user=u, scopes=[nm["r"], nm["w"]], exp=now + (0 if bad else 3_600_000)))
        au, cf = auth(i)
        return dict(ep="token", auth=au, f=[["grant_type", "refresh_token"], ["refresh_token", t]] + ([["scope", nm["r"]]] if rng.random() < .5 else []) + cf)

    def authorize(bad, ep="authorize"):
        i, st, no = rng.choice([A, B, P]), "state-" + rid(rng), "nonce-" + rid(rng)
        return dict(ep=ep, user=rng.choice(users), markers=[st, no, uri[i]] if once else [],
                    q=[["response_type", "code"], ["client_id", i], ["redirect_uri", uri[i]], ["scope", nm["bad"] if bad else rng.choice([nm["r"], "openid " + nm["w"]])],
                       ["state", st], ["nonce", no], ["code_challenge", s256(rid(rng, 50))], ["code_challenge_method", "S256"]])

    def creds(bad):
        au, cf = auth(rng.choice([A, B]))
        return dict(ep="token", auth=au, f=[["grant_type", "client_credentials"], ["scope", nm["bad"] if bad else nm["w"]]] + cf)
    kinds = {"redeem": [redeem], "refresh": [refresh], "authorize": [authorize],
             "mixed": [redeem, refresh, authorize, creds, lambda bad: authorize(bad, "consent")]}[c["kind"]]
    n = int(c["many"])
    early = {"none": 0, "some": 12, "many": 140}[c["before"]]
    steps = []
    for i in range(early):
        reqs["b%d" % i] = (redeem if c["kind"] == "redeem" else kinds[i % len(kinds)])(i % 5 == 4)
        steps.append(["run", "b%d" % i])
    share = {"none": 0, "some": .25, "most": .75}[c["fail"]]
    for i in range(n):
        reqs["r%d" % i] = kinds[i % len(kinds)](rng.random() < share)
    first = ["r%d" % i for i in range(n)]
    for r in first:
        steps += [["start", r]] + [["step", r]] * int(c["at"])
    second = []
    for j, r in enumerate(first):
        if c["dup"] in ("all", "thrice") or (c["dup"] == "first" and j == 0) or (c["dup"] == "last" and j == n - 1):
            for x in range(2 if c["dup"] == "thrice" else 1):
                second.append("%s%s" % ("de"[x], r[1:]))
                reqs[second[-1]] = dict(reqs[r])
    for r in second:
        steps += [["run", r]] if c["second"] == "run" else [["start", r]] + ([["step", r]] * rng.randint(1, 4) if c["second"] == "step" else [])
    rest = first + second
    if c["finish"] == "lifo":
        rest.reverse()
    elif c["finish"] == "random":
        rng.shuffle(rest)
    elif c["finish"] == "robin":
        steps += [["step", r] for _ in range(3) for r in rest]
    steps += [["finish", r] for r in rest]
    # whatever was redeemed is spent
    for j, r in enumerate(rng.sample(sorted(reqs), min(len(reqs), 12))):
        if any(x[0] == "code" for x in reqs[r].get("f", [])):
            reqs["z%d" % j] = dict(reqs[r])
            steps.append(["run", "z%d" % j])
    return dict(id=ident, base=rng.randint(1_500_000_000, 1_900_000_000), now=now, tz="UTC",
                cfg=dict(scopes=[nm[k] for k in ("r", "w", "openid", "openidx", "x")], grants=list(ALL3), lifespan=3600, idlife=36000,
                         error="https://server.example.com/oauth/error", issuer="https://issuer.example.com", oidc=rng.random() < .7, alg="HS256",
                         kid=idlike(rng), key=KEYOF["HS256"]),
                adapter=dict(shared=rng.random() < .5, order="asked", gates=gates, codelife=3_600_000, rtlife=3_600_000, tok="at-%d-" + word(rng, 20)),
                clients=cl, users=users, codes=codes, rts=rts, reqs=reqs, steps=steps)


LOGIN = dict(client="A", user="u", nonce="own", state="own", scope="openid r", out="ok", meth="S256", after="nothing")


def logins_plan(c, seed):
    """A shape of spec/OAuthLogins.tla made concrete."""
    ident = "logins-" + ",".join("%s=%s" % x for x in sorted(c.items()))
    rng = random.Random("%s|%s" % (seed, ident))
    nm = scope_names(rng)
    now = rng.randint(1, 1_000_000)
    A, B, P = idlike(rng), rid(rng), rid(rng)
    cid = {"A": A, "B": B, "P": P}
    uri = {A: make_uri(rng, rng.choice(["plain", "query"])), B: make_uri(rng, "plain"), P: make_uri(rng, "custom")}
    sec = {A: secretlike(rng), B: secretlike(rng)}
    usr = {k: "user-" + rid(rng) for k in ("u", "v", "g1", "g2", "g3")}
    allowed = [nm[k] for k in ("r", "w", "openid", "openidx")]
    cl = [dict(id=i, secret=sec.get(i), hassecret=i in sec, method=m, grants=list(ALL3), rtypes=["code"], redirs=[uri[i]], scopes=list(allowed))
          for i, m in ((A, "client_secret_basic"), (B, "client_secret_post"), (P, "none"))]
    reqs, login = {}, {}
    nonce1, state1 = "nonce-" + rid(rng), make_state(rng, rng.choice(["plain", "reserved", "unicode"]))
    way = c.get("way", "direct")

    def auth(i, bad=False):
        s = sec.get(i, "") + ("x" if bad else "")
        return {A: (dict(kind="basic", id=A, secret=s), []), B: (None, [["client_id", B], ["client_secret", s]]),
                P: (None, [["client_id", "nobody" if bad else P]])}[i]
    for n in "123":
        d = {k: c.get(k + n, {"client2": "B", "user3": "v"}.get(k + n, v)) for k, v in LOGIN.items()}
        i = cid[d["client"]]
        user = usr["g" + n if d["out"] == "gone" else d["user"]]
        ver = word(rng, rng.choice([43, 64, 128]), UNRES)
        no = {"own": nonce1 if n == "1" else "nonce-" + rid(rng), "absent": "", "first": nonce1}[d["nonce"]]
        st = {"own": state1 if n == "1" else "state-" + rid(rng), "absent": "", "first": state1}[d["state"]]
        scope = " ".join([nm[x] for x in d["scope"].split()] + ([nm["bad"]] if d["out"] == "scope" else []))
        q = [["response_type", "code"], ["client_id", i], ["redirect_uri", uri[i]], ["scope", scope], ["state", st], ["nonce", no],
             ["code_challenge", ver if d["meth"] == "plain" else s256(ver)], ["code_challenge_method", d["meth"]]]
        reqs["a" + n] = dict(ep="authorize", user=None if d["out"] == "anon" else user, transport=way, q=[x for x in q if x[1]])
        au, cf = auth(i, d["out"] == "secret")
        reqs["t" + n] = dict(ep="token", auth=au, transport=way,
                             f=[["grant_type", "authorization_code"], ["code", {"$code": "a" + n}],
                                ["redirect_uri", uri[i] + ("x" if d["out"] == "redirect" else "")],
                                ["code_verifier", word(rng, 43) if d["out"] == "verifier" else ver]] + cf)
        steps = [["run", "t" + n]]
        if d["out"] == "gone":
            steps.insert(0, ["env", dict(op="deluser", u=user)])
        au, cf = auth(i)
        rt = {"$rt": "t" + n}
        more = {"refresh": [], "narrow": [["scope", nm[d["scope"].split()[-1]]]], "broad": [["scope", " ".join(allowed)]]}.get(d["after"])
        if more is not None:
            reqs["r" + n] = dict(ep="token", auth=au, transport=way, f=[["grant_type", "refresh_token"], ["refresh_token", rt]] + more + cf)
            steps.append(["run", "r" + n])
        elif d["after"] == "revoke":
            reqs["r" + n] = dict(ep="revoke", auth=au, transport=way, f=[["token", rt]] + cf)
            steps.append(["run", "r" + n])
        elif d["after"] == "again":
            reqs["r" + n] = dict(reqs["t" + n])
            steps.append(["run", "r" + n])
        if "first" not in c.values():
            for k in "atr":
                if k + n in reqs:
                    reqs[k + n]["markers"] = [x for x in (st, no) if x.startswith(("nonce-", "state-"))]
        login[n] = steps
    a = {n: [["run", "a" + n]] for n in "123"}
    steps = sum({"turns": [a["1"], login["1"], a["2"], login["2"], a["3"], login["3"]],
                 "nested": [a["1"], a["2"], a["3"], login["1"], login["2"], login["3"]],
                 "reverse": [a["1"], a["2"], a["3"], login["3"], login["2"], login["1"]],
                 "twofirst": [a["2"], a["1"], login["2"], a["3"], login["1"], login["3"]]}[c["order"]], [])
    alg = c.get("alg", "HS256")
    return dict(id=ident, base=rng.randint(1_500_000_000, 1_900_000_000), now=now, tz=rng.choice(["UTC", "Asia/Kolkata"]),
                cfg=dict(scopes=[nm[k] for k in ("r", "w", "openid", "openidx", "x")], grants=list(ALL3), lifespan=3600, idlife=36000,
                         error="https://server.example.com/oauth/error", issuer="https://issuer.example.com", oidc=c.get("oidc", "on") == "on", alg=alg,
                         kid=idlike(rng), key=KEYOF[alg]),
                adapter=dict(shared=rng.random() < .5, order=rng.choice(["asked", "reg"]), gates="none", codelife=3_600_000, rtlife=3_600_000,
                             tok=rng.choice(["at-%d-" + word(rng, 20), word(rng, 90) + "%d" + word(rng, 300)])),
                clients=cl, users=sorted(usr.values()), codes=[], rts=[], reqs=reqs, steps=steps)


def history_plan(h, seed, n, gates="pre"):
    """A behaviour of spec/OAuth.tla (its history h) made concrete."""
    rng = random.Random("%s|hist|%s" % (seed, n))
    nm = scope_names(rng)
    names = {"s1": nm["r"], "s2": nm["w"], "openid": "openid", "s3": nm["bad"]}
    sc = lambda t: " ".join(names[x] for x in t.split())
    unit = rng.choice([1, 1000, 60000])
    ver = {k: word(rng, rng.choice([43, 50, 128]), UNRES) for k in ("v1", "v2", "v3")}
    uri = {"ua": make_uri(rng, rng.choice(["plain", "query", "port"])), "ub": make_uri(rng, "plain"),
           "uc": make_uri(rng, rng.choice(["plain", "query"]))}
    cid = {"A": idlike(rng), "B": idlike(rng), "C": idlike(rng), "X": idlike(rng)}
    sec = {k: secretlike(rng) for k in ("sa", "sb", "sx", "sA2", "sB2", "sC2")}
    sec[""] = ""
    usr = {"u": idlike(rng), "v": idlike(rng), "": None}
    scopes = [names["s1"], names["s2"], "openid"]
    state = {k: make_state(rng, rng.choice(["plain", "reserved", "unicode"])) for k in "xy"}
    nonce = {k: word(rng, 10) for k in "nm"}
    now = rng.randint(0, 1000) * unit
    alg, kid = "HS256", word(rng)

    def client(c):
        return dict(id=cid[c["id"]], secret=sec[c["secret"]], hassecret=c.get("hassecret", True), method=c["method"], grants=list(c["grants"]),
                    rtypes=list(c["rtypes"]), redirs=[uri[x] for x in c["redirs"]], scopes=[names[x] for x in c["scopes"]])
    k0, t0 = word(rng, 40), word(rng, 30)
    g = list(ALL3)
    A = dict(id="A", secret="sa", method="client_secret_basic", grants=g, rtypes=["code"], redirs=["ua"],
             scopes=["s1", "s2", "openid"])
    B = dict(A, id="B", secret="sb", method="client_secret_post", redirs=["ub"])
    C = dict(A, id="C", secret="", hassecret=False, method="none", redirs=["ua", "uc"], grants=g[:2])

    def value(k, v):
        if k == "scope":
            return sc(v)
        if k == "client_id":
            return cid[v]
        if k == "client_secret":
            return sec[v]
        if k == "redirect_uri":
            return uri[v]
        if k == "state":
            return state[v]
        if k == "nonce":
            return nonce[v]
        if k == "code_challenge":
            return s256(ver[{"h1": "v1", "h2": "v3"}[v]])
        if k == "code_verifier":
            return ver[v]
        if k == "code":
            return k0 if v == "k0" else word(rng, 40) if v == "kx" else {"$code": v[1:]}
        if k in ("refresh_token", "token"):
            return t0 if v == "t0" else word(rng, 30) if v == "tx" else {"$rt": v[1:]}
        return v
    reqs, steps, cnt = {}, [], {}
    for x in h:
        t = x["t"]
        if t == "start":
            r = x["r"]
            a = x["auth"]
            reqs[r] = dict(ep=x["ep"], q=[[k, value(k, v)] for k, v in x["q"] if v], f=[[k, value(k, v)] for k, v in x["f"] if v],
                           user=usr[x["user"]], style=rng.randint(0, 1), transport=rng.choice(["direct", "direct", "asgi"]),
                           auth=dict(kind=a["kind"], id=cid[a["id"]] if a["id"] else "",
                                     secret=sec[a["secret"]] if a["secret"] else ""))
            steps.append(["start", r])
            cnt[r] = 0
        elif t == "step":
            steps.append(["step", x["r"]])
            cnt[x["r"]] += 1
        elif t == "raise":
            cnt[x["r"]] += 1
            reqs[x["r"]].setdefault("faults", {})[str(cnt[x["r"]])] = dict(
                kind="raise", exc=rng.choice(["", "key", "value", "conn"]), after=rng.random() < .3)
            steps.append(["step", x["r"]])
        elif t == "cancel":
            cnt[x["r"]] += 1
            steps.append(["cancel", x["r"]])
        elif t == "end":
            steps.append(["finish", x["r"]])
        elif t == "env":
            o = x["o"]
            if o["op"] == "now":
                steps.append(["env", dict(op="adv", v=5 * unit)])
            elif o["op"] in ("deluser", "adduser"):
                steps.append(["env", dict(op=o["op"], u=usr[o["u"]])])
            elif o["op"] == "client":
                steps.append(["env", dict(op="client", c=client(o["c"]))])
            elif o["op"] == "key":
                steps.append(["env", dict(op="key", alg=o["alg"], key=KEYOF[o["alg"]] + ("b" if o["kid"] == "k2" else ""),
                                          kid={"k": kid, "k2": kid + "2", "": ""}[o["kid"]])])
    code0 = dict(code=k0, client=cid["A"], user=usr["u"], redir=uri["ua"], scopes=["openid", names["s1"]], chal=s256(ver["v1"]),
                 meth="S256", nonce="n0" + word(rng), exp=now + 10 * unit)
    rt0 = dict(rt=t0, client=cid["A"], user=usr["u"], scopes=[names["s1"], names["s2"]], exp=now + 10 * unit)
    return dict(id="hist-%d" % n, base=rng.randint(1_500_000_000, 1_900_000_000), now=now,
                tz=rng.choice(["UTC", "Asia/Kolkata", "America/Los_Angeles"]),
                cfg=dict(scopes=scopes, grants=list(ALL3), lifespan=3600, idlife=36000,
                         error="https://server.example.com/oauth/error", issuer="https://issuer.example.com", oidc=True, alg=alg,
                         kid=kid, key=KEYOF[alg]),
                adapter=dict(shared=rng.random() < .4, order=rng.choice(["asked", "reg"]), gates=gates, codelife=10 * unit,
                             rtlife=10 * unit, tok=rng.choice(["at-%d-" + word(rng), word(rng, 90) + "%d" + word(rng, 900)])),
                clients=[client(A), client(B), client(C)], users=[usr["u"], usr["v"]], codes=[code0], rts=[rt0], reqs=reqs, steps=steps,
                hist=h)
