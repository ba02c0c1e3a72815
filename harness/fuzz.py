"""Arbitrary requests: parameters from pools of fit, unfit and odd values in
arbitrary places, repeated, blank or missing, odd headers and raw bodies."""
import base64
import random

from cases import UNI, word
from scheds import SchedMaker, rid

PARAMS = ["response_type", "client_id", "redirect_uri", "scope", "state", "code_challenge", "code_challenge_method", "nonce",
          "grant_type", "code", "code_verifier", "refresh_token", "token", "token_type_hint", "client_secret"]
PRINT = "".join(chr(i) for i in range(32, 127) if chr(i) not in "%+")


def odd(rng):
    k = rng.randrange(9)
    if k == 0:
        return word(rng)
    if k == 1:
        return "".join(rng.choice(UNI) for _ in range(rng.randint(1, 6)))
    if k == 2:
        return "".join(rng.choice(PRINT) for _ in range(rng.randint(1, 30)))
    if k == 3:
        return rng.choice(["null", "true", "0", "-1", "[]", "{}", "None", "undefined", "code token", "none", "S512", "s256",
                           "PLAIN", "Bearer", "%", "%zz", "%41", "+", "a+b", "..", "javascript:alert(1)", "data:,x", "//x", "\x7f",
                           "%s", "%d%s", "%(error)s", "{}", "{0}", "{error}", "{", "a}b{c", "$x", "${x}", "\\1", "\\", "<b>", "\"", "'", "a=b&c=d", "?x=1", "#f", "openid", "Openid", "https://", "http://[::1]/", "http://[bad", "a\x00b"])
    if k == 4:
        return word(rng, rng.choice([1, 42, 43, 128, 129, 500]))
    if k == 5:
        return ""
    if k == 6:
        return " " * rng.randint(1, 3)
    if k == 7:
        return " ".join(word(rng, 3) for _ in range(rng.randint(2, 5)))
    return "a" * rng.randint(1, 2000)


def header(rng, a, sa):
    """An Authorization header: (auth description, extra headers)."""
    b = lambda s: base64.b64encode(s if isinstance(s, bytes) else s.encode("utf-8", "surrogatepass")).decode()
    k = rng.randrange(16)
    junk = lambda h: dict(kind="junk", id="", secret="", header=h)
    if k < 4:
        return None
    if k < 7:
        return dict(kind="basic", id=a, secret=sa)
    if k == 7:
        return dict(kind="basic", id=a, secret=word(rng))
    return junk(rng.choice([
        "", " ", "  ", "Basic", "Basic ", "Basic  ", "Basic\t", "Basic !!!", "Basic a", "Basic " + b("nocolon"),
        "Basic " + b(b"\xff\xfe:\xff"), "Basic " + b(b"\xff\xfe"), "Basic é", "basic", "Bearer", "Bearer ", "Bearer " + word(rng),
        "Bearer a b c", "Digest username=\"x\"", "Basic " + b(":"), "Basic " + b(":x"), "Basic " + b("x:"), word(rng),
        "Basic =", "Basic ====", "Basic \u00a0", "\tBasic x", ", ,", "Basic " + b("x" * 5000), "Negotiate", "Basic %00",
        "Basic " + b(b"\x00:\x00"), "null", "Basic None", "Basic " + b(word(rng, 5)) + " x"]))


def plan(seed, n):
    rng = random.Random("%s|fuzz|%s" % (seed, n))
    m = SchedMaker("%s|%d" % (seed, n % 7))
    p, _, _ = m.base("same", n % 3)
    p = dict(p)
    A, B, P = p["clients"]
    codes, rts = p["codes"], p["rts"]
    fit = {
        "response_type": ["code"], "client_id": [c["id"] for c in (A, B, P)],
        "redirect_uri": [c["redirs"][0] for c in (A, B, P)], "scope": [A["scopes"][0], " ".join(A["scopes"]), A["scopes"][1]],
        "state": ["state-" + word(rng)], "code_challenge": [word(rng, 43), word(rng, 128)],
        "code_challenge_method": ["plain", "S256"], "nonce": [word(rng)],
        "grant_type": list(p["cfg"]["grants"]), "code": [c["code"] for c in codes],
        "code_verifier": [word(rng, 43)], "refresh_token": [t["rt"] for t in rts], "token": [t["rt"] for t in rts],
        "token_type_hint": ["access_token", "refresh_token"], "client_secret": [A["secret"], B["secret"]]}
    reqs, steps = {}, []
    for i in range(6):
        r = "q%d" % i
        ep = rng.choice(["authorize", "consent", "token", "token", "revoke"])
        own = {"authorize": PARAMS[:8], "consent": PARAMS[:8], "token": PARAMS[1:4] + PARAMS[8:12] + PARAMS[14:],
               "revoke": ["client_id", "client_secret", "token", "token_type_hint"]}[ep]
        c = rng.choice([A, B, P])
        place = rng.random()
        q, f = [], []
        keep = rng.choice([.5, .8, 1, 1])
        good = rng.choice([.3, .8, .95, 1])
        for k in own + [x for x in PARAMS if rng.random() < .05]:
            if rng.random() > keep:
                continue
            for _ in range(rng.choice([1, 1, 1, 1, 2])):
                if rng.random() < good:
                    v = {"client_id": c["id"], "redirect_uri": c["redirs"][0], "client_secret": c["secret"] or ""}.get(k) \
                        if rng.random() < .8 else None
                    v = rng.choice(fit[k]) if v is None else v
                else:
                    v = odd(rng)
                inq = rng.random() < (.9 if ep in ("authorize", "consent") else .1)
                (q if inq else f).append([k, v])
        for _ in range(rng.choice([0, 0, 1, 2])):
            (q if rng.random() < .5 else f).append([rng.choice(["x", "error", "code_", word(rng), "é", "state "]), odd(rng)])
        rng.shuffle(q)
        rng.shuffle(f)
        d = dict(ep=ep, q=q, f=f, style=rng.randint(0, 1), transport="direct")
        a = header(rng, A["id"], A["secret"])
        if a:
            d["auth"] = a
        if ep == "authorize" and rng.random() < .8:
            d["user"] = rng.choice(p["users"])
        h = {}
        for _ in range(rng.choice([0, 0, 1, 3])):
            h[rng.choice(["X-Forwarded-Host", "Cookie", "Accept", "Content-Type", "content-length", "Origin", "Host", word(rng)])] = \
                rng.choice(["", "text/plain", "application/json", "multipart/form-data", "-1", "*/*", "application/x-www-form-urlencoded; charset=UTF-8", word(rng)])
        d["headers"] = h
        d["method"] = rng.choice(["GET", "POST", "get", "post"])
        if rng.random() < .12:
            # a body that is no form at all
            d["rawf"] = rng.choice([b"{}", b'{"grant_type": "authorization_code"}', b"&&&", b"=", b"=&=", b"&=&a", b"code", b"grant_type",
                                    b"token", b"<xml/>", b" ", b"a=b=c", b"\n", b"a&b", b"%", b"=%41", b"x" * 3000]).hex()
            d["gray"] = True
        if rng.random() < .06:
            d["rawq"] = rng.choice(["&&&", "=", "a", "=a", "client_id", "a=b=c", "?", "?a=b", "%", "code=%", "/", "a&&b=c&"])
            d["gray"] = True
        reqs[r] = d
        steps.append(["run", r])
    p.update(id="fuzz-%d" % n, reqs=reqs, steps=steps, adapter=dict(p["adapter"], gates="none"))
    return p


def plans(job):
    for n in job["items"]:
        yield plan(job["seed"], n)
