"""Concrete requests for the abstract cases of spec/OAuthCases.tla."""
import base64
import hashlib
import random
import unicodedata

from common import s256

ALNUM = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"
UNRES = ALNUM + "-._~"
UNI = "éßñøλЖ漢字🙂\u200b\u0301"
KEYOF = {"HS256": "oct32", "HS384": "oct48", "HS512": "oct64", "RS256": "rsa2048", "RS384": "rsa3072",
         "RS512": "rsa2048b", "PS256": "rsa2048", "PS384": "rsa3072", "PS512": "rsa2048", "ES256": "ec256",
         "ES384": "ec384", "ES512": "ec521"}
OCTS, RSAS = ["oct32", "oct32b", "oct48", "oct64", "oct100"], ["rsa2048", "rsa2048b", "rsa3072"]
FITS = {"HS256": OCTS, "HS384": OCTS, "HS512": OCTS, "RS256": RSAS, "RS384": RSAS, "RS512": RSAS, "PS256": RSAS, "PS384": RSAS,
        "PS512": RSAS, "ES256": ["ec256", "ec256b"], "ES384": ["ec384", "ec384b"], "ES512": ["ec521", "ec521b"]}
ALL3 = ["authorization_code", "refresh_token", "client_credentials"]


def word(rng, n=None, alpha=ALNUM):
    return "".join(rng.choice(alpha) for _ in range(n or rng.randint(3, 12)))


def idlike(rng):
    """A client or user id: letters first, so that it can be changed in case."""
    k = rng.random()
    w = rng.choice("abcXYZ") + word(rng, rng.randint(4, 10), UNRES)
    if k < .1:
        w += rng.choice(UNI) + word(rng, 2)
    elif k < .2:
        w += rng.choice(["@", "/", "=", "&", "?", "#", " ", "!", "'", "+", "%41", "%zz"]) + word(rng, 2)
    elif k < .27:
        w += word(rng, rng.choice([50, 140, 300]))
    return w


def secretlike(rng):
    k = rng.random()
    w = rng.choice("abcXYZ") + word(rng, rng.randint(6, 20), UNRES)
    if k < .15:
        w += ":" + word(rng, 3)
    elif k < .25:
        w += rng.choice(UNI) + word(rng, 2)
    elif k < .35:
        w += rng.choice(["=", "&", "?", "#", "/", " ", "+", "%41", "%2B", "%zz"]) + word(rng, 3)
    elif k < .4:
        w = ":" + w
    elif k < .5:
        w += word(rng, rng.choice([50, 80, 140, 300]))
    return w


def near(rng, s, how, avoid=()):
    t = s
    if how == "near_case":
        t = s.swapcase()
        if t == s:
            t = s + "A"
    elif how == "near_prefix":
        t = s[:-1] or s + "x"
    elif how == "near_suffix":
        t = s + rng.choice(ALNUM)
    elif how == "near_form":        # another way to write the same, to a lenient reader
        forms = [unicodedata.normalize("NFD", s), unicodedata.normalize("NFC", s), s + "\0", s + "\u200b", "+".join(s.split(" ")), s + "é"]
        if not s.isascii():
            forms += [s.encode("ascii", "ignore").decode(), "".join(c if c < "\x80" else "\u4e2d" if c != "\u4e2d" else "\u4e2e" for c in s),
                      s.encode("ascii", "replace").decode(), unicodedata.normalize("NFD", s).encode("ascii", "ignore").decode()]
        t = rng.choice([x for x in forms if x != s])
    elif how == "near_norm":        # the same text to one who normalises it
        t = next((x for x in (unicodedata.normalize(n, s) for n in ("NFD", "NFC")) if x != s), s)
    elif how == "near_pct":
        i = rng.randrange(len(s))
        t = s[:i] + "%%%02X" % ord(s[i]) + s[i + 1:] if ord(s[i]) < 128 else s + "%20"
    elif how == "near_wide":
        t = "".join(chr(ord(c) + 0xfee0) if c.isalpha() and c < "z" else c for c in s)
    elif how == "near_space":
        t = rng.choice([s + " ", " " + s])
    if t in avoid or t == s or not t.strip():
        t = s + "zq"
    return t


def uri_near(rng, u, how, avoid):
    scheme, _, rest = u.partition("://")
    host = rest.partition("/")[0]
    bare = host.rpartition(":")[0] if host.rpartition(":")[2].isdigit() and ":" in host else host
    t = {"prefix": lambda: u[:-1],
         "suffix": lambda: u + rng.choice(ALNUM),
         "case": lambda: rng.choice([u[:-3] + u[-3:].swapcase(), u.replace(host, host.swapcase(), 1), scheme.swapcase() + u[len(scheme):]]),
         "slash": lambda: rng.choice([u + "/", u[:-1] if u.endswith("/") else u + "/", u.replace(host + "/", host + "//", 1)]),
         "query": lambda: u + ("&" if "?" in u else "?") + "a=b",
         "port": lambda: u.replace(host, bare + rng.choice([":8443", ":443", ":80", ":", ""]), 1) if rest else u + ":1",
         "userinfo": lambda: u.replace(host, "user@" + host, 1) if rest else u + "@x",
         "scheme": lambda: ("http://" + rest if scheme == "https" else "https://" + rest) if rest else "x" + u,
         "subdomain": lambda: u.replace(host, "evil." + host, 1) if rest else "x" + u,
         "path": lambda: rng.choice([u + "/../x", u.replace(host + "/", host + "/./", 1), u.replace(host + "/", host + "/x/../", 1), u + "/.", u + ";a=b"]),
         "pct": lambda: rng.choice([u[:-1] + "%%%02x" % ord(u[-1]), u[:-2] + "%%%02X" % ord(u[-2]) + u[-1], u.replace("/", "%2F"), u + "%20", u + "%00",
                                    u[:-3] + near(rng, u[-3:], "near_wide")]),
         "frag": lambda: u + rng.choice(["#f", "#", "\t", "\n", " "]),
         "other": lambda: "https://evil.example.org/" + word(rng)}[how]()
    if t in avoid:
        t = u + "zq"
    return t


def make_uri(rng, kind):
    w = word(rng, 5) + "cb"
    return {"plain": "https://%s.example.com/%s" % (word(rng, 4, "abcdefg"), w),
            "query": "https://%s.example.com/%s?%s" % (
                word(rng, 4, "abcdefg"), w,
                rng.choice(["a=b", "a=b&c=d", "code=1&state=2", "x=%20y&z=%26", "q=", "a=1&a=2"])),
            "port": "https://%s.example.com:%d/%s" % (word(rng, 4, "abcdefg"), rng.randint(1, 65535), w),
            "custom": "com.example.%s:/%s" % (word(rng, 4, "abcdefg"), w),
            "ipv6": "http://[::1]:%d/%s" % (rng.randint(1, 65535), w),
            "local": "http://localhost/%s" % w,
            "root": "https://%s.example.com/" % w,
            "bare": "https://%s.example.com" % w,
            "dir": "https://%s.example.com/a/%s/" % (word(rng, 4, "abcdefg"), w),
            "odd": rng.choice(["https://%s.example.com//%s//x", "HTTPS://%s.Example.COM/%s/../A", "https://u:p@%s.example.com/%s", "https://%s.example.com./%s/."])
                   % (word(rng, 4, "abcdefg"), w),
            "qend": "https://%s.example.com/%s?" % (word(rng, 4, "abcdefg"), w),
            "long": "https://%s.example.com/%s?%s" % (word(rng, 4, "abcdefg"), w * 40, "&".join("k%d=%s" % (i, w) for i in range(40))),
            "escaped": "https://%s.example.com/%%C3%%A9/%s/%%2F;v=1,2'(3)!*$@a" % (word(rng, 4, "abcdefg"), w)}[kind]


def decoys(rng, kind):
    """Parameters that mean nothing to the endpoints, or must not."""
    evil = "https://evil.example.org/" + word(rng)
    if kind == "many":
        return [["p%d" % i, word(rng, 3)] for i in range(rng.choice([30, 70, 150, 1100]))]
    if kind == "urls":
        return [[n, evil] for n in ("error_uri", "error_url", "redirect", "redirect_url", "redirect_uris", "next", "return_to", "callback", "url",
                                    "target", "location", "issuer", "referer")]
    if kind == "facts":
        return [["user", "user-" + word(rng)], ["user_id", word(rng)], ["sub", word(rng)], ["username", word(rng)], ["scopes", word(rng)],
                ["access_token", word(rng)], ["id_token", word(rng)], ["expires_in", "999999"], ["exp", "9999999999"], ["iss", evil], ["aud", word(rng)],
                ["client", word(rng)], ["token_type", "mac"], ["error", "server_error"], ["error_description", word(rng)], ["headers", "x"], ["alg", "none"],
                ["hint", "id_token"], ["type", "id_token"], ["token_hint", "refresh_token"],
                ["kid", word(rng)], ["key", word(rng)], ["method", "GET"], ["Authorization", "Basic eDp5"], ["expiration", "2999-01-01"], ["challenge", word(rng)]]
    return []


def make_nonce(rng, kind):
    return {"absent": "", "plain": word(rng, 12), "unicode": "n" + UNI, "long": word(rng, rng.choice([100, 300, 3000])),
            "spaced": rng.choice([" ", "\t", ""]) + word(rng, 4) + "+&=%41 /" + rng.choice([" ", "\n", ";"])}[kind]


def make_state(rng, kind):
    return {"plain": word(rng, 16), "absent": "", "blank": "",
            "reserved": "".join(rng.choice(":/?#[]@!$&'()*+,;=%\"<>\\^`{|} ") for _ in range(12)) + "x",
            "unicode": word(rng, 2) + "".join(rng.choice(UNI) for _ in range(5)),
            "long": word(rng, 3000),
            "inject": rng.choice(["&code=x&error=y", "x&state=y", "a#b?c=d", "%26code%3Dx", "a\r\nLocation: x",
                                  "=&=", "a=b", "\t\n", "%", "%zz"]),
            "plus": "a+b c%20d%2B" + word(rng, 3)}[kind]


def scope_names(rng):
    known = ["profile", "email", "address", "phone", "offline_access", "admin", "all", "*", "read", "write", "user", "code", "token", "default", "none", "Read"]
    share = rng.choice([0, .5])

    def n():
        if rng.random() < share:
            return rng.choice(known)
        return rng.choice("rstu") + word(rng, rng.randint(3, 6), "abcdef") + rng.choice(["", ":read", ".w", "/x", "-1"])
    s = set()
    while len(s) < 6:
        s.add(n())
    r, w, x, q, bad, z = sorted(s, key=lambda _: rng.random())
    ox = rng.choice(["openidx", "xopenid", "openid2", "myopenid", "openid:x"])
    return {"r": r, "w": w, "x": x, "q": q, "bad": bad, "openid": "openid", "openidx": ox}


TEXT = {"absent": "", "one": "r", "two": "r w", "rev": "w r", "dup": "r r", "openid": "openid r",
        "openidx": "openidx r", "q": "q", "x": "x", "bad": "bad", "one q": "r q", "q one": "q r", "one x": "r x",
        "x one": "x r", "same": "r w", "sub": "r", "broader": "openid", "sub broader": "r openid",
        "broader sub": "openid r", "sub q": "r q", "heldq": "q", "heldx": "x", "three": "w r openidx", "mid q": "r q w",
        "mid x": "r x w", "mid bad": "r bad w", "mid broader": "r openid w"}


def scope_text(rng, v, nm, known):
    if v.startswith("near"):
        return near(rng, nm["r"], v, known)
    if v.startswith("many"):        # long lists, the odd one at the end
        items = ["r", "w"] * rng.choice([6, 20, 70]) + [x.replace("broader", "openid") for x in v.split()[1:]]
        return " ".join(nm[i] for i in items)
    return " ".join(nm[i] for i in TEXT[v].split())


def grants(v):
    return {"all": ALL3, "nocode": ALL3[1:], "norefresh": [ALL3[0], ALL3[2]], "nocred": ALL3[:2],
            "codeonly": ALL3[:1], "none": []}[v]


class Maker:
    def __init__(self, seed, dims):
        self.seed = seed
        self.defaults = {f: {d["n"]: d["v"][0] for d in ds} for f, ds in dims.items()}

    def plan(self, case, extra=0):
        dev = case["d"] if isinstance(case["d"], dict) else {}
        key = "%s|%s|%s|%s" % (self.seed, case["f"], sorted(dev.items()), extra)
        rng = random.Random(key)
        v = dict(self.defaults[case["f"]])
        v.update(dev)
        f = case["f"]
        self.nm = nm = scope_names(rng)
        supported = [nm[i] for i in ("r", "w", "openid", "openidx", "x")]
        allowed = [nm[i] for i in ("r", "w", "openid", "openidx", "q")]
        rng.shuffle(supported)
        rng.shuffle(allowed)
        A, B, Z = idlike(rng), idlike(rng), idlike(rng)
        u, u2 = idlike(rng), idlike(rng)
        kind = v.get("urikind", rng.choice(["plain", "plain", "query", "port"]))
        ua, ua2, ub = make_uri(rng, kind), make_uri(rng, "plain"), make_uri(rng, "plain")
        sa, sb = secretlike(rng), secretlike(rng)
        if v.get("auth") == "near_form" and rng.random() < .7:      # secrets that can be written in another form
            sa = sa[:6] + rng.choice(["é", "ñ", "漢", "字Ж", "ö\u0301"]) + word(rng, 3)
        if v.get("auth") == "near_norm":
            sa = sa[:6] + rng.choice(["é", "ñ", "ö", "o\u0308", "e\u0301"]) + word(rng, 3)
        if v.get("auth") in ("near_prefix", "near_suffix", "near_case") and rng.random() < .4:
            sa += word(rng, rng.choice([60, 72, 130, 260]))
        method = v.get("cmethod", "client_secret_basic")
        bare, method = method == "none", "none" if method == "noneset" else method
        alg = v.get("alg", "HS256")
        if v.get("narrow") == "sub":
            allowed = [nm["r"]]
        elif v.get("narrow") == "none":
            allowed = []
        elif v.get("narrow") == "other":
            allowed = [nm["openid"]]
        a = dict(id=A, secret=None if bare else sa, hassecret=not bare, method=method,
                 grants=list(grants(v.get("regg", "all"))),
                 rtypes={"code": ["code"], "token": ["token"], "both": ["token", "code"], "none": []}[v.get("regr", "code")],
                 redirs=[ua, ua2], scopes=allowed)
        rng.shuffle(a["grants"])
        if rng.random() < .5:
            a["redirs"].reverse()
        b = dict(id=B, secret=sb, hassecret=True, method="client_secret_basic", grants=list(ALL3), rtypes=["code"],
                 redirs=[ub], scopes=list(supported))
        offered = list(grants(v.get("offered", "all")))
        rng.shuffle(offered)
        kid = idlike(rng) if v.get("kid", "set") == "set" else ""
        err = "https://server.example.com/oauth/error" + rng.choice(["", "", "?lang=en", "/page"])
        p = dict(id="", base=rng.randint(1_500_000_000, 1_900_000_000), now=rng.randint(1, 10_000_000),
                 tz=v.get("tz", "UTC"),
                 cfg=dict(scopes=supported, grants=offered, lifespan=rng.choice([0, 1, 60, 3600, 86400, 31536000]),
                          idlife=rng.choice([1, 300, 36000, 31536000]), error=err,
                          issuer="https://issuer-%s.example.com" % word(rng, 4), oidc=v.get("oidc", "on") == "on",
                          alg=alg, kid=kid, key=KEYOF[alg]),
                 adapter=dict(shared=rng.random() < .3, order=rng.choice(["asked", "reg"]), gates="none",
                              codelife=60000, rtlife=600000,
                              tok=rng.choice(["at-%d-x", "at-%d." + word(rng, 40), "at-%d-é漢", word(rng, 300) + "-%d." + word(rng, 700)])),
                 clients=[a, b] if rng.random() < .5 else [b, a], users=[u, u2], codes=[], rts=[], reqs={}, steps=[])
        if alg != "HS256" or "alg" in v:
            p["adapter"]["tok"] = p["adapter"]["tok"].replace("é漢", "uni")
        self.p, self.v, self.rng = p, v, rng
        self.A, self.B, self.Z, self.sa, self.sb = A, B, Z, sa, sb
        self.ua, self.ua2, self.ub, self.u, self.u2 = ua, ua2, ub, u, u2
        self.method = method
        getattr(self, "do_" + ("authorize" if f == "consent" else f))(f)
        p["reqs"]["m"]["expect"] = case["x"]
        p["reqs"]["m"]["transport"] = v.get("transport", "direct")
        if p["reqs"]["m"]["transport"] == "direct" and rng.random() < .1 and "transport" not in v:
            p["reqs"]["m"]["transport"] = "asgi"
        p["id"] = "case-%s-%s" % (f, ",".join("%s=%s" % i for i in sorted(dev.items())) or "default")
        if extra:
            p["id"] += "#%d" % extra
        p["case"] = dict(f=f, d=dev)
        return p

    # -- credentials -------------------------------------------------------
    def creds(self, how, rng):
        """(auth, body pairs, query pairs)"""
        A, sa, m = self.A, self.sa, self.method
        none = dict(kind="none", id="", secret="")

        def B(i, s, **k):
            return dict(kind="basic", id=i, secret=s, **k), [], []

        def P(i, s):
            return dict(none), ([["client_id", i]] if i else []) + ([["client_secret", s]] if s else []), []

        def same(i, s, **k):
            return B(i, s, **k) if m == "client_secret_basic" else P(i, s) if m == "client_secret_post" else P(i, "")
        if how == "ok":
            return same(A, sa)
        if how == "scheme":
            return same(A, sa, scheme=rng.choice(["basic", "BASIC", "bAsIc"])) if m == "client_secret_basic" else same(A, sa)
        if how == "hdrcase":
            return same(A, sa, name=rng.choice(["authorization", "AUTHORIZATION"])) if m == "client_secret_basic" else same(A, sa)
        if how == "absent":
            return P("", "")
        if how == "inurl":
            q = [["client_id", A]] + ([["client_secret", sa]] if m != "none" else [])
            return dict(none), [], q
        if how == "bearer":
            import base64
            t = base64.b64encode(("%s:%s" % (A, sa)).encode()).decode()
            return dict(none, header="Bearer " + t), [], []
        if how == "wrong" or how.startswith("near_"):
            s = secretlike(rng) + "w" if how == "wrong" else near(rng, sa, how)
            return P(A, s) if m == "none" else same(A, s)
        if how == "empty":
            if m == "client_secret_post":
                a, f, q = P(A, "")
                return a, f + [["client_secret", ""]], q
            return B(A, "")
        if how == "othersecret":
            return P(A, self.sb) if m == "none" else same(A, self.sb)
        if how == "otherclient":
            return B(self.B, self.sb)
        if how == "unknown":
            return same(self.Z, sa)
        if how == "nearid":
            return same(near(rng, A, rng.choice(["near_case", "near_prefix", "near_suffix", "near_space", "near_form", "near_pct", "near_wide"]), (self.B,)), sa)
        if how == "moved":
            return P(A, sa) if m == "client_secret_basic" else B(A, sa)
        if how == "nosecret":
            return P(A, "")
        if how == "extrasecret":
            return P(A, secretlike(rng) + "w")
        if how in ("two", "twowrong"):
            a, f, q = B(A, sa)
            return a, [["client_id", A], ["client_secret", sa if how == "two" else rng.choice([x for x in (sa + "x", " ", ":", "0", "null", "None", sa[:-1] or "x", A, self.sb) if x != sa])]], q
        if how == "junkonly":
            h = rng.choice(["Basic", "Basic ", "Basic %%%", "Basic YWJj", "Basic YQ", "Basic =", "basic  ", "Basic \xff",
                            "Foo bar", "Basic é", "", "Basic /////w==", " Basic YTpi", "BasicYTpi", "Basic YT pi x"])
            return dict(kind="junk", id="", secret="", header=h), [], []
        raise KeyError(how)

    def fresh(self):
        """Correct credentials of A, for follow-ups."""
        return self.creds("ok", self.rng)

    def place(self, pairs, how, rng, bodyonly=()):
        """pairs -> (query, form); blank means given as blank"""
        q, f = [], []
        for k, val in pairs:
            decoy = [k, word(rng, 6)]
            mine = [k, val]
            inbody = k in bodyonly
            if how == "query":
                (f if inbody else q).append(mine)
            elif how == "body":
                f.append(mine)
            elif how == "split":
                (f if inbody or rng.random() < .5 else q).append(mine)
            elif how == "shadow":
                (f if inbody else q).append(mine)
                if not inbody:
                    f.append([k, ""])
            elif how == "dup":
                t = f if inbody or rng.random() < .5 else q
                t.append(decoy)
                t.append(mine)
                if rng.random() < .5:
                    t.append([k, ""])
            elif how == "bodywins":
                q.append(decoy)
                f.append(mine)
            elif how == "blank":
                (f if inbody else q).append(mine)
        if how == "blank":
            have = {k for k, _ in pairs}
            for k in ("scope", "state", "nonce", "redirect_uri", "client_id", "code_challenge", "code_challenge_method",
                      "response_type"):
                if k not in have:
                    rng.choice([q, f]).append([k, ""])
        if how != "dup":
            rng.shuffle(q)
            rng.shuffle(f)
        return q, f

    def req(self, r, **k):
        self.p["reqs"][r] = k
        k.setdefault("style", self.rng.randint(0, 1))

    # -- families ----------------------------------------------------------
    def do_authorize(self, ep):
        v, rng, p = self.v, self.rng, self.p
        regs = p["clients"][0]["redirs"] + p["clients"][1]["redirs"]
        ru = {"ok": self.ua, "second": self.ua2, "absent": "", "foreign": self.ub}.get(v["redir"])
        if ru is None:
            ru = uri_near(rng, self.ua, v["redir"], regs)
        cid = {"A": self.A, "B": self.B, "absent": "", "unknown": self.Z}.get(v["client"])
        if cid is None:
            cid = near(rng, self.A, v["client"], (self.B,))
        rt = {"code": "code", "absent": "", "token": "token", "idtoken": rng.choice(["id_token", "code id_token", "password"])
              }.get(v["rtype"])
        if rt is None:
            rt = near(rng, "code", v["rtype"])
        me = {"S256": "S256", "plain": "plain", "absent": "", "lower": "s256", "upper": "PLAIN",
              "other": rng.choice(["none", "S512", "RS256", "sha256"]), "suffix": "S256 "}[v["method"]]
        n = {"s256": 0, "len43": 43, "len128": 128, "len42": 42, "len129": 129, "len1": 1, "absent": -1, "space43": 43, "space50": 50, "space129": 129, "padded": 0}[v["chal"]]
        alpha = UNRES if rng.random() < .9 else UNRES + "é漢"
        ver = word(rng, rng.randint(43, 128), UNRES)
        if n == 0:
            ch = s256(ver) + ("=" if v["chal"] == "padded" else "")
            if me == "plain":
                ver = ch
        elif n < 0:
            ch = ""
        else:
            ch = word(rng, n, alpha)
            if v["chal"].startswith("space"):
                sp = rng.choice([" ", "\t", "\n", "\u00a0"])
                ch = rng.choice([sp + ch[1:], ch[:-1] + sp, sp + ch[1:-1] + sp])
            if me == "plain":
                ver = ch
        known = set(p["cfg"]["scopes"]) | set(p["clients"][0]["scopes"]) | set(p["clients"][1]["scopes"])
        sc = scope_text(rng, v["scope"], self.nm, known)
        nonce = make_nonce(rng, v["nonce"])
        state = make_state(rng, v["state"])
        pairs = [[k, x] for k, x in (("response_type", rt), ("client_id", cid), ("redirect_uri", ru), ("scope", sc),
                                     ("state", state), ("nonce", nonce), ("code_challenge", ch),
                                     ("code_challenge_method", me)) if x]
        if v["state"] == "blank":
            pairs.append(["state", ""])
        pairs += decoys(rng, v["extra"])
        q, f = self.place(pairs, v["place"], rng)
        self.req("m", ep=ep, q=q, f=f, user=self.u if v["login"] == "user" else None)
        p["steps"].append(["run", "m"])
        other = "authorize" if ep == "consent" else "consent"
        self.req("o", ep=other, q=q, f=f, user=self.u)
        p["steps"].append(["run", "o"])
        src = "m" if ep == "authorize" else "o"
        # the client redeems what it got
        who = cid if cid in (self.A, self.B) else self.A
        auth = dict(kind="basic", id=who, secret=self.sa if who == self.A else self.sb)
        body = [["grant_type", "authorization_code"], ["code", {"$code": src}], ["redirect_uri", ru or self.ua],
                ["code_verifier", ver]]
        self.req("t", ep="token", q=[], f=body, auth=auth)
        self.req("t2", ep="token", q=[], f=body, auth=auth)
        p["steps"] += [["run", "t"], ["run", "t2"]]

    def token_common(self, own):
        v, rng = self.v, self.rng
        auth, cf, cq = self.creds(v["auth"], rng)
        gt = {"ok": own, "absent": "", "unknown": rng.choice(["password", "implicit", "code", "urn:x"])}.get(v["gtype"])
        if gt is None:
            gt = near(rng, own, v["gtype"], ALL3)
        return auth, cf, cq, gt

    def finish(self, pairs, auth, cf, cq, bodyonly=()):
        v, rng = self.v, self.rng
        pairs = pairs + decoys(rng, v["extra"])
        names = {k for k, _ in cf}
        q, f = self.place(pairs + cf, v["place"], rng, bodyonly=set(bodyonly) | names)
        for x in cq:
            q.insert(rng.randint(0, len(q)), x)
        self.req("m", ep="token", q=q, f=f, auth=auth)

    def do_redeem(self, _):
        v, rng, p = self.v, self.rng, self.p
        nm = self.nm
        ver = rng.choice("abcXYZ") + word(rng, rng.choice([rng.randint(42, 127), 42, 127]), UNRES)
        meth = {"S256": "S256", "plain": "plain", "unknown": rng.choice(["s256", "none", "S512", ""])}[v["smeth"]]
        chal = ver if v["smeth"] == "plain" else s256(ver)
        if v["schal"] in ("padded", "std", "hex", "swapped"):
            # the right challenge in a wrong form
            h = hashlib.sha256(ver.encode())
            chal = {"padded": chal + ("=" if v["smeth"] != "plain" else "=="), "std": base64.b64encode(h.digest()).decode(), "hex": h.hexdigest(),
                    "swapped": s256(ver) if v["smeth"] == "plain" else ver}[v["schal"]]
        elif v["schal"] != "fit":
            chal = near(rng, chal, v["schal"])
        now = p["now"]
        exp = {"expired": now - rng.choice([1, 1000, 60000]), "atexp": now, "justbefore": now + 1}.get(
            v["code"], now + rng.choice([1000, 60000]))
        k = rng.choice("abcXYZ") + word(rng, rng.choice([40, 40, 64, 128, 300]), UNRES)
        owner = rng.choice([self.u, self.u2])
        nonce = make_nonce(rng, v["nonce"]) or None
        rec = dict(code=k, client=self.B if v["code"] == "foreign" else self.A, user=owner, redir=self.ua,
                   scopes=[nm[i] for i in v["cscopes"].split()], chal=chal, meth=meth, nonce=nonce, exp=exp)
        p["codes"].append(rec)
        a = [c for c in p["clients"] if c["id"] == self.A][0]
        if v["code"] == "used":
            # spent by an earlier request, possibly a failing one
            au, cf, cq = self.fresh()
            pre = [["grant_type", "authorization_code"], ["code", k], ["redirect_uri", self.ua],
                   ["code_verifier", rng.choice([ver, ver, "x" * 43])]]
            if "authorization_code" in a["grants"] and "authorization_code" in p["cfg"]["grants"]:
                self.req("pre", ep="token", q=[], f=pre + cf, auth=au)
                p["steps"].append(["run", "pre"])
            else:
                p["codes"].pop()
        if v["rotated"] != "no":
            # an ID token signed with the key used before
            ver0, k0 = word(rng, 50, UNRES), word(rng, 40, UNRES)
            p["codes"].append(dict(rec, code=k0, client=self.B, redir=self.ub, scopes=["openid", nm["r"]], chal=s256(ver0), meth="S256",
                                   exp=now + 60000, nonce=word(rng, 9)))
            self.req("old", ep="token", q=[], auth=dict(kind="basic", id=self.B, secret=self.sb),
                     f=[["grant_type", "authorization_code"], ["code", k0], ["redirect_uri", self.ub], ["code_verifier", ver0]])
            p["steps"].append(["run", "old"])
            na = p["cfg"]["alg"] if v["rotated"] == "key" else rng.choice([a for a in KEYOF if a != p["cfg"]["alg"]])
            new = [n for n in FITS[na] if n != p["cfg"]["key"]]
            p["steps"].append(["env", dict(op="key", alg=na, key=rng.choice(new), kid=rng.choice([p["cfg"]["kid"], word(rng), ""]))])
        if v["redirreg"] == "removed":
            p["steps"].append(["env", dict(op="client", c=dict(a, redirs=[self.ua2]))])
        if v["user"] == "gone":
            p["steps"].append(["env", dict(op="deluser", u=owner)])
        auth, cf, cq, gt = self.token_common("authorization_code")
        code = {"absent": "", "unknown": word(rng, 41)}.get(v["code"], k)
        if v["code"].startswith("near"):
            code = near(rng, k, v["code"])
        ru = {"ok": self.ua, "absent": "", "second": self.ua2, "foreign": self.ub}.get(v["redir"])
        if ru is None:      # near to the URI of the code, registered or not
            ru = uri_near(rng, self.ua, v["redir"].replace("reg_", ""), [self.ua, self.ua2, self.ub])
            if v["redir"].startswith("reg_"):
                a["redirs"].append(ru)
                for s in p["steps"]:
                    if s[0] == "env" and s[1]["op"] == "client":
                        s[1]["c"]["redirs"].append(ru)
        cv = {"ok": ver, "absent": "", "wrong": word(rng, 43), "challenge": chal, "padded": ver + "=",
              "nonascii": ver[:-1] + "é"}.get(v["verifier"])
        if cv is None:
            cv = near(rng, ver, v["verifier"], (chal,))
        pairs = [[n, x] for n, x in (("grant_type", gt), ("code", code), ("redirect_uri", ru), ("code_verifier", cv)) if x]
        ex = v["extra"]
        if ex == "scope":
            pairs.append(["scope", " ".join([nm["w"], nm["x"]])])
        elif ex in ("refresh_token", "state", "nonce"):
            pairs.append([ex, word(rng)])
        elif ex == "client_id_query":
            cq = cq + [["client_id", self.B]]
        self.finish(pairs, auth, cf, cq)
        p["steps"].append(["run", "m"])
        au, cf, cq = self.fresh()
        again = [["grant_type", "authorization_code"], ["code", k], ["redirect_uri", self.ua], ["code_verifier", ver]]
        self.req("again", ep="token", q=[], f=again + cf, auth=au)
        p["steps"].append(["run", "again"])
        au, cf, cq = self.fresh()
        self.req("ref", ep="token", q=[], f=[["grant_type", "refresh_token"], ["refresh_token", {"$rt": "m"}]] + cf, auth=au)
        p["steps"].append(["run", "ref"])

    def rt_record(self, client, exp, scopes):
        rng = self.rng
        t = rng.choice("abcXYZ") + word(rng, rng.choice([20, 30, 64, 300]), UNRES)
        rec = dict(rt=t, client=client, user=rng.choice([self.u, self.u2]), scopes=scopes, exp=exp)
        self.p["rts"].append(rec)
        return rec

    def do_refresh(self, _):
        v, rng, p, nm = self.v, self.rng, self.p, self.nm
        now = p["now"]
        exp = {"expired": now - rng.choice([1, 1000, 60000]), "atexp": now, "justbefore": now + 1}.get(v["rt"], now + 60000)
        held = [nm["r"], nm["w"], nm["openidx"]]
        if v["scope"] in ("heldq", "heldx"):
            held.append(nm[v["scope"][4:]])
        rng.shuffle(held)
        rec = self.rt_record(self.B if v["rt"] == "foreign" else self.A, exp, held)
        other = self.rt_record(self.B, now + 60000, list(held) + [nm["openid"]])
        if v["rt"] == "revoked":
            au, cf, cq = self.fresh()
            self.req("pre", ep="revoke", q=[], f=[["token", rec["rt"]]] + cf, auth=au)
            p["steps"].append(["run", "pre"])
        if v["user"] == "gone":
            p["steps"].append(["env", dict(op="deluser", u=rec["user"])])
        auth, cf, cq, gt = self.token_common("refresh_token")
        t = {"absent": "", "unknown": word(rng, 31), "code": word(rng, 64)}.get(v["rt"], rec["rt"])
        if v["rt"].startswith("near"):
            t = near(rng, rec["rt"], v["rt"], (other["rt"],))
        known = set(p["cfg"]["scopes"]) | set(p["clients"][0]["scopes"]) | set(p["clients"][1]["scopes"]) | set(held)
        sc = scope_text(rng, v["scope"], nm, known)
        pairs = [[n, x] for n, x in (("grant_type", gt), ("refresh_token", t), ("scope", sc)) if x]
        self.finish(pairs, auth, cf, cq)
        p["steps"].append(["run", "m"])
        # a chain of refreshes with what it got, ending with an attempt to widen
        src = "m"
        for i, sc2 in enumerate(["", "", " ".join(held)]):
            au, cf, cq = self.fresh()
            f = [["grant_type", "refresh_token"], ["refresh_token", {"$rt": src}]] + cf
            if sc2:
                f.append(["scope", sc2])
            self.req("r%d" % i, ep="token", q=[], f=f, auth=au)
            p["steps"].append(["run", "r%d" % i])
            src = "r%d" % i

    def do_cred(self, _):
        v, rng, p, nm = self.v, self.rng, self.p, self.nm
        auth, cf, cq, gt = self.token_common("client_credentials")
        known = set(p["cfg"]["scopes"]) | set(p["clients"][0]["scopes"]) | set(p["clients"][1]["scopes"])
        sc = scope_text(rng, v["scope"], nm, known)
        pairs = [[n, x] for n, x in (("grant_type", gt), ("scope", sc)) if x]
        self.finish(pairs, auth, cf, cq)
        p["steps"].append(["run", "m"])

    def do_revoke(self, _):
        v, rng, p, nm = self.v, self.rng, self.p, self.nm
        rec = self.rt_record(self.A, p["now"] + 60000, [nm["r"], nm["w"]])
        oth = self.rt_record(self.B, p["now"] + 60000, [nm["r"]])
        auth, cf, cq = self.creds(v["auth"], rng)
        t = {"rt": rec["rt"], "at": word(rng, 20), "unknown": word(rng, 31), "foreign": oth["rt"], "absent": "",
             "inurl": rec["rt"], "unicode": "t" + UNI, "odd": "a b&c=d+e%20 " + word(rng),
             "scheme": rng.choice(["Bearer ", "bearer ", "Basic ", "refresh_token ", "token:", "urn:", "\""]) + rec["rt"], "code": word(rng, 64)}.get(v["token"])
        if t is None:
            t = near(rng, rec["rt"], v["token"], (oth["rt"],))
        h = {"absent": "", "refresh_token": "refresh_token", "access_token": "access_token",
             "other": rng.choice(["id_token", "code", "token", "pct_token"]), "inurl": "id_token"}.get(v["hint"])
        if h is None:
            h = near(rng, rng.choice(["refresh_token", "access_token"]), v["hint"])
        pairs = []
        if t:
            cq.append(["token", t]) if v["token"] == "inurl" else pairs.append(["token", t])
        if h:
            cq.append(["token_type_hint", h]) if v["hint"] == "inurl" else pairs.append(["token_type_hint", h])
        self.finish(pairs, auth, cf, cq, bodyonly=("token", "token_type_hint"))
        p["reqs"]["m"]["ep"] = "revoke"
        p["steps"].append(["run", "m"])
        for i, x in enumerate((rec, oth)):
            if x is rec:
                au, cf, cq = self.fresh()
            else:
                au, cf = dict(kind="basic", id=self.B, secret=self.sb), []
            self.req("r%d" % i, ep="token", q=[], f=[["grant_type", "refresh_token"], ["refresh_token", x["rt"]]] + cf, auth=au)
            p["steps"].append(["run", "r%d" % i])
