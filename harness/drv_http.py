"""Drives the HTTP layer (property C25): requests, responses, URLs, headers."""
import asyncio
import base64
import json
import os
import random
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import drvlib                                  # noqa: E402
from common import esc                         # noqa: E402

HOST = "server.example.com"
LITERAL = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-._~!$'()*,;:@/?"
PLAIN = LITERAL[:66]
EXOTIC = "éßçØ漢字ひらがな한글🙂𝔘אب\u00a0\u2028\u200b\ufeff\u0301"
RESERVED = "&=+%#?/:;@ \"'<>[]{}|\\^`$,!*()"
CONTROL = "\x00\t\n\r\x7f\x01\x1f\x85"


def ch(c):
    return c if " " <= c <= "~" else "u%x" % ord(c)


def chars(t):
    return [ch(c) for c in t]


def pct(c, rng=None):
    f = "%%%02X" if rng is None or rng.random() < 0.6 else "%%%02x"
    return "".join(f % b for b in c.encode())


def quote(t, rng, space="+"):
    """The text of a name or value, written by hand."""
    out = ""
    for c in t:
        if c == " ":
            out += space if rng.random() < 0.7 else "%20"
        elif c in PLAIN and rng.random() < 0.97:
            out += c
        else:
            out += pct(c, rng)
    return out


def write(fields, rng):
    return "&".join(quote(n, rng) + "=" + quote(v, rng) for n, v in fields)


def unquote(t):
    raw = bytearray()
    i = 0
    t = t.encode()
    while i < len(t):
        if t[i:i + 1] == b"+":
            raw += b" "
        elif t[i:i + 1] == b"%":
            raw.append(int(t[i + 1:i + 3], 16))
            i += 2
        else:
            raw.append(t[i])
        i += 1
    return raw.decode()


def read(q):
    """All the fields of a query, blank ones included."""
    out = []
    for part in q.split("&"):
        if part:
            n, _, v = part.partition("=")
            out.append([unquote(n), unquote(v)])
    return out


def fseq(fields):
    return [{"n": chars(n), "v": chars(v)} for n, v in fields]


# -- texts -------------------------------------------------------------------
def text(rng, kind, n=None):
    n = n if n is not None else rng.randint(1, 9)
    pool = {"plain": PLAIN, "reserved": RESERVED + "ab", "unicode": EXOTIC + "ab", "spaces": "  ab", "control": CONTROL + "ab",
            "hex": "%2612Fab", "semi": ";ab;"}.get(kind, PLAIN)
    return "".join(rng.choice(pool) for _ in range(n))


def fields(rng, kind, others=()):
    def one(k="plain"):
        return [text(rng, "plain"), text(rng, k)]
    if kind == "plain":
        return [one() for _ in range(rng.randint(1, 4))]
    if kind == "dup":
        a, b = one(), one()
        return [a, [b[0], text(rng, "plain")], [a[0], text(rng, "plain")], b] + ([a] if rng.random() < 0.3 else [])
    if kind == "blank":
        a, b = one(), one()
        return rng.choice([[a, [b[0], ""]], [[b[0], ""], a], [a, [a[0], ""]], [[a[0], ""], a], [[b[0], ""]]])
    if kind == "noname":
        return [one(), ["", text(rng, "plain")]]
    if kind == "many":
        return [one() for _ in range(rng.choice([20, 60, 130]))] + [one("reserved")]
    if kind == "long":
        return [one(), [text(rng, "plain"), text(rng, rng.choice(["plain", "unicode"]), rng.choice([300, 1100]))], one()]
    if kind == "same":
        return [[n, text(rng, "plain")] for n, v in others][:3] + [one()] if others else [["scope", text(rng, "spaces")], one()]
    if kind == "names":
        return [[text(rng, k), text(rng, "plain")] for k in ("reserved", "unicode", "spaces", "control", "hex", "semi")]
    return [one(kind) for _ in range(rng.randint(1, 3))]


# -- plans -------------------------------------------------------------------
def plans(job):
    seed, kind = job["seed"], job["kind"]
    for it in job["items"]:
        i, c = it[0], it[1]
        for k in range(job.get("copies", 1)):
            rng = random.Random("%s|http|%s|%s|%s" % (seed, kind, i, k))
            ident = "%s-%s#%d" % (kind, i, k)
            if kind == "wire":
                ops = [wire(rng, c, it[2])]
            elif kind == "hist":
                ops = history(rng, c)
            else:
                ops = [globals()["case_" + kind](rng, c)]
            yield {"id": ident, "seed": seed, "ops": ops}


def wire(rng, q, f):
    a, b = rng.sample(LITERAL, 2)
    ea, eb, ec = rng.sample(rng.choice([RESERVED, EXOTIC, CONTROL, PLAIN, RESERVED]), 3)
    sub = {("chr", "a"): (a, a), ("chr", "b"): (b, b), ("esc", "&"): (rng.choice(["&", ea]), 0), ("esc", "="): (rng.choice(["=", eb]), 0),
           ("esc", "+"): (rng.choice(["+", ec]), 0)}

    def conc(w):
        out, txt = [], ""
        for s in w:
            c, lit = sub.get((s["k"], s["c"]), (s["c"], s["c"]))
            out.append([s["k"], c])
            txt += lit if lit else pct(c, rng)
        return out, txt
    qs, qt = conc(q)
    fs, ft = conc(f)
    return request(rng, via=rng.choice(["direct", "starlette"]), query=qt, body=ft, q={"wire": qs}, f={"wire": fs})


def request(rng, via="direct", method="POST", path="/oauth/authorize", query="", body=None, q=None, f=None, user="some", headers=(), g=()):
    return {"g": {"fields": [list(x) for x in g]}, "frag": write(g, rng) if g else "", "op": "request", "via": via, "method": method, "path": path, "query": query, "body": body, "q": q or {"fields": []},
            "f": f or {"fields": []}, "user": user, "headers": list(headers), "cut": sorted(rng.sample(range(64), 2))}


def case_request(rng, c):
    qf = fields(rng, c["q"]) if c["query"] == "fields" else []
    ff = fields(rng, c["f"], qf) if c["body"] == "form" else []
    if c["q"] == "same" and ff and qf:
        qf = [[n, text(rng, "plain")] for n, v in ff][:2] + qf
    method = c["method"]
    path = {"plain": "/oauth/authorize", "root": "/", "deep": "/a/b.c/d-e/", "escaped": "/a%20b/%C3%A9", "none": ""}[c["path"]]
    if c["via"] == "starlette":
        path = {"none": "/", "/a%20b/%C3%A9": "/a~b/c"}.get(path, path) or "/"
        method = method.upper()
    gf = [] if c["via"] == "starlette" or c.get("frag", "none") == "none" else [[n, text(rng, "plain")] for n, v in ff + qf][:3] + [["code", "x"]] \
        if c["frag"] == "same" else fields(rng, "reserved" if c["frag"] == "reserved" else "plain")
    heads = {"none": [], "one": [["X-Test", text(rng, "plain")]], "upper": [["X-UPPER-CASE", "Va lue"]], "empty": [["x-empty", ""]],
             "several": [["Accept", "text/html, */*;q=0.8"], ["x-lower", "v"], ["X-Mixed-cAse", "W, x=\"y\""], ["Cookie", "a=b; c=d"]],
             "auth": [["Authorization", "Bearer " + text(rng, "plain", 20)]],
             "form": [[rng.choice(["Content-Type", "content-type", "CONTENT-TYPE"]), rng.choice(["application/x-www-form-urlencoded", "application/x-www-form-urlencoded; charset=UTF-8",
                                                                                             "application/x-www-form-urlencoded;charset=utf-8", "APPLICATION/X-WWW-FORM-URLENCODED"])]]}[c["headers"]]
    body = {"form": write(ff, rng), "none": None, "empty": "", "nothing": "&"}[c["body"]]
    query = {"fields": write(qf, rng), "none": "", "bare": "?"}[c["query"]]
    if query == "?":
        query, bare = "", True
    else:
        bare = False
    r = request(rng, c["via"], method, path, query, body, {"fields": qf}, {"fields": ff}, c["user"], heads, g=gf)
    return dict(r, bare=bare)


def case_auth(rng, c):
    idt, sec = text(rng, "plain", rng.randint(1, 12)), text(rng, "plain", rng.randint(1, 20))
    idt = idt.replace(":", "_")
    p = c["payload"]
    if c["op"] == "basic":
        t = {"colon": idt + ":" + sec + ":" + sec, "colons": idt + "::" + sec + ":", "nosecret": idt + ":", "noid": ":" + sec, "onlycolon": ":",
             "nocolon": idt, "unicode": text(rng, "unicode").replace(":", "") + ":" + text(rng, "unicode"), "space": idt + " x:y " + sec,
             "spaces": idt + ": " + sec + " ", "slash": "ÿÿ>>??" + idt + ":ÿÿ??>>", "long": idt * 60 + ":" + sec * 60, "empty": "",
             "odd": rng.choice([idt + ',x:"' + sec + '"', idt + "%3A:" + sec + "%2B+", idt + "+:" + sec + ";", "\t" + idt + ":" + sec + "\n", idt + "\0:" + sec + "\0"])}.get(p, idt + ":" + sec)
        raw = t.encode()
        if p == "notutf8":
            raw = b"\xff\xfe" + idt.encode() + b":" + sec.encode()
        pay = base64.b64encode(raw).decode()
        if p == "badb64":
            pay = rng.choice(["*" * 8, "a", "ab*d*", "YTpi=YT", "=" * 5, "Z", "\u00e9\u00e9"])
        if p == "badpad":
            while not pay.endswith("="):
                t += "x"
                pay = base64.b64encode(t.encode()).decode()
            pay = pay.rstrip("=")
        form = {"nosecret": "any", "noid": "any", "onlycolon": "any", "badb64": "open", "badpad": "any", "notutf8": "none", "empty": "none", "nocolon": "none"}.get(p, "std")
        if p == "badb64" and pay in ("a", "Z", "*" * 8):
            form = "none"
    else:
        t = {"colon": idt + ":" + sec, "unicode": text(rng, "plain") + "~", "space": idt + "=", "spaces": idt + "==", "slash": "a/b+c_d-e.f~g", "long": sec * 100,
             "empty": "", "nocolon": "basic", "noid": "bearer", "notutf8": "0", "badpad": "Bearer",
             "odd": rng.choice([idt + "," + sec, idt + ";x=" + sec, '"%s"' % sec, idt + ", " + sec, "{%s}" % idt, "%41%2C" + sec, idt + "?&#" + sec])}.get(p, sec)
        pay = t
        form = "none" if t == "" else "std"
    word = {"basic": "Basic", "bearer": "Bearer"}[c["op"]]
    sch = {"Title": word, "lower": word.lower(), "upper": word.upper(), "mixed": word[:2] + word[2:].upper(), "cross": {"Basic": "Bearer", "Bearer": "Basic"}[word],
           "other": rng.choice(["Digest", "Bas", "Negotiate", "Bear", ""]), "longer": word + "x", "absent": None}[c["scheme"]]
    if c["scheme"] in ("cross", "other", "longer", "absent"):
        form = "none"
    head = None if sch is None else sch + {"one": " ", "many": "   ", "tab": "\t", "none": ""}[c["sep"]] + pay
    if c["sep"] == "none":
        form = "none" if form != "open" else "open"
    elif c["sep"] != "one":
        form = {"std": "any"}.get(form, form)
    if sch == "" and c["op"] == "bearer" and form == "none" and t in ("basic", "bearer", "Bearer"):
        form = "open"
    key, via = c["key"], c["via"]
    if via == "dict" and key not in ("Authorization", "authorization"):
        via = "request"
    if via == "starlette" and not all(x < "\x80" for x in head or ""):
        via = "dict"
        key = "Authorization"
    return {"op": c["op"], "via": via, "key": key, "head": head, "form": form, "text": t}


def case_add(rng, c):
    base = {"plain": "https://client.example.com/cb", "path": "https://client.example.com/a/b-c/d.e~f", "port": "http://127.0.0.1:8080/cb",
            "user": "https://u:p@client.example.com/cb", "escaped": "https://client.example.com/%C3%A9%20%26x", "bare": "https://client.example.com",
            "scheme": "com.example.app:/cb", "ipv6": "http://[::1]:80/cb",
            "root": "https://client.example.com/", "dir": "https://client.example.com/a/b/", "upper": "HTTPS://Client.Example.COM/CB",
            "dslash": "https://client.example.com//a//../b/."}[c["base"]]
    old = {"none": [], "one": [["x", "1"]], "blank": [["x", ""]], "escaped": [["x&y", "a=b&c d+%"]], "bareq": [], "dup": [["x", "1"], ["x", "2"], ["y", "1"]],
           "amp": [["x", "1"]], "nested": [["u", "https://a.example/?b=c&d=e"]], "bracket": [["x[]", "1"], ["y", "(2)"]]}[c["old"]]
    q = {"none": None, "bareq": "", "amp": "x=1&"}.get(c["old"], write(old, rng))
    name = {"plain": lambda: "p" + text(rng, "plain", 3), "reserved": lambda: text(rng, "reserved", 3) + "r", "unicode": lambda: text(rng, "unicode", 3) + "u"}[c["name"]]
    val = {"one": text(rng, "plain"), "reserved": text(rng, "reserved"), "unicode": text(rng, "unicode"), "space": " a  b ", "plus": "a+b++", "percent": "%41%2B%",
           "blank": "", "int": 3600, "zero": 0, "false": False, "url": "https://x.example/a?b=c&d=%20#e", "newline": "a\r\nb\tc", "nul": "\0\x7f"}.get(c["new"], "v")
    new = {name(): val}
    if c["new"] == "none":
        new = {}
    elif c["new"] == "many":
        for k in range(40):
            new[name() + str(k)] = text(rng, rng.choice(["plain", "reserved", "unicode"]))
    elif c["new"] == "null":
        new[name() + "z"] = None
    elif c["new"] == "sameasold" and old:
        new = {old[0][0]: "other"}
    new.pop("url", None)
    return {"op": c["op"], "base": base, "q": q, "old": old, "new": [[k, v] for k, v in new.items()]}


def case_response(rng, c):
    heads = {"none": None, "one": [["X-Test", "a b"]], "several": [["Cache-Control", "no-store"], ["Pragma", "no-cache"], ["WWW-Authenticate", 'Basic realm="x"']],
             "type": [["Content-Type", "text/html; charset=utf-8"]], "typelower": [["content-type", "text/plain"]], "empty": [], "null": [["X-Null", None], ["X-A", "b"]]}[c["headers"]]
    body = {"text": "plain text", "none": None, "empty": "", "bytes": {"hex": "00ff8010aa0a0d"}, "unicode": "ü漢🙂 <>&", "object": {"error": "x", "n": 1, "f": 1.5, "t": True},
            "nested": {"a": [1, {"b": None}], "é漢": "\u2028\"\\\n"}, "list": [1, "x", []], "zero": 0, "big": "x" * 70000}[c["body"]]
    cls = c["cls"]
    if cls == "plain" and c["body"] in ("object", "nested", "list"):
        body = "other"
    if cls == "json" and c["body"] == "bytes":
        body = {"x": "y"}
    if cls == "redirect":
        body = "https://client.example.com/cb?" + write(fields(rng, rng.choice(["plain", "reserved", "unicode"])), rng)
    if c["headers"] == "typelower":
        heads = [["Content-Type", "text/plain"]]
    return {"op": "response", "cls": cls, "via": c["via"], "status": None if c["status"] == "default" else int(c["status"]), "headers": heads, "body": body}


def history(rng, c):
    texts = {}

    def conc(x):
        x = "".join(x)
        if x not in texts:
            texts[x] = x if len(x) == 0 else (x + text(rng, rng.choice(["plain", "reserved", "unicode"]), 2))
        return texts[x]
    ops, cache = [], {}
    for o in c["h"]:
        if o["op"] == "request":
            q = [[conc(f["n"]), conc(f["v"])] for f in o["q"]]
            f = [[conc(f["n"]), conc(f["v"])] for f in o["f"]]
            k = json.dumps([q, f])
            if k not in cache:
                cache[k] = (write(q, rng), write(f, rng))
            r = request(rng, rng.choice(["direct", "direct", "starlette"]), query=cache[k][0], body=cache[k][1], q={"fields": q}, f={"fields": f},
                        user=rng.choice(["some", "none", "falsy"]), headers=[["X-Req", text(rng, "plain")]] if rng.random() < 0.5 else [])
            ops.append(r)
        elif o["op"] == "take":
            ops.append({"op": "take", "r": o["r"], "n": conc(o["n"])})
        else:
            ops.append({"op": "reread", "r": o["r"]})
        if rng.random() < 0.3:
            ops.append(case_response(rng, {"cls": rng.choice(["plain", "json", "redirect"]), "via": rng.choice(["object", "starlette"]), "status": rng.choice(["200", "400"]),
                                           "headers": rng.choice(["none", "one", "several", "type"]), "body": "object"}))
            ops[-1]["touch"] = rng.random() < 0.7
    return ops


# -- execution ---------------------------------------------------------------
class User:
    def __init__(self, truth=True):
        self.truth = truth

    def __bool__(self):
        return self.truth

    def get_user_id(self):
        return "u"


def dictseq(d):
    """A dictionary of texts as a sequence, or None."""
    if not isinstance(d, dict) or not all(isinstance(k, str) and isinstance(v, str) for k, v in d.items()):
        return None
    return fseq(d.items())


class Run:
    def __init__(self):
        from psion import webtools
        from psion.jose import JsonWebKey, JsonWebKeySet
        from psion.oauth2.adapter import BaseAdapter
        from psion.oauth2.models import JSONResponse, RedirectResponse, Request, Response
        from psion.oauth2.providers import StarletteProvider
        self.W, self.Request = webtools, Request
        self.RESP = {"plain": Response, "json": JSONResponse, "redirect": RedirectResponse}
        self.provider = StarletteProvider("https://" + HOST, adapter=BaseAdapter, grants=[], scopes=[], keyset=JsonWebKeySet([JsonWebKey({"kty": "oct", "k": "AAAA", "kid": "k"})]),
                                          error_url="https://" + HOST + "/error")
        self.reqs = []
        self.ev = []

    def run(self, p):
        for o in p["ops"]:
            self.ev.append(asyncio.run(getattr(self, "do_" + {"bearer": "basic", "redirect": "add"}.get(o["op"], o["op"]))(o)))
        return {"id": p["id"], "ev": self.ev}

    def scope(self, o, user):
        heads = [(b"host", HOST.encode())] + [(n.lower().encode(), v.encode("latin-1")) for n, v in o["headers"]]
        return {"type": "http", "http_version": "1.1", "method": o["method"], "scheme": "https", "server": (HOST, 443), "client": ("127.0.0.1", 1),
                "path": o["path"], "raw_path": o["path"].encode(), "root_path": "", "query_string": o["query"].encode(), "headers": heads, "user": user}

    async def do_request(self, o):
        user = {"some": User(), "none": None, "falsy": User(False)}[o["user"]]
        heads = [{"n": n.lower(), "v": esc(v)} for n, v in o["headers"]]
        url = "https://" + HOST + o["path"] + ("?" + o["query"] if o["query"] or o.get("bare") and o["via"] == "direct" else "") + ("#" + o["frag"] if o.get("frag") else "")
        if o["via"] == "starlette":
            heads.append({"n": "host", "v": HOST})

        def side(x):
            return {"wire": True, "w": [{"k": k, "c": ch(c)} for k, c in x["wire"]]} if "wire" in x else {"wire": False, "f": fseq(x["fields"])}
        sent = {"q": side(o["q"]), "f": side(o["f"]), "g": side(o["g"]), "path": esc(o["path"]), "url": esc(url), "method": o["method"], "user": o["user"], "headers": heads}
        body = None if o["body"] is None else o["body"].encode()
        try:
            if o["via"] == "starlette":
                from starlette.requests import Request as SReq
                b = body or b""
                i, j = o["cut"]
                chunks = [b[:i], b[i:j], b[j:]]

                async def receive():
                    if chunks:
                        x = chunks.pop(0)
                        return {"type": "http.request", "body": x, "more_body": bool(chunks)}
                    return {"type": "http.disconnect"}
                r = await self.provider.create_request(SReq(self.scope(o, user), receive))
            else:
                r = self.Request(o["method"], url, dict(o["headers"]), body, user)
        except Exception as x:
            self.reqs.append(None)
            return {"op": "request", "err": type(x).__name__, "sent": sent}
        self.reqs.append((r, user, o["user"]))
        return dict(self.look(len(self.reqs)), op="request", err="", sent=sent)

    def look(self, n):
        r, user, uname = self.reqs[n - 1]

        def get(f):
            try:
                return f()
            except Exception as x:
                return "<%s>" % type(x).__name__
        g = dictseq(get(lambda: r.fragment))
        d, q, f = dictseq(get(lambda: r.data)), dictseq(get(lambda: r.query)), dictseq(get(lambda: r.form()))
        h = get(lambda: r.headers)
        hs = [{"n": esc(k), "v": esc(v)} for k, v in h.items()] if isinstance(h, dict) else [{"n": "?", "v": esc(h)}]
        return {"data": d or [], "query": q or [], "form": f or [], "frag": g or [], "headers": hs,
                "obs": {"data": "?" if d is None else "", "query": "?" if q is None else "", "form": "?" if f is None else "", "frag": "?" if g is None else "", "path": esc(get(lambda: r.path)),
                        "url": esc(get(lambda: r.url)), "method": esc(get(lambda: r.method)), "user": uname if get(lambda: r.user) is user else "another"}}

    async def do_take(self, o):
        x = self.reqs[o["r"] - 1]
        if x is not None:
            x[0].data.pop(o["n"], None)
        return {"op": "take", "r": o["r"], "n": chars(o["n"])}

    async def do_reread(self, o):
        if self.reqs[o["r"] - 1] is None:
            return {"op": "reread", "r": o["r"]}
        return dict(self.look(o["r"]), op="reread", r=o["r"])

    async def do_basic(self, o):
        heads = {} if o["head"] is None else {o["key"]: o["head"]}
        heads["X-Other"] = "Basic eDp5"
        try:
            if o["via"] == "request":
                heads = self.Request("POST", "https://" + HOST + "/", heads, b"", None).headers
            elif o["via"] == "starlette":
                from starlette.requests import Request as SReq

                async def receive():
                    return {"type": "http.request", "body": b"", "more_body": False}
                q = {"method": "GET", "path": "/", "query": "", "headers": [[k, v] for k, v in heads.items()]}
                heads = (await self.provider.create_request(SReq(self.scope(q, None), receive))).headers
            got = self.W.get_basic_authorization(heads) if o["op"] == "basic" else self.W.get_bearer_authorization(heads)
            err = ""
        except Exception as x:
            got, err = None, type(x).__name__
        none = {"ok": False, "id": [], "secret": []}
        if o["op"] == "bearer":
            g = none if got is None else {"ok": True, "id": chars(got) if isinstance(got, str) else ["?"], "secret": []}
        elif isinstance(got, (tuple, list)) and len(got) == 2 and all(isinstance(x, str) for x in got):
            g = {"ok": True, "id": chars(got[0]), "secret": chars(got[1])}
        elif isinstance(got, (tuple, list)) and tuple(got) == (None, None):
            g = none
        else:
            g = {"ok": True, "id": ["?"], "secret": ["?"]}
        return {"op": o["op"], "form": o["form"], "text": chars(o["text"]), "got": g, "err": err}

    async def do_add(self, o):
        new = {k: v for k, v in o["new"]}
        url = o["base"] + ("" if o["q"] is None else "?" + o["q"])
        err = ""
        want = [[k, str(v)] for k, v in o["new"] if v is not None]
        try:
            if o["op"] == "add":
                res = self.W.urlencode(url, **new)
            else:       # the URL with the new fields written here, through a redirect
                w = write(want, random.Random(1))
                full = url + (("&" if o["q"] is not None else "?") + w if w else "")
                res = self.RESP["redirect"](full).headers["Location"]
        except Exception as x:
            res, err = "", type(x).__name__
        if not isinstance(res, str):
            res, err = "", err or "not text"
        res, _, frag = res.partition("#")
        base, _, q = res.partition("?")
        try:
            oq = read(q)
        except Exception:
            oq = [["?", q]]
        return {"op": o["op"], "err": err, "base": esc(o["base"]), "obase": esc(base), "q": fseq(o["old"]), "new": fseq(want), "oq": fseq(oq), "frag": "", "ofrag": esc(frag)}

    async def do_response(self, o):
        heads = None if o["headers"] is None else dict(o["headers"])
        body = o["body"]
        if isinstance(body, dict) and list(body) == ["hex"]:
            body = bytes.fromhex(body["hex"])
        given = [[k.lower(), v] for k, v in (o["headers"] or []) if v is not None]
        want = body
        status = o["status"]
        args = {} if status is None else {"status_code": status}
        if o["cls"] == "json":
            want = esc(json.dumps(body, sort_keys=True))
            ctype = "" if any(k == "content-type" for k, v in given) else "application/json"
        elif o["cls"] == "redirect":
            want = esc("")
            ctype = ""
            given.append(["location", body])
        else:
            want = esc(body.hex() if isinstance(body, bytes) else (b"" if body is None else str(body).encode()).hex())
            ctype = ""
        try:
            if o["cls"] == "redirect":
                r = self.RESP["redirect"](body, headers=heads, **args)
            else:
                r = self.RESP[o["cls"]](headers=heads, body=body, **args)
            code = status if status is not None else 303 if o["cls"] == "redirect" else 200
            if o["via"] == "starlette":
                s = await self.provider.create_response(r)
                msgs = []

                async def send(m):
                    msgs.append(m)

                async def receive():
                    return {"type": "http.disconnect"}
                await s({"type": "http", "method": "GET"}, receive, send)
                got = msgs[0]["status"], [[k.decode("latin-1"), v.decode("latin-1")] for k, v in msgs[0]["headers"]], b"".join(m.get("body", b"") for m in msgs[1:])
            else:
                got = r.status_code, [[k.lower() if isinstance(k, str) else k, v] for k, v in r.headers.items()], r.body
            if o.get("touch"):
                r.headers["X-Touched"] = "yes"
            st, hs, b = got
            b = bytes(b)
            if o["cls"] == "json":
                try:
                    ob = esc(json.dumps(json.loads(b.decode()), sort_keys=True))
                except ValueError:
                    ob = "?"
            else:
                ob = esc(b.hex())
            err = ""
        except Exception as x:
            return {"op": "response", "err": type(x).__name__}
        return {"op": "response", "err": err, "status": str(code), "ostatus": str(st), "body": want, "obody": ob, "type": ctype,
                "headers": [{"n": esc(k), "v": esc(v)} for k, v in given], "oheaders": [{"n": esc(k), "v": esc(v)} for k, v in hs]}


def execute(p):
    return Run().run(p)


def outcome(e):
    if e["op"] in ("basic", "bearer"):
        return "%s %s %s" % (e["op"], e["form"], "raised" if e["err"] else "given" if e["got"]["ok"] else "nothing")
    return "%s %s" % (e["op"], "raised" if e.get("err") else "ok")


if __name__ == "__main__":
    drvlib.main(plans, execute, outcome)
