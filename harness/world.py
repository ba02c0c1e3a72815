"""Runs the real OAuth endpoints in a controlled world and records events.

A plan names the provider, the initial world, the requests and a schedule; the
result is a scenario for spec/OAuthTrace.tla.  Every call of the code under
test on the application's adapter is held at a gate until the schedule lets it
take effect.
"""
import asyncio
import base64
import contextvars
import datetime
import hashlib
import json
import os
import time
import urllib.parse

import vclock
from common import (esc, formenc, parse_pairs, pct, raw_verify, s256, split_uri, unb64u)

from psion.jose.jwk import JsonWebKey, JsonWebKeySet
from psion.oauth2 import exceptions as oexc
from psion.oauth2.adapter import BaseAdapter
from psion.oauth2.grants import (AuthorizationCodeGrant, ClientCredentialsGrant,
                                 RefreshTokenGrant)
from psion.oauth2.mixins import (AuthorizationCodeMixin, ClientMixin,
                                 RefreshTokenMixin, UserMixin)
from psion.oauth2.models import Request, Scope
from psion.oauth2.providers import StarletteProvider
from psion.oidc.flows import AuthorizationCodeFlow

HERE = os.path.dirname(os.path.abspath(__file__))
KEYS = json.load(open(os.path.join(HERE, "keys.json")))
GRANTS = {"authorization_code": AuthorizationCodeGrant,
          "refresh_token": RefreshTokenGrant,
          "client_credentials": ClientCredentialsGrant}
OAUTH_ERRORS = {c.error: c for c in vars(oexc).values()
                if isinstance(c, type) and issubclass(c, oexc.OAuth2Error) and c.error}
RID = contextvars.ContextVar("rid", default=None)
EPOCH = datetime.datetime(1970, 1, 1)
CLIP = 1 << 30


class AdapterFailure(Exception):
    pass


RAISES = {"": AdapterFailure, "key": KeyError, "value": ValueError, "type": TypeError,
          "attr": AttributeError, "conn": ConnectionError, "timeout": asyncio.TimeoutError}


def unb(x):
    try:
        return unb64u(x.rstrip("=").replace("+", "-").replace("/", "_")).decode("utf-8", "replace")
    except Exception:
        return ""


def lst(x):
    try:
        return [esc(str(i)) for i in x]
    except TypeError:
        return [esc("<none>" if x is None else repr(x))]


# --------------------------------------------------------------------------
# the application's objects

class User(UserMixin):
    def __init__(self, id):
        self.id = id

    def get_user_id(self):
        return self.id


class Client(ClientMixin):
    def __init__(self, c, world):
        self.c, self.w = c, world

    def _l(self, name):
        return self.c[name] if self.w.shared else list(self.c[name])

    def get_client_id(self):
        return self.c["id"]

    def get_client_secret(self):
        return self.c["secret"] if self.c["hassecret"] else None

    def get_client_public_key(self, key_id):
        return None

    def get_allowed_scopes(self, scopes):
        if scopes is None:
            return self._l("scopes")
        if self.w.order == "asked":
            return [s for s in scopes if s in self.c["scopes"]]
        return [s for s in self.c["scopes"] if s in scopes]

    def get_redirect_uris(self):
        return self._l("redirs")

    def get_token_endpoint_auth_method(self):
        return self.c["method"]

    def get_grant_types(self):
        return self._l("grants")

    def get_response_types(self):
        return self._l("rtypes")


class Code(AuthorizationCodeMixin):
    def __init__(self, d, world):
        self.d, self.w = d, world

    def get_client_id(self):
        return self.d["client"]

    def get_user_id(self):
        return self.d["user"]

    def get_redirect_uri(self):
        return self.d["redir"]

    def get_scopes(self):
        return self.d["scopes"] if self.w.shared else list(self.d["scopes"])

    def get_code_challenge(self):
        return self.d["chal"]

    def get_code_challenge_method(self):
        return self.d["meth"]

    def get_nonce(self):
        return self.d["nonce"]

    def get_auth_time(self):
        return None

    def get_expiration(self):
        return EPOCH + datetime.timedelta(seconds=self.w.base, milliseconds=self.d["exp"])


class Refresh(RefreshTokenMixin):
    def __init__(self, d, world):
        self.d, self.w = d, world

    def get_refresh_token(self):
        return self.d["rt"]

    def get_client_id(self):
        return self.d["client"]

    def get_user_id(self):
        return self.d["user"]

    def get_scopes(self):
        return self.d["scopes"] if self.w.shared else list(self.d["scopes"])

    def get_expiration(self):
        return EPOCH + datetime.timedelta(seconds=self.w.base, milliseconds=self.d["exp"])


def about(user):
    """What the application tells about a user beyond the id, values that look like nothing included."""
    h = hashlib.sha256(user.encode("utf-8", "surrogatepass")).hexdigest()
    return {"name": "N" + h[:9] + " é漢", "email_verified": int(h[0], 16) % 2 == 0, "updated_at": int(h[1], 16) % 3, "nick": "" if h[2] < "8" else h[3:6],
            "roles": [h[4:8]] if h[2] < "8" else [], "address": {"street": h[8:12], "zip": None, "deep": {"a": [0, False, ""]}}, "x/y+z": "<&\"'>"}


def oid(x):
    """kind and id of a resource owner"""
    if isinstance(x, ClientMixin):
        return "client", x.get_client_id()
    if isinstance(x, UserMixin):
        return "user", x.get_user_id()
    return "none", ""


class Req:
    def __init__(self, r, d):
        self.r, self.d = r, d
        self.pending = []
        self.calls = 0
        self.task = None
        self.done = False
        self.private = set()
        self.known = set()
        self.resp = {}


class World:
    def __init__(self, plan):
        self.p = plan
        a = plan.get("adapter", {})
        self.shared = a.get("shared", False)
        self.order = a.get("order", "asked")
        self.gates = a.get("gates", "pre")
        self.codelife = a.get("codelife", 60000)
        self.rtlife = a.get("rtlife", 600000)
        self.tok = a.get("tok", "at-%d-x")
        self.base = plan["base"]
        self.now = plan["now"]
        self.clients = {c["id"]: json.loads(json.dumps(c)) for c in plan["clients"]}
        self.users = set(plan["users"])
        self.codes = {c["code"]: dict(c) for c in plan["codes"]}
        self.rts = {t["rt"]: dict(t) for t in plan["rts"]}
        self.objs = {}
        self.ev = []
        self.reqs = {}
        self.n = 0
        self.tick()
        vclock.set_tz(plan.get("tz"))
        cfg = plan["cfg"]
        world = self

        class A(Adapter):
            w = world
        keyname = cfg.get("key", "oct32")
        kd = dict(KEYS[keyname])
        if cfg.get("kid"):
            kd["kid"] = cfg["kid"]
        self.keys = []
        self.regs = list(self.clients.values())
        self.kept = list(self.codes.values()) + list(self.rts.values())
        self.setkey(cfg.get("alg", "HS256"), kd)
        self.provider = StarletteProvider(
            cfg["issuer"], adapter=A, grants=[GRANTS[g] for g in cfg["grants"]],
            scopes=[Scope(s, s + " access") for s in cfg["scopes"]],
            keyset=JsonWebKeySet([JsonWebKey(dict(kd, kid=cfg.get("kid") or "k"))]),
            error_url=cfg["error"], token_lifespan=cfg["lifespan"],
            id_token_lifespan=cfg["idlife"])
        if cfg["oidc"] and "authorization_code" in cfg["grants"]:
            self.provider.add_hook(AuthorizationCodeGrant, AuthorizationCodeFlow)

    def setkey(self, alg, kd):
        self.alg, self.key = alg, JsonWebKey(dict(kd))
        self.keys.append((alg, kd))

    def tick(self):
        vclock.set_ms(self.base * 1000 + self.now)

    # -- objects handed to the code under test ---------------------------
    def client(self, cid):
        c = self.clients.get(cid)
        if c is None:
            return None
        if self.shared:
            k = ("c", cid)
            if k not in self.objs or self.objs[k].c is not c:
                self.objs[k] = Client(c, self)
            return self.objs[k]
        return Client(json.loads(json.dumps(c)), self)

    def user(self, uid):
        return User(uid) if uid in self.users else None

    # -- events ----------------------------------------------------------
    def emit(self, **e):
        self.ev.append(e)

    # -- schedule --------------------------------------------------------
    async def settle(self, q=None, most=25):
        for i in range(most):
            await asyncio.sleep(0)
            if q is not None and i > 2 and (q.done or q.pending):
                break

    def release(self, q):
        for i, (fut, what) in enumerate(q.pending):
            q.pending.pop(i)
            if not fut.done():
                fut.set_result(None)
            return True
        return False

    def resolve(self, v):
        if isinstance(v, dict):
            (k, r), = [(k, r) for k, r in v.items() if k in ("$code", "$rt", "$at")]
            got = self.reqs[r].resp.get(k[1:]) if r in self.reqs else None
            got = got or "absent-%s-%s" % (k[1:], r)
            return v["$pre"] + got if "$pre" in v else got + v.get("$post", "")
        return v

    async def start(self, r):
        if r in self.reqs or r not in self.p["reqs"]:
            return
        d = self.p["reqs"][r]
        q = self.reqs[r] = Req(r, d)
        q.q = [[k, self.resolve(v)] for k, v in d.get("q", [])]
        q.f = [[k, self.resolve(v)] for k, v in d.get("f", [])]
        q.headers = dict(d.get("headers") or {})
        auth = d.get("auth") or {"kind": "none", "id": "", "secret": ""}
        if auth["kind"] == "basic" and "header" not in auth:
            raw = ("%s:%s" % (auth["id"], auth["secret"])).encode("utf-8", "surrogatepass")
            q.headers[auth.get("name", "Authorization")] = \
                auth.get("scheme", "Basic") + " " + base64.b64encode(raw).decode()
        elif "header" in auth:
            q.headers[auth.get("name", "Authorization")] = auth["header"]
        q.key0 = len(self.keys) - 1
        q.query = d["rawq"] if "rawq" in d else formenc(q.q, d.get("style", 0))
        q.body = bytes.fromhex(d["rawf"]) if "rawf" in d else formenc(q.f, d.get("style", 0)).encode()
        if "rawq" in d:
            q.q = parse_pairs(d["rawq"])
        if "rawf" in d:
            q.f = parse_pairs(q.body.decode("utf-8", "replace"))
        q.private = set(d.get("markers", []))
        q.known = {v for k, v in q.q + q.f}
        for k, v in list(d.get("q", [])) + list(d.get("f", [])):
            if isinstance(v, dict):     # follows up on another request
                for o in v.values():
                    if o in self.reqs:
                        q.known |= self.reqs[o].private | self.reqs[o].known
        self.emit(e="start", r=r, ep=d["ep"], q=[[esc(k), esc(v)] for k, v in q.q],
                  f=[[esc(k), esc(v)] for k, v in q.f], user=esc(d.get("user")),
                  auth={"kind": auth["kind"], "id": esc(auth["id"]), "secret": esc(auth["secret"])},
                  gray=bool(d.get("gray")), chk="expect" in d, exp=list(d.get("expect", [])))
        ctx = contextvars.copy_context()
        ctx.run(RID.set, r)
        q.task = asyncio.get_running_loop().create_task(self.serve(q), context=ctx)
        await self.settle(q)

    async def serve(self, q):
        d = q.d
        try:
            user = User(d["user"]) if d.get("user") else None
            path = {"authorize": "/oauth/authorize", "consent": "/oauth/authorize",
                    "token": "/oauth/token", "revoke": "/oauth/revoke"}[d["ep"]]
            method = d.get("method") or ("POST" if q.body else "GET")
            if d.get("transport", "direct") == "direct":
                url = "https://server.example.com" + path + ("?" + q.query if q.query else "")
                req = Request(method, url, q.headers, q.body, user)
            else:
                from starlette.requests import Request as SReq
                heads = [(k.lower().encode("latin-1", "replace"), v.encode("latin-1", "replace"))
                         for k, v in q.headers.items()]
                heads.append((b"host", b"server.example.com"))
                if q.body:
                    heads.append((b"content-type", b"application/x-www-form-urlencoded"))
                    heads.append((b"content-length", str(len(q.body)).encode()))
                scope = {"type": "http", "http_version": "1.1", "method": method, "scheme": "https",
                         "server": ("server.example.com", 443), "client": ("127.0.0.1", 1234),
                         "path": path, "raw_path": path.encode(), "root_path": "",
                         "query_string": q.query.encode("latin-1", "replace"), "headers": heads, "user": user}
                chunks = [q.body[:7], q.body[7:]]

                async def receive():
                    if chunks:
                        b = chunks.pop(0)
                        return {"type": "http.request", "body": b, "more_body": bool(chunks)}
                    return {"type": "http.disconnect"}
                req = await self.provider.create_request(SReq(scope, receive))
            ep = {"authorize": self.provider.authorize, "token": self.provider.token,
                  "revoke": self.provider.revoke}.get(d["ep"])
            if d["ep"] == "consent":
                resp = await self.provider.authorize.get_consent_data(req)
            else:
                resp = await ep(req)
            if isinstance(resp, dict) and d["ep"] == "consent":
                self.consent(q, resp)
            else:
                if d.get("transport", "direct") != "direct" and hasattr(resp, "status_code"):
                    resp = await self.provider.create_response(resp)
                self.answer(q, resp)
        except asyncio.CancelledError:
            self.emit(e="end", r=q.r, kind="cancelled")
        except BaseException as exc:   # noqa
            self.emit(e="end", r=q.r, kind="exc", what=type(exc).__name__)
        finally:
            q.done = True
            for x in q.pending:
                x[0].cancel()
            q.pending = []

    def consent(self, q, data):
        try:
            c = data["client"]
            s = data["scopes"]
            self.emit(e="end", r=q.r, kind="consent", client=esc(c.get_client_id()), scopes=lst(s))
        except Exception as exc:
            self.emit(e="end", r=q.r, kind="bad", what=type(exc).__name__)

    def answer(self, q, resp):
        if resp is None or not hasattr(resp, "status_code"):
            self.emit(e="end", r=q.r, kind="bad", what=type(resp).__name__)
            return
        try:
            e = self.describe(q, resp)
        except Exception as exc:
            e = dict(e="end", r=q.r, kind="bad", what="unreadable " + type(exc).__name__ + " " + str(exc)[:60])
            e["what"] = esc(e["what"])
        self.emit(**e)

    def describe(self, q, resp):
        heads = {}
        raw = getattr(resp, "raw_headers", None)
        items = [(k.decode("latin-1"), v.decode("latin-1")) for k, v in raw] if raw is not None \
            else list(resp.headers.items())
        for k, v in items:
            if not isinstance(v, str):
                raise ValueError("header")
            if any(ord(c) < 32 or ord(c) > 255 for c in v):
                raise ValueError("header value")
            heads[k.lower()] = v
        body = resp.body
        if not isinstance(body, bytes):
            raise ValueError("body")
        loc = heads.get("location", "")
        if loc and not all(33 <= ord(c) < 127 for c in loc):
            raise ValueError("location")
        l = split_uri(loc) if loc else {"base": "", "pairs": []}
        b = {"error": "", "access_token": "", "token_type": "", "expires_in": -1, "refresh_token": "",
             "hasscope": False, "scope": []}
        idt = {"present": False, "sig": False, "alg": "", "kid": "", "iss": "", "aud": "", "sub": "",
               "scp": [], "nonce": "", "iat": 0, "exp": 0, "athash": False}
        kind = "other"
        try:
            j = json.loads(body.decode("utf-8"))
            kind = "json" if isinstance(j, dict) else ("null" if j is None else "other")
        except ValueError:
            j = None
            kind = "empty" if not body else "other"
        text = [loc, "\n".join("%s: %s" % x for x in items)]
        for k, v in parse_pairs(loc.partition("?")[2].partition("#")[0]):
            text.append(v)
        if isinstance(j, dict):
            text += [v for v in j.values() if isinstance(v, str)]
            for k in ("error", "access_token", "token_type", "refresh_token"):
                if k in j:
                    b[k] = esc(j[k]) or "<empty>"
            ei = j.get("expires_in", -1)
            b["expires_in"] = ei if isinstance(ei, int) and not isinstance(ei, bool) and abs(ei) < CLIP else -2
            if "scope" in j:
                b["hasscope"] = True
                b["scope"] = [esc(x) for x in j["scope"].split(" ")] if isinstance(j["scope"], str) else ["<bad>"]
            if "id_token" in j:
                idt = self.idtoken(j["id_token"], j.get("access_token"), self.keys[q.key0:])
                text.append(idt.pop("text", ""))
            q.resp["at"] = j.get("access_token")
            q.resp["rt"] = j.get("refresh_token")
        code = ""
        reg = self.p["reqs"][q.r]
        for k, v in parse_pairs(loc.partition("?")[2].partition("#")[0]):
            if k == "code":
                code = v
        if code:
            q.resp["code"] = code
        if "id_token" in (j if isinstance(j, dict) else {}):
            text += [unb(x) for x in str(j["id_token"]).split(".")[:2]]
        text += [body.decode("utf-8", "replace"), urllib.parse.unquote(loc), urllib.parse.unquote_plus(loc)]
        found = self.found(q, text)
        mine = q.private | q.known
        leak = sorted(o.r for o in self.reqs.values() if o is not q
                      and any(x not in mine and any(x in t for t in text) for x in o.private))
        return dict(e="end", r=q.r, kind="resp", status=int(resp.status_code),
                    ctype=esc(heads.get("content-type", "").split(";")[0].strip().lower()),
                    cache=esc(heads.get("cache-control", "").lower()), pragma=esc(heads.get("pragma", "").lower()),
                    hasloc="location" in heads, wwwauth="www-authenticate" in heads, loc=l, hascode=bool(code), bodykind=kind, body=b, idt=idt,
                    leak=leak, found=found, solo=esc(q.d.get("solo") or ""),
                    digest=esc("%d|%s|%s|%s|%s|%s|%s" % (
                        resp.status_code, b["error"], ",".join(sorted(b["scope"])), bool(b["refresh_token"]), idt["present"],
                        l["base"], "&".join("%s=%s" % tuple(x) for x in l["pairs"] if x[0] in ("error", "state")))))

    def secrets(self):
        """what the application and the provider keep: (kind, text)"""
        for c in self.regs:
            if c["hassecret"] and c["secret"]:
                yield "secret", c["secret"]
        for alg, kd in self.keys:
            for k in ("k", "d", "p", "q", "dp", "dq", "qi"):
                if isinstance(kd.get(k), str):
                    yield "key", kd[k]
        yield "key", "PRIVATE KEY"
        yield "internal", "adapter failure"
        for d in self.kept:
            if "code" in d:
                yield "code", d["code"]
                for k in ("chal", "nonce", "user", "redir"):
                    if isinstance(d[k], str):
                        yield "fact", d[k]
                if isinstance(d["redir"], str) and "://" in d["redir"]:      # a part of it tells, too
                    yield "fact", d["redir"].split("/")[2]
            elif "rt" in d:
                yield "refresh", d["rt"]
                if isinstance(d["user"], str):
                    yield "fact", d["user"]
            else:
                yield "access", d["at"]

    def found(self, q, text):
        """secrets that occur in a response, and whether the request itself carried them"""
        hay = "\n".join(text)
        given = [v for k, v in q.q + q.f] + [unb(x) for v in q.headers.values() for x in v.split(" ")] + \
            [v for v in q.headers.values()] + [q.query, q.body.decode("utf-8", "replace")]
        auth = q.d.get("auth") or {}
        given += [auth.get("id") or "", auth.get("secret") or ""]
        cfg = self.p["cfg"]
        public = [cfg["issuer"], cfg["error"] or "", cfg.get("kid") or ""] + list(cfg["scopes"]) + list(self.clients) + \
            [x for c in self.regs for x in list(c["redirs"]) + [c["id"]]]
        out = []
        for kind, s in self.secrets():
            if len(s) < (6 if kind in ("access", "refresh", "code") else 10):
                continue
            raw = s.encode("utf-8", "surrogatepass")
            forms = {s, base64.b64encode(raw).decode().rstrip("="), base64.urlsafe_b64encode(raw).decode().rstrip("="), raw.hex(),
                     json.dumps(s)[1:-1]}
            if any(x in hay for x in forms) and (kind == "fact" and q.d["ep"] in ("token", "revoke")
                                                or not any(s in x for x in public)):
                x = {"kind": kind, "v": esc(s), "given": any(s in g for g in given)}
                if x not in out:
                    out.append(x)
        return out

    def idtoken(self, tok, at, keys):
        o = {"present": True, "sig": False, "alg": "", "kid": "", "iss": "", "aud": "", "sub": "",
             "scp": [], "nonce": "", "iat": 0, "exp": 0, "athash": False}
        try:
            h, p, s = tok.split(".")
            head, claims = json.loads(unb64u(h)), json.loads(unb64u(p))
            o["text"] = json.dumps(claims)
            alg = head.get("alg")
            o["alg"], o["kid"] = esc(alg), esc(head.get("kid"))
            o["sig"] = alg in ("HS256 HS384 HS512 RS256 RS384 RS512 PS256 PS384 PS512 ES256 ES384 ES512").split() \
                and any(raw_verify(alg, kd, (h + "." + p).encode(), unb64u(s)) for a, kd in keys
                        if a == alg and kd.get("kid") == head.get("kid"))
            for k in ("iss", "aud", "sub", "nonce"):
                o[k] = esc(claims.get(k))
            scp = claims.get("scp")
            o["scp"] = lst(scp) if isinstance(scp, list) else ["<bad>"]
            told = about(str(claims.get("sub")))
            if any(n not in claims or json.dumps(claims[n], sort_keys=True) != json.dumps(told[n], sort_keys=True) for n in told):
                o["scp"] = ["<claims of the user changed>"]
            for k in ("iat", "exp"):
                v = claims.get(k)
                if isinstance(v, int) and not isinstance(v, bool):
                    o[k] = max(-CLIP, min(CLIP, v - self.base))
                else:
                    o[k] = -CLIP
            if isinstance(at, str):
                d = hashlib.new("sha" + str(alg)[2:], at.encode()).digest()
                o["athash"] = claims.get("at_hash") == \
                    base64.urlsafe_b64encode(d[:len(d) // 2]).rstrip(b"=").decode()
        except Exception as exc:
            o["sig"] = False
        return o

    def env(self, op):
        o = op["op"]
        if o == "now":
            self.now = op["v"]
            self.tick()
            self.emit(e="env", op="now", v=self.now)
        elif o == "adv":
            self.now += op["v"]
            self.tick()
            self.emit(e="env", op="now", v=self.now)
        elif o == "deluser":
            self.users.discard(op["u"])
            self.emit(e="env", op=o, u=esc(op["u"]))
        elif o == "adduser":
            self.users.add(op["u"])
            self.emit(e="env", op=o, u=esc(op["u"]))
        elif o == "client":
            self.clients[op["c"]["id"]] = json.loads(json.dumps(op["c"]))
            self.regs.append(self.clients[op["c"]["id"]])
            self.emit(e="env", op=o, c=jclient(op["c"]))
        elif o == "key":
            kd = dict(KEYS[op["key"]])
            if op["kid"]:
                kd["kid"] = op["kid"]
            self.setkey(op["alg"], kd)
            self.emit(e="env", op=o, alg=op["alg"], kid=esc(op["kid"]))
        elif o == "delclient":
            self.clients.pop(op["id"], None)
            self.emit(e="env", op=o, id=esc(op["id"]))

    async def drain(self, only=None):
        t0 = time.monotonic()
        idle = 0
        while True:
            qs = [q for q in self.reqs.values() if not q.done and (only is None or q.r == only)]
            if not qs:
                return
            moved = False
            for q in qs:
                if self.release(q):
                    moved = True
                    await self.settle(q)
            if not moved:
                await self.settle()
                idle += 1
                if idle > 5:
                    await asyncio.sleep(0.005)
                if idle > 60 and time.monotonic() - t0 > 3:
                    if only is not None:     # perhaps it waits for another request
                        return
                    for q in qs:
                        if not q.done:
                            self.emit(e="end", r=q.r, kind="hang")
                            q.done = True
                            q.task.cancel()
                    await self.settle()
                    # what a cancelled task still does is not recorded as answer
                    self.ev = [x for i, x in enumerate(self.ev)
                               if not (x["e"] == "end" and x["kind"] != "hang"
                                       and any(y["e"] == "end" and y["r"] == x["r"] for y in self.ev[:i]))]
                    return
            else:
                idle = 0

    async def run(self):
        for s in self.p["steps"]:
            k = s[0]
            if k == "start":
                await self.start(s[1])
            elif k == "run":
                await self.start(s[1])
                await self.drain(s[1])
            elif k == "step":
                q = self.reqs.get(s[1])
                if q and not q.done and self.release(q):
                    await self.settle(q)
            elif k == "finish":
                await self.drain(s[1])
            elif k == "cancel":
                q = self.reqs.get(s[1])
                if q and not q.done and q.pending:
                    q.task.cancel()
                    await self.settle(q, 6)
            elif k == "env":
                self.env(s[1])
        await self.drain()
        for q in self.reqs.values():
            if q.task and not q.task.done():
                q.task.cancel()
        await asyncio.sleep(0)
        vclock.set_tz("UTC")
        return self.trace()

    def trace(self):
        p = self.p
        scopes, chals, vers, uris = {""}, {""}, {""}, {p["cfg"]["error"]}
        for q in self.reqs.values():
            for k, v in q.q + q.f:
                if k == "scope":
                    scopes.add(v)
                elif k == "code_challenge":
                    chals.add(v)
                elif k == "code_verifier":
                    vers.add(v)
                elif k == "redirect_uri":
                    uris.add(v)
        lex = {"scope": {esc(s): [esc(x) for x in s.split(" ") if x] for s in scopes},
               "len": {esc(c): len(c) for c in chals},
               "s256": {esc(v): esc(s256(v)) for v in vers},
               "uri": {esc(u): split_uri(u) for u in uris}}
        cfg = p["cfg"]
        c = dict(scopes=lst(cfg["scopes"]), grants=lst(cfg["grants"]),
                 rtypes=["code"] if "authorization_code" in cfg["grants"] else [],
                 lifespan=cfg["lifespan"], idlife=cfg["idlife"], error=esc(cfg["error"]),
                 issuer=esc(cfg["issuer"]), oidc=bool(cfg["oidc"]), alg=cfg.get("alg", "HS256"),
                 kid=esc(cfg.get("kid")))
        return dict(id=p["id"], cfg=c, lex=lex, clients=[jclient(x) for x in p["clients"]],
                    users=lst(p["users"]), now=p["now"],
                    codes=[jcode(x) for x in p["codes"]], rts=[jrt(x) for x in p["rts"]], ev=self.ev)


def jclient(c):
    return dict(id=esc(c["id"]), secret=esc(c["secret"]), hassecret=bool(c["hassecret"]), method=esc(c["method"]),
                grants=lst(c["grants"]), rtypes=lst(c["rtypes"]), redirs=lst(c["redirs"]), scopes=lst(c["scopes"]))


def jcode(c):
    return dict(code=esc(c["code"]), client=esc(c["client"]), user=esc(c["user"]), redir=esc(c["redir"]),
                scopes=lst(c["scopes"]), chal=esc(c["chal"]), meth=esc(c["meth"]), nonce=esc(c["nonce"]), exp=c["exp"])


def jrt(t):
    return dict(rt=esc(t["rt"]), client=esc(t["client"]), user=esc(t["user"]), scopes=lst(t["scopes"]), exp=t["exp"])


class Adapter(BaseAdapter):
    w: World = None

    async def _gate(self, m, event, effect):
        w = self.w
        r = RID.get()
        q = w.reqs.get(r)
        r = r or "none"
        if q is None or w.gates == "none":
            w.emit(e="call", r=r, m=m, fault="", ferr="", done=True, **event)
            return effect()
        q.calls += 1
        fault = (q.d.get("faults") or {}).get(str(q.calls)) or (q.d.get("faults") or {}).get(m) or {}
        kind = fault.get("kind", "")
        loop = asyncio.get_running_loop()

        async def wait():
            fut = loop.create_future()
            q.pending.append((fut, m))
            await fut
        done = False
        try:
            if kind == "oauth":
                await wait()
                w.emit(e="call", r=r, m=m, fault="oauth", ferr=fault["err"], done=False, **event)
                raise OAUTH_ERRORS[fault["err"]](description="adapter")
            if kind == "raise" and not fault.get("after"):
                await wait()
                w.emit(e="call", r=r, m=m, fault="raise", ferr="", done=False, **event)
                raise RAISES[fault.get("exc", "")]("adapter failure")
            await wait()
            res = effect()
            done = True
            w.emit(e="call", r=r, m=m, fault="raise" if kind == "raise" else "", ferr="", done=True, **event)
            if kind == "raise":
                raise RAISES[fault.get("exc", "")]("adapter failure")
            if w.gates == "both":
                await wait()
            return res
        except asyncio.CancelledError:
            if done:
                # the effect stays recorded; the caller sees a cancellation
                for x in reversed(w.ev):
                    if x["e"] == "call" and x["r"] == r and x["m"] == m:
                        x["fault"] = "cancel"
                        break
            else:
                w.emit(e="call", r=r, m=m, fault="cancel", ferr="", done=False, **event)
            raise

    async def find_client(self, client_id):
        return await self._gate("find_client", {}, lambda: self.w.client(client_id))

    async def find_user(self, user_id):
        return await self._gate("find_user", {}, lambda: self.w.user(user_id))

    async def get_authorization_code(self, code):
        def f():
            d = self.w.codes.get(code)
            return None if d is None else Code(d if self.w.shared else json.loads(json.dumps(d)), self.w)
        return await self._gate("get_code", {}, f)

    async def get_refresh_token(self, refresh_token):
        def f():
            d = self.w.rts.get(refresh_token)
            return None if d is None else Refresh(d if self.w.shared else json.loads(json.dumps(d)), self.w)
        return await self._gate("get_rt", {}, f)

    async def get_userinfo(self, user, scopes):
        return await self._gate("userinfo", {}, lambda: dict(about(oid(user)[1]), sub=oid(user)[1], scp=list(scopes)))

    async def get_key_info(self):
        return await self._gate("keyinfo", {}, lambda: {"key": self.w.key, "alg": self.w.alg})

    async def save_authorization_code(self, code, data, client, user):
        w = self.w
        d = dict(code=code, client=oid(client)[1] if oid(client)[0] == "client" else None,
                 user=oid(user)[1] if oid(user)[0] == "user" else None, redir=data.get("redirect_uri"),
                 scopes=data.get("scopes") if w.shared else list(data.get("scopes") or []),
                 chal=data.get("code_challenge"), meth=data.get("code_challenge_method"),
                 nonce=data.get("nonce"), exp=w.now + w.codelife)
        # 19 printable characters cannot carry 128 bits
        ev = dict(jcode(dict(d, scopes=d["scopes"] or [])), short=not isinstance(code, str) or len(code) < 20)
        q = w.reqs.get(RID.get())
        if q is not None and isinstance(code, str):
            q.private.add(code)

        def f():
            d["exp"] = ev["exp"] = w.now + w.codelife
            w.codes[code] = d
        if isinstance(code, str):
            w.kept.append(dict(d))
        await self._gate("save_code", ev, f)

    async def delete_authorization_code(self, code):
        await self._gate("delete_code", {"code": esc(code)}, lambda: self.w.codes.pop(code, None))

    def _token(self, kind):
        w = self.w
        w.n += 1
        t = (w.tok if kind == "at" else "rt-%d-x") % w.n
        q = w.reqs.get(RID.get())
        if q is not None:
            q.private.add(t)
        w.kept.append({"at": t} if kind == "at" else {"rt": t, "user": None})
        return t

    async def create_access_token(self, client, resource_owner, scopes):
        w = self.w
        kind, owner = oid(resource_owner)
        tok = self._token("at")
        ev = dict(client=esc(oid(client)[1]), okind=kind, owner=esc(owner), scopes=lst(scopes), token=esc(tok))
        return await self._gate("create_access", ev, lambda: tok)

    async def create_refresh_token(self, client, user, scopes):
        w = self.w
        kind, owner = oid(user)
        tok = self._token("rt")
        ev = dict(client=esc(oid(client)[1]), okind=kind, owner=esc(owner), scopes=lst(scopes), token=esc(tok),
                  exp=w.now + w.rtlife)
        sc = scopes if w.shared else list(scopes)

        def f():
            ev["exp"] = w.now + w.rtlife
            w.rts[tok] = dict(rt=tok, client=oid(client)[1], user=owner, scopes=sc, exp=ev["exp"])
            return tok
        return await self._gate("create_refresh", ev, f)

    async def revoke_token(self, client, token, token_type_hint=None):
        w = self.w
        cid = oid(client)[1]

        def f():
            t = w.rts.get(token)
            if t and t["client"] == cid:
                del w.rts[token]
        await self._gate("revoke", dict(client=esc(cid), token=esc(token), hint=esc(token_type_hint)), f)


async def run_all(plans, out, budget=None):
    t0 = time.monotonic()
    n = 0
    for p in plans:
        if budget and time.monotonic() - t0 > budget:
            break
        try:
            w = World(p)
            t = await w.run()
        except Exception as exc:    # the provider could not even be built
            t = broken(p, exc)
        out.write(json.dumps(t) + "\n")
        n += 1
    return n


def broken(p, exc):
    import traceback
    traceback.print_exc()
    w = object.__new__(World)
    w.p, w.reqs = p, {}
    w.ev = [dict(e="start", r="setup", ep="token", q=[], f=[], user="", gray=False, chk=False, exp=[],
                 auth={"kind": "none", "id": "", "secret": ""}),
            dict(e="end", r="setup", kind="exc", what=type(exc).__name__)]
    return World.trace(w)
