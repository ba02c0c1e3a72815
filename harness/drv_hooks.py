"""Drives hooks on several providers and grants (property C14)."""
import asyncio
import base64
import contextvars
import datetime
import hashlib
import json
import os
import random
import sys
import types

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import drvlib                                            # noqa: E402
from common import esc, formenc, parse_pairs             # noqa: E402

CPS = {"a": ["authorization_request", "token_response"], "b": ["authorization_response", "token_request", "token_response"],
       "c": ["authorization_request", "authorization_response", "token_request", "token_response"], "x": ["token_request"],
       "y": ["authorization_request", "authorization_response"], "i": ["authorization_request", "token_response", "authorization_response"], "oidc": []}
ERRORS = ["invalid_request", "access_denied", "invalid_scope", "invalid_grant", "server_error", "temporarily_unavailable", "unauthorized_client"]
REDIRECT = "https://client.example.com/cb"
RID = contextvars.ContextVar("rid", default=0)
VALUES = ["v", "", "a b&c=d", "é漢", "https://x.example/?a=b", "0", "%2B+"]
RICH = [7, True, ["a", "b"], {"a": 1}, 1.5, "x" * 300]
FALSY = ["", 0, False, []]
LATER = datetime.datetime.utcnow() + datetime.timedelta(days=1)


def plans(job):
    seed = job["seed"]
    for i, c in job["items"]:
        for k in range(job.get("copies", 1)):
            rng = random.Random("%s|hooks|%s|%s" % (seed, i, k))
            ops = []
            for o in c["h"]:
                o = dict(o)
                if o["op"] == "request":
                    o.update(valid=rng.random() < 0.8, seed=rng.random(), err=rng.choice(ERRORS), raises=rng.random() < 0.4, ret=rng.choice(["marks", "marks", "none", "empty", "mixed", "known"]),
                             fail=rng.choice(["verifier", "scope", "expired", "client"]))
                ops.append(o)
            yield {"id": "hooks-%s#%d" % (i, k), "seed": seed, "ops": ops}


class World:
    def __init__(self, p):
        import common
        from psion.jose import JsonWebKey, JsonWebKeySet
        from psion.oauth2 import exceptions
        from psion.oauth2.adapter import BaseAdapter
        from psion.oauth2.grants import AuthorizationCodeGrant, BaseGrant, ClientCredentialsGrant, RefreshTokenGrant
        from psion.oauth2.mixins import AuthorizationCodeMixin, ClientMixin, RefreshTokenMixin, UserMixin
        from psion.oauth2.models import Request, Scope
        from psion.oauth2.providers import StarletteProvider
        from psion.oidc.flows import AuthorizationCodeFlow
        self.p, self.ev, self.provs, self.reqs = p, [], [], [None]
        self.Request, self.Scope, self.Provider = Request, Scope, StarletteProvider
        world = self
        key = {"kty": "oct", "k": base64.urlsafe_b64encode(b"k" * 32).decode().rstrip("="), "kid": "k"}
        self.key, self.keyset = JsonWebKey(dict(key)), JsonWebKeySet([JsonWebKey(dict(key))])

        # A grant of the application: the code grant under another name.
        class SubGrant(AuthorizationCodeGrant):
            __response_type__ = "code2"
            __grant_type__ = "urn:example:sub"
        self.G = {"code": AuthorizationCodeGrant, "sub": SubGrant, "refresh": RefreshTokenGrant, "cc": ClientCredentialsGrant, "base": BaseGrant}
        self.errors = {c.error: c for c in vars(exceptions).values() if isinstance(c, type) and issubclass(c, exceptions.OAuth2Error) and c.error}

        class User(UserMixin):
            def get_user_id(self):
                return "u"

        class Client(ClientMixin):
            def __init__(self, cid):
                self.cid = cid

            def get_client_id(self):
                return self.cid

            def get_client_secret(self):
                return "secret"

            def get_allowed_scopes(self, scopes):
                return [s for s in scopes or ["openid", "s"] if s in ("openid", "s")]

            def get_redirect_uris(self):
                return [REDIRECT]

            def get_token_endpoint_auth_method(self):
                return "client_secret_basic"

            def get_grant_types(self):
                return ["authorization_code", "urn:example:sub", "refresh_token", "client_credentials"]

            def get_response_types(self):
                return ["code", "code2"]

        def record(base, **values):
            """An object of the application with the given getters."""
            return type("Rec", (base,), {"get_" + k: (lambda v: lambda self: v)(v) for k, v in values.items()})()

        class Adapter(BaseAdapter):
            pid = "?"
            rng = None

            async def step(self):
                q = world.reqs[RID.get()]
                for _ in range(q["rng"].randint(0, 2) if q else 0):
                    await asyncio.sleep(0)

            async def find_user(self, user_id):
                await self.step()
                return User()

            async def find_client(self, client_id):
                await self.step()
                return Client(client_id) if client_id in ("A", "B") else None

            async def save_authorization_code(self, code, data, client, user):
                await self.step()
                world.emit(op="saved", r=RID.get(), marks=world.marks(data))

            async def get_authorization_code(self, code):
                await self.step()
                q = world.reqs[RID.get()]
                if q is None or code != q["code"]:
                    return None
                return record(AuthorizationCodeMixin, client_id=q["client"], user_id="u", redirect_uri=REDIRECT, scopes=["openid", "s"],
                              code_challenge=q["challenge"], code_challenge_method="S256", nonce=None, auth_time=None,
                              expiration=datetime.datetime(2000, 1, 1) if q["expired"] else LATER)

            async def delete_authorization_code(self, code):
                await self.step()

            async def create_access_token(self, client, resource_owner, scopes):
                await self.step()
                return "at-%d" % RID.get()

            async def create_refresh_token(self, client, user, scopes):
                await self.step()
                return "rt-%d" % RID.get()

            async def get_refresh_token(self, refresh_token):
                await self.step()
                q = world.reqs[RID.get()]
                return record(RefreshTokenMixin, refresh_token=refresh_token, client_id=q["client"], user_id="u", scopes=["s"],
                              expiration=datetime.datetime(2000, 1, 1) if q["expired"] else LATER)

            async def get_key_info(self):
                await self.step()
                return {"key": world.key, "alg": "HS256"}

            async def get_userinfo(self, user, scopes):
                await self.step()
                return {"sub": "u"}
        self.Adapter, self.user = Adapter, User()
        self.hooks = {h: self.hook(h) for h in "abcxyi"}
        self.hooks["oidc"] = AuthorizationCodeFlow

    def emit(self, **e):
        self.ev.append(e)

    @staticmethod
    def marks(d):
        if not isinstance(d, dict):
            return []
        return sorted(k + ":" + esc(v) for k, v in d.items() if isinstance(k, str) and k.startswith("m-"))

    # -- hooks ---------------------------------------------------------------
    def hook(self, h):
        world = self
        own = CPS[h] if h != "i" else ["authorization_response"]

        def init(self, adapter, config):
            self.adapter, self.config = adapter, config

        def method(cp):
            async def run(self, *args):
                return await world.run_hook(self, h, cp, args)
            return run
        body = {cp: method(cp) for cp in own}
        if h == "i":        # most of it inherited from another class
            for cp in CPS["a"]:
                body[cp] = method(cp)
            parent = type("HookParent", (), {"__init__": init, **{cp: body.pop(cp) for cp in CPS["a"]}})
            return type("Hook_i", (parent,), body)
        return type("Hook_" + h, (), {"__init__": init, **body})

    async def run_hook(self, hook, h, cp, args):
        r = RID.get()
        q = self.reqs[r]
        rng = q["rng"] if q else random.Random(0)
        for _ in range(rng.randint(0, 2)):
            await asyncio.sleep(0)
        data = []
        ok = q is not None
        try:
            if cp == "authorization_request":
                ok = ok and len(args) == 1 and args[0].get("state") == q["state"] and args[0].get("client_id") == q["client"]
            elif cp == "authorization_response":
                code, d, client, user = args
                data = self.marks(d)
                ok = ok and isinstance(code, str) and d.get("state") == q["state"] and client.get_client_id() == q["client"] and user is self.user
            elif cp == "token_request":
                ok = ok and len(args) == 1 and args[0].get("code") == q["code"]
            else:
                token, d, client, user = args
                data = self.marks(d)
                ok = ok and token.get("access_token") == "at-%d" % r and d.get("code") == q["code"] and client.get_client_id() == q["client"] and user.get_user_id() == "u"
        except Exception:
            ok = False
        err = q["err"] if q and q["raises"] and h in "xy" and (h == "x" or cp == q["raisesat"]) else ""
        ret = None
        n = self.count = getattr(self, "count", 0) + 1
        style = q["ret"] if q else "none"
        if style == "mixed":
            style = rng.choice(["marks", "none", "empty", "two", "known"])
        if style in ("marks", "two", "known"):
            rich = {"authorization_request": RICH + FALSY, "token_request": RICH + FALSY, "token_response": RICH}.get(cp, [])
            ret = {"m-%s-%d" % (h, n): rng.choice([v for v in VALUES if v] + rich)}
            if style == "known":        # names the request or response has already, with the same values
                ret.update({"authorization_request": {"state": q["state"], "redirect_uri": REDIRECT}, "authorization_response": {"state": q["state"]},
                            "token_request": {"code": q["code"], "code_verifier": q["verifier"] + ("x" if q["fail"] == "verifier" else "")},
                            "token_response": {"token_type": "Bearer"}}[cp])
            if style == "two":
                ret["m-%s-%d-b" % (h, n)] = "second"
        elif style == "empty":
            ret = {}
        cfg = getattr(hook.config, "issuer", "?").rpartition("/")[2] if hasattr(hook, "config") else "?"
        self.emit(op="run", r=r, h=h, cp=cp, p=getattr(getattr(hook, "adapter", None), "pid", "?"), cfg=cfg, ret=[] if err else self.marks(ret or {}), err=err, args=bool(ok), data=data)
        if err:
            raise self.errors[err](description="refused by a hook")
        return ret

    # -- operations ------------------------------------------------------------
    def provider(self, o):
        pid = str(len(self.provs) + 1)
        ad = type("A", (self.Adapter,), {"pid": pid})
        self.provs.append(self.Provider("https://op.example.com/" + pid, adapter=ad, grants=[self.G[g] for g in o["grants"]], scopes=[self.Scope("openid", "x"), self.Scope("s", "y")],
                                        keyset=self.keyset, error_url="https://op.example.com/error"))
        self.emit(op="provider", p=pid, grants=o["grants"])

    def add(self, o):
        err = ""
        try:
            self.provs[o["p"] - 1].add_hook(self.G[o["cls"]], self.hooks[o["h"]])
        except Exception as x:
            err = type(x).__name__
        self.emit(op="add", p=str(o["p"]), cls=o["cls"], h=o["h"], cps=CPS[o["h"]], err=err)

    def prepare(self, o):
        r = len(self.reqs)
        rng = random.Random(o["seed"])
        verifier = "v%043d" % r
        fail = None if o["valid"] else o["fail"]
        q = {"rng": rng, "client": rng.choice(["A", "B"]), "code": "code-%d" % r, "state": "s t&%d" % r, "expired": fail == "expired", "raises": o["raises"], "err": o["err"], "ret": o["ret"],
             "raisesat": rng.choice(CPS["y"]), "verifier": verifier, "fail": fail,
             "challenge": base64.urlsafe_b64encode(hashlib.sha256(verifier.encode()).digest()).rstrip(b"=").decode()}
        self.reqs.append(q)
        # A fault that this flow does not look at leaves the request valid.
        looked = {"authorize": ("scope", "client")}.get(o["flow"], {"refresh": ("expired", "client", "scope"), "cc": ("client", "scope")}.get(o["g"], ("verifier", "expired", "client")))
        self.emit(op="start", p=str(o["p"]), g=o["g"], flow=o["flow"], valid=fail is None or fail not in looked)
        return r

    async def request(self, o, r):
        RID.set(r)
        q = self.reqs[r]
        prov = self.provs[o["p"] - 1]
        client = "nobody" if q["fail"] == "client" else q["client"]
        scope = "openid s" + (" bad" if q["fail"] == "scope" else "")
        ok, err, marks, idt = False, "", [], "?"
        for _ in range(q["rng"].randint(0, 3)):
            await asyncio.sleep(0)
        try:
            if o["flow"] == "authorize":
                rt = {"code": "code", "sub": "code2"}[o["g"]]
                qs = formenc([("response_type", rt), ("client_id", client), ("redirect_uri", REDIRECT), ("scope", scope), ("state", q["state"]),
                              ("code_challenge", q["challenge"]), ("code_challenge_method", "S256")])
                resp = await prov.authorize(self.Request("GET", "https://op.example.com/authorize?" + qs, {}, None, self.user))
                loc = resp.headers["Location"]
                d = dict(parse_pairs(loc.partition("?")[2]))
                ok, err = "code" in d and "error" not in d, d.get("error", "")
            else:
                gt = {"code": "authorization_code", "sub": "urn:example:sub", "refresh": "refresh_token", "cc": "client_credentials"}[o["g"]]
                fs = [("grant_type", gt)]
                if o["g"] in ("code", "sub"):
                    fs += [("code", q["code"]), ("redirect_uri", REDIRECT), ("code_verifier", q["verifier"] + ("x" if q["fail"] == "verifier" else ""))]
                elif o["g"] == "refresh":
                    fs += [("refresh_token", "rt"), ("code", q["code"])] + ([("scope", "s bad")] if q["fail"] == "scope" else [])
                else:
                    fs += [("scope", scope), ("code", q["code"])]
                auth = {"Authorization": "Basic " + base64.b64encode((client + ":secret").encode()).decode()}
                resp = await prov.token(self.Request("POST", "https://op.example.com/token", auth, formenc(fs).encode(), None))
                d = json.loads(resp.body)
                ok, err = resp.status_code == 200 and "access_token" in d, d.get("error", "")
                idt = "yes" if "id_token" in d else "no" if o["g"] in ("code", "sub") and ok else "?"
            marks = self.marks(d)
        except Exception as x:
            ok, err = False, "<%s>" % type(x).__name__
        self.emit(op="end", r=r, ok=bool(ok), err=esc(err), marks=marks, idt=idt)

    async def play(self):
        ops = self.p["ops"]
        i = 0
        while i < len(ops):
            o = ops[i]
            if o["op"] != "request":
                getattr(self, o["op"])(o)
                i += 1
                continue
            batch = [o]
            i += 1
            while i < len(ops) and ops[i]["op"] == "request" and ops[i]["par"]:
                batch.append(ops[i])
                i += 1
            await asyncio.gather(*[asyncio.ensure_future(self.request(x, self.prepare(x))) for x in batch])


def execute(p):
    w = World(p)
    asyncio.run(w.play())
    return {"id": p["id"], "ev": w.ev}


def outcome(e):
    return e["op"] + {"run": lambda: " raised" if e.get("err") else " " + e["cp"], "end": lambda: " ok" if e["ok"] else " refused"}.get(e["op"], lambda: "")()


if __name__ == "__main__":
    drvlib.main(plans, execute, outcome)
