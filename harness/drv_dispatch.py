"""Drives providers with grants and authentication of the application's own (property C27)."""
import asyncio
import base64
import contextvars
import json
import os
import random
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import drvlib                                            # noqa: E402
from common import esc, formenc, parse_pairs             # noqa: E402

RID = contextvars.ContextVar("rid", default=0)
ERRORS = ["invalid_request", "access_denied", "invalid_scope", "invalid_grant", "server_error", "temporarily_unavailable", "unauthorized_client"]
TYPES = [("urn:ietf:params:oauth:grant-type:device_code", "device_code", "urn:example:device_code", "code"), ("jwt-bearer", "urn:ietf:params:oauth:grant-type:jwt-bearer", "jwt_bearer", "jwt"),
         ("a" * 300, "a" * 299 + "b", "a" * 301, "a"), ("password", "Password", "urn:ietf:params:oauth:grant-type:device_code", "implicit"), ("urn:example:a", "urn:example:a2", "urn:example:b", "urn:example"),
         ("authorization_code", "authorization_code_x", "client_credentials", "refresh_token"), ("custom", "custom ", "cust", "other"), ("é漢", "é", "x y", "x")]
RTYPES = [("code token id_token", "code id_token token", "code token", "token code"), ("b" * 300, "b" * 299 + "a", "b" * 301, "b"), ("code", "code token", "token", "id_token"), ("code id_token", "id_token code", "id_token", "none"), ("token", "Token", "code", "toke"), ("x+y", "x y", "xy", "x")]
CUSTOM = {}


OWN = "client_secret_basic-x"        # the application's own way of authentication, "custom" in the specification


def real(methods):
    return [OWN if m == "custom" else m for m in methods]


def custom_method():
    """A way of authentication of the application's own: a header of its own."""
    if CUSTOM:
        return
    from psion.oauth2.authentication.methods import BaseAuthentication
    from psion.oauth2.exceptions import InvalidClient

    class HeaderAuthentication(BaseAuthentication):
        __method__ = OWN

        async def authenticate(self, request):
            v = request.headers.get("x-client-token")
            if not v:
                return None
            i, _, s = v.partition("/")
            client = await self.find_client(i)
            if not client or client.get_client_secret() != s or client.get_token_endpoint_auth_method() != OWN:
                raise InvalidClient("No such client.")
            return client
    CUSTOM["cls"] = HeaderAuthentication


def plans(job):
    seed = job["seed"]
    for i, c in job["items"]:
        for k in range(job.get("copies", 1)):
            yield {"id": "dispatch-%s#%d" % (i, k), "seed": "%s|dispatch|%s|%s" % (seed, i, k), "a": c["a"], "ops": c["h"]}


class World:
    def __init__(self, p):
        from psion.jose import JsonWebKey, JsonWebKeySet
        from psion.oauth2 import exceptions
        from psion.oauth2.adapter import BaseAdapter
        from psion.oauth2.grants import BaseGrant
        from psion.oauth2.mixins import ClientMixin, UserMixin
        from psion.oauth2.models import RedirectResponse, Request, Scope
        from psion.oauth2.providers import StarletteProvider
        custom_method()
        self.p, self.ev, self.provs, self.reqs = p, [], [], [None]
        self.rng = rng = random.Random(p["seed"])
        self.Request, self.Scope, self.Provider, self.Redirect = Request, Scope, StarletteProvider, RedirectResponse
        self.BaseGrant, self.exceptions = BaseGrant, exceptions
        self.errors = {c.error: c for c in vars(exceptions).values() if isinstance(c, type) and issubclass(c, exceptions.OAuth2Error) and c.error}
        self.keyset = JsonWebKeySet([JsonWebKey({"kty": "oct", "k": base64.urlsafe_b64encode(b"k" * 32).decode().rstrip("="), "kid": "k"})])
        world = self
        gt, rt = rng.choice(TYPES), rng.choice(RTYPES)
        self.T = {"": "", **dict(zip(("t1", "t1'", "t2", "t3"), gt)), **dict(zip(("r1", "r1'", "r2", "r3"), rt))}
        self.ids = {"A": "client-%d" % rng.randint(0, 99), "B": "other-%d" % rng.randint(0, 99), "Z": "nobody", "": ""}
        self.secrets = {"sa": "s%d" % rng.getrandbits(40), "sb": "b%d" % rng.getrandbits(40), "": ""}
        self.secrets["sx"] = rng.choice([self.secrets["sa"] + "x", self.secrets["sa"][:-1], self.secrets["sa"].upper(), "0"])
        self.uris = {"ua": "https://a.example.com/cb", "ub": "https://b.example.com/cb", "ux": "https://a.example.com/cb/", "": ""}
        m, x = p["a"]
        reg = {"all": (["t1", "t2", "t1'"], ["r1", "r2", "r1'"]), "t1": (["t1"], ["r2"]), "t2": (["t2"], ["r1"]), "near": (["t1'"], ["r1'"]), "none": ([], [])}

        def client(i, secret, method, grants, rtypes, uri):
            grants, rtypes = [self.T[g] for g in grants], [self.T[r] for r in rtypes]
            rng.shuffle(grants)
            rng.shuffle(rtypes)
            return dict(id=self.ids[i], secret=self.secrets[secret], hassecret=bool(secret), method=method, grants=grants, rtypes=rtypes, redirs=[self.uris[uri]])
        self.clients = [client("A", "" if m == "none" else "sa", m, *reg[x], "ua"), client("B", "sb", "client_secret_basic", *reg["all"], "ub")]
        rng.shuffle(self.clients)

        class Client(ClientMixin):
            def __init__(self, c):
                self.c = c

            def get_client_id(self):
                return self.c["id"]

            def get_client_secret(self):
                return self.c["secret"] if self.c["hassecret"] else None

            def get_allowed_scopes(self, scopes):
                return list(scopes or ["s"])

            def get_redirect_uris(self):
                return list(self.c["redirs"])

            def get_token_endpoint_auth_method(self):
                return OWN if self.c["method"] == "custom" else self.c["method"]

            def get_grant_types(self):
                return list(self.c["grants"])

            def get_response_types(self):
                return list(self.c["rtypes"])

        class User(UserMixin):
            def get_user_id(self):
                return "u"

        class Adapter(BaseAdapter):
            pid = 0

            async def find_client(self, client_id):
                await world.step()
                for c in world.clients:
                    if c["id"] == client_id:
                        return Client(c)

            async def revoke_token(self, client, token, token_type_hint=None):
                await world.step()
                world.called("revoke", "revoke", self.pid, self.pid, client, None, {"token": token, "token_type_hint": token_type_hint})
                await world.step()
                world.result("revoke")
        self.Adapter, self.user = Adapter, User()
        self.emit(op="world", clients=[{k: esc(v) if isinstance(v, str) else [esc(y) for y in v] if isinstance(v, list) else v for k, v in c.items()} for c in self.clients])

    def emit(self, **e):
        self.ev.append(e)

    async def step(self):
        q = self.reqs[RID.get()]
        for _ in range(q["rng"].randint(0, 2) if q else 0):
            await asyncio.sleep(0)

    @staticmethod
    def canon(d):
        try:
            return esc(json.dumps(dict(d), sort_keys=True, ensure_ascii=True))
        except Exception as x:
            return "<%s>" % type(x).__name__

    # -- grants ------------------------------------------------------------
    def grant(self, g):
        world = self
        many = world.rng.random() < 0.5

        async def token(self, data, client):
            await world.step()
            world.called(g["n"], "token", getattr(self.adapter, "pid", 0), world.cfg(self), client, None, data)
            await world.step()
            return world.result("token")

        async def authorize(self, data, client, user):
            await world.step()
            world.called(g["n"], "authorize", getattr(self.adapter, "pid", 0), world.cfg(self), client, user, data)
            await world.step()
            return world.result("authorize")
        body = {"__grant_type__": self.T[g["gt"]] or None, "__response_type__": self.T[g["rt"]] or None, "token": token, "authorize": authorize}
        if g["methods"] or many:
            body["__authentication_methods__"] = (list if world.rng.random() < .7 else tuple)(real(g["methods"])) or None
        base = self.BaseGrant
        if self.rng.random() < 0.3:      # some of it inherited
            keep = [k for k in body if self.rng.random() < 0.5]
            base = type("Parent", (base,), {k: body.pop(k) for k in keep})
        return type("Grant_" + g["n"], (base,), body)

    @staticmethod
    def cfg(grant):
        try:
            return int(grant.config.issuer.rpartition("/")[2])
        except Exception:
            return 0

    def called(self, n, what, pid, cfg, client, user, data):
        r = RID.get()
        q = self.reqs[r]
        try:
            cid = client.get_client_id()
        except Exception:
            cid = "?"
        try:
            d = {k: v for k, v in data.items() if k not in ("grant_type", "response_type") and v is not None}
        except Exception:
            d = {"?": "?"}
        u = "" if user is None else "u" if user is self.user else "?"
        self.emit(op="run", r=r, n=n, what=what, p=pid, cfg=cfg, id=esc(cid), user=u, params=self.canon(d), ret=q["plan"]["ret"], err=q["plan"]["err"])

    def result(self, what):
        x = self.reqs[RID.get()]["plan"]
        if x["err"]:
            raise self.errors[x["err"]](**x["raise"])
        return x["value"]

    # -- operations ----------------------------------------------------------
    def provider(self, o):
        pid = len(self.provs) + 1
        ad = type("A", (self.Adapter,), {"pid": pid})
        err = ""
        gs = []
        try:
            gs = [self.grant(g) for g in o["grants"]]
            self.provs.append(self.Provider("https://op.example.com/%d" % pid, adapter=ad, grants=gs, scopes=[self.Scope("s", "y")], keyset=self.keyset, error_url="https://op.example.com/error"))
        except Exception as x:
            err = type(x).__name__
            self.provs.append(None)
        self.emit(op="provider", grants=[dict(n=g["n"], gt=esc(self.T[g["gt"]]), rt=esc(self.T[g["rt"]]), methods=g["methods"]) for g in o["grants"]], err=err)

    def prepare(self, o):
        r = len(self.reqs)
        rng = random.Random("%s|%d" % (self.p["seed"], r))
        flow, how, browser = o["flow"], o["how"], o["flow"] in ("authorize", "consent")
        t = "" if flow in ("revoke", "auth") or not o["type"] else self.T[("r" if browser else "t") + o["type"]]
        kind, i, s = {"wrongb": ("client_secret_basic", "A", "sx"), "wrongp": ("client_secret_post", "A", "sx"), "wrongc": ("custom", "A", "sx"), "unknown": ("client_secret_basic", "Z", "sa"),
                      "B": ("client_secret_basic", "B", "sb"), "nothing": ("nothing", "", ""), "none": ("none", "A", "")}.get(how, (how, "A", "sa"))
        q = dict(rng=rng, type=t, flow=flow, kind="nothing" if browser else kind, id="", secret="", redir="", user="", p=o["p"])
        if browser:
            q.update(id=self.ids[{"unknown": "Z", "B": "B", "nothing": ""}.get(how, "A")], redir=self.uris[{"B": "ub", "wrongb": "ux", "wrongp": "ub"}.get(how, "ua")],
                     user="" if how == "wrongc" else "u")
        else:
            q.update(id=self.ids[i], secret=self.secrets[s])
        methods = [] if flow != "auth" else {"1": ["client_secret_basic", "custom"], "2": ["none"]}.get(o["type"], [])
        # parameters of the request
        val = lambda: rng.choice(["v%d" % r, "a b&c=d", "é漢", "https://x.example/?a=b", "0", "%2B+", "x" * 300])      # noqa: E731
        ps = [] if flow == "revoke" else [("state", "st %d" % r)] if browser else []
        ps += [("scope", "s")] if browser or rng.random() < .5 and flow == "token" else []
        if flow == "revoke":
            ps += [("token", val())] + ([("token_type_hint", rng.choice(["access_token", "refresh_token"]))] if rng.random() < .5 else [])
        elif flow != "auth":
            ps += [(k, val()) for k in rng.sample(["username", "assertion", "device_code", "x-y", "nonce", "n[]", "nom é"], rng.randint(0, 4))]
        q["ps"], q["methods"] = ps, methods
        params = dict(ps)
        if browser:
            params.update({k: v for k, v in (("client_id", q["id"]), ("redirect_uri", q["redir"])) if v})
        elif q["kind"] in ("none", "client_secret_post") and flow == "token":
            params["client_id"] = q["id"]
            if q["secret"]:
                params["client_secret"] = q["secret"]
        # what the grant will do
        plan = dict(err="", ret="", value=None)
        if rng.random() < 0.3:
            plan["err"] = rng.choice(ERRORS)
            k = {}
            if rng.random() < .7:
                k["description"] = rng.choice(["refused %d" % r, "no & never", "é"])
            if rng.random() < .3:
                k["uri"] = "https://op.example.com/help/%d" % r
            if rng.random() < .3:
                k["headers"] = {"X-Reason": "r%d" % r}
            plan["raise"] = k
            plan["ret"] = self.errtext(plan["err"], k.get("description"), k.get("uri"), k.get("headers", {}).get("X-Reason"), params.get("state") if browser else None)
        elif flow == "token":
            plan["value"] = rng.choice([{"access_token": "at-%d" % r, "token_type": "Bearer"}, {"access_token": "é%d" % r, "n": {"x": [1, 2, None, True]}, "expires_in": 0},
                                        {"device_code": "d%d" % r, "interval": 5, "scope": ""}, {}])
            plan["ret"] = self.canon(plan["value"])
        elif flow == "authorize":
            plan["value"] = rng.choice([q["redir"] or self.uris["ua"], "https://elsewhere.example.com/x"]) + rng.choice(["", "?", "#"]).replace("?", "?a=%d" % r).replace("#", "#access_token=t%d&state=s" % r)
            plan["ret"] = esc(plan["value"])
        q["plan"] = plan
        self.reqs.append(q)
        nocred = dict(how="nothing", id="", secret="")
        self.emit(op="start", r=r, p=o["p"], flow=flow, type=esc(t), cred=nocred if browser or q["kind"] == "nothing" else dict(how=q["kind"], id=esc(q["id"]), secret=esc(q["secret"])),
                  methods=methods, id=esc(q["id"]) if browser else "", redir=esc(q["redir"]), user=q["user"], params=self.canon(params if flow != "revoke" else dict(ps)))
        return r

    @staticmethod
    def errtext(err, *parts):
        return esc("|".join([err, *[x or "" for x in parts]]))

    async def request(self, r):
        RID.set(r)
        q = self.reqs[r]
        rng, prov, flow = q["rng"], self.provs[q["p"] - 1], q["flow"]
        for _ in range(rng.randint(0, 3)):
            await asyncio.sleep(0)
        kind, err, ret, client = "raised", "", "", ""
        try:
            headers = {}
            qs, form = [], []
            ps = list(q["ps"])
            if flow in ("authorize", "consent"):
                ps += [(k, v) for k, v in (("client_id", q["id"]), ("redirect_uri", q["redir"]), ("response_type", q["type"])) if v or rng.random() < .5]
                for x in ps:
                    (form if rng.random() < .2 else qs).append(x)
            else:
                if flow == "token" and (q["type"] or rng.random() < .5):
                    ps.append(("grant_type", q["type"]))
                for x in ps:
                    (qs if rng.random() < .2 and flow == "token" else form).append(x)
                if q["kind"] == "client_secret_basic":
                    headers["Authorization"] = "Basic " + base64.b64encode(("%s:%s" % (q["id"], q["secret"])).encode()).decode()
                elif q["kind"] == "client_secret_post":
                    form += [("client_id", q["id"]), ("client_secret", q["secret"])]
                elif q["kind"] == "none":
                    form += [("client_id", q["id"])]
                elif q["kind"] == "custom":
                    headers["X-Client-Token"] = q["id"] + "/" + q["secret"]
            rng.shuffle(form)
            rng.shuffle(qs)
            name = {"consent": "authorize"}.get(flow, flow)
            url = "https://op.example.com/%s" % name + ("?" + formenc(qs) if qs else "")
            post = form or flow not in ("authorize", "consent")
            req = self.Request("POST" if post else "GET", url, headers, formenc(form).encode() if post else None, self.user if q["user"] else None)
            if flow == "auth":
                try:
                    c = await prov.authenticate(req, real(q["methods"]) or None) if q["methods"] or rng.random() < .5 else await prov.authenticate(req)
                    kind, client = "ok", esc(c.get_client_id())
                except self.exceptions.OAuth2Error as x:
                    kind, err = "refused", x.error
            elif flow == "consent":
                d = await prov.authorize.get_consent_data(req)
                if isinstance(d, self.Redirect):
                    e = dict(parse_pairs(d.headers["Location"].partition("?")[2]))
                    kind, err = "refused", e.get("error", "?")
                else:
                    kind, client = "ok", esc(d["client"].get_client_id())
            elif flow == "authorize":
                resp = await prov.authorize(req)
                loc = resp.headers["Location"]
                e = dict(parse_pairs(loc.partition("?")[2]))
                if "error" in e:
                    kind, err = "refused", e["error"]
                    ret = self.errtext(err, e.get("error_description"), e.get("error_uri"), resp.headers.get("X-Reason"), e.get("state"))
                else:
                    kind, ret = "ok", esc(loc)
                if resp.status_code != 303:
                    kind = "status %s" % resp.status_code
            else:
                resp = await getattr(prov, flow)(req)
                body = json.loads(resp.body) if resp.body else None
                if resp.status_code == 200:
                    kind, ret = "ok", self.canon(body) if flow == "token" else ""
                elif resp.status_code in (400, 401) and isinstance(body, dict):
                    kind, err = "refused", str(body.get("error"))
                    ret = self.errtext(err, body.get("error_description"), body.get("error_uri"), resp.headers.get("X-Reason"), None)
                else:
                    kind = "status %s" % resp.status_code
                if flow == "token" and (resp.headers.get("Cache-Control"), resp.headers.get("Pragma")) != ("no-store", "no-cache"):
                    ret += " cacheable"
        except Exception as x:
            kind, err = "raised", type(x).__name__
        self.emit(op="end", r=r, kind=kind, err=esc(err), ret=ret, client=client)

    async def play(self):
        ops = self.p["ops"]
        i = 0
        while i < len(ops):
            o = ops[i]
            if o["op"] != "request":
                self.provider(o)
                i += 1
                continue
            batch = [o]
            i += 1
            while i < len(ops) and ops[i]["op"] == "request" and ops[i]["par"]:
                batch.append(ops[i])
                i += 1
            await asyncio.gather(*[asyncio.ensure_future(self.request(self.prepare(x))) for x in batch])


def execute(p):
    w = World(p)
    asyncio.run(w.play())
    return {"id": p["id"], "ev": w.ev}


def outcome(e):
    return e["op"] + {"run": lambda: " " + e["what"] + (" raised" if e["err"] else ""), "end": lambda: " %s %s" % (e["kind"], e["err"])}.get(e["op"], lambda: "")()


if __name__ == "__main__":
    drvlib.main(plans, execute, outcome)
