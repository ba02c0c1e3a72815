"""Drives key conversions and key sets (properties C21, C22)."""
import base64
import hashlib
import json
import os
import pathlib
import random
import sys
import tempfile

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common                                          # noqa: E402
import drvlib                                          # noqa: E402
import vclock                                          # noqa: E402
from common import ALGCRV, b64u, esc, unb64u           # noqa: E402

CORPUS = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "keys.json")))
PUBLIC = {"oct": ("k",), "RSA": ("n", "e"), "EC": ("crv", "x", "y")}
PRIVATE = {"oct": (), "RSA": ("d", "p", "q", "dp", "dq", "qi"), "EC": ("d",)}
CRVALG = {v: k for k, v in ALGCRV.items()}
NOOBS = {"ok": False, "err": "", "kty": "", "pub": "", "priv": "none", "meta": [], "clean": True}


def digest(*x):
    return "~" + hashlib.sha256(repr(x).encode()).hexdigest()[:24]


def canon(x):
    return esc(json.dumps(x, sort_keys=True))


def num(s):
    return int.from_bytes(unb64u(s), "big")


def public(d):
    return {k: v for k, v in d.items() if k not in PRIVATE[d["kty"]]}


def meta(d):
    mat = {"kty"} | set(PUBLIC.get(d.get("kty"), ())) | set(PRIVATE.get(d.get("kty"), ()))
    return sorted([esc(k), canon(v)] for k, v in d.items() if k not in mat and v is not None)


def rsa_ok(n, e, d, p=None, q=None, dp=None, dq=None, qi=None):
    if p is not None and q is not None:
        if p * q != n or p < 2 or q < 2 or (e * d - 1) % (p - 1) or (e * d - 1) % (q - 1):
            return False
        return (dp is None or dp == d % (p - 1)) and (dq is None or dq == d % (q - 1)) and (qi is None or qi * q % p == 1)
    return pow(pow(2, e, n), d, n) == 2


def ec_ok(crv, x, y, d):
    from cryptography.hazmat.primitives.asymmetric import ec
    m = ec.derive_private_key(d, common.curve(crv), common._be()).public_key().public_numbers()
    return (m.x, m.y) == (x, y)


_memo = {}


def secrets_of(jwk):
    """Texts and byte strings that only the private form may contain."""
    out = []
    for k in PRIVATE[jwk["kty"]]:
        if k in jwk:
            b = unb64u(jwk[k]).lstrip(b"\0")
            if len(b) >= 16:
                out += [b, jwk[k].encode(), b64u(b).encode(), b.hex().encode()]
    return out


def clean(blob, secrets):
    blobs = [blob]
    for part in blob.split(b"-----"):
        try:
            blobs.append(base64.b64decode(part, validate=False))
        except ValueError:
            pass
    return not any(s in b for s in secrets for b in blobs)


def facts_dict(d, secrets):
    """Facts of a JWK as an independent reader sees it."""
    o = dict(NOOBS, ok=True)
    try:
        d = json.loads(json.dumps(d))
        kty = d["kty"]
        o.update(kty=kty, meta=meta(d), clean=clean(json.dumps(d).encode(), secrets))
        key = json.dumps([d.get(k) for k in ("kty",) + PUBLIC[kty] + PRIVATE[kty]])
        if key not in _memo:
            if kty == "oct":
                _memo[key] = (digest("oct", unb64u(d["k"])), "ok")
            elif kty == "RSA":
                v = {k: num(d[k]) if k in d else None for k in PUBLIC["RSA"] + PRIVATE["RSA"]}
                pr = "none" if not any(k in d for k in PRIVATE["RSA"]) else "ok" if v["d"] is not None and rsa_ok(**v) else "bad"
                _memo[key] = (digest("RSA", v["n"], v["e"]), pr)
            else:
                x, y = num(d["x"]), num(d["y"])
                pr = "none" if "d" not in d else "ok" if ec_ok(d["crv"], x, y, num(d["d"])) else "bad"
                _memo[key] = (digest("EC", d["crv"], x, y), pr)
        o["pub"], o["priv"] = _memo[key]
    except Exception as exc:
        o.update(kty="?", pub="?" + type(exc).__name__)
    return o


def facts_text(t, kty, secrets):
    from cryptography.hazmat.primitives import serialization as ser
    from cryptography.hazmat.primitives.asymmetric import ec, rsa
    o = dict(NOOBS, ok=True)
    try:
        if kty == "oct":
            return dict(o, kty="oct", pub=digest("oct", base64.b64decode(t, validate=True)), priv="ok")
        o["clean"] = clean(t, secrets)
        if t not in _memo:
            if b"PRIVATE" in t:
                k = ser.load_pem_private_key(t, None, common._be())
                pr, pub = "ok", k.public_key()
            else:
                pr, pub = "none", ser.load_pem_public_key(t, common._be())
            m = pub.public_numbers()
            if isinstance(pub, rsa.RSAPublicKey):
                _memo[t] = ("RSA", digest("RSA", m.n, m.e), pr)
            elif isinstance(pub, ec.EllipticCurvePublicKey):
                crv = {"secp256r1": "P-256", "secp384r1": "P-384", "secp521r1": "P-521"}[m.curve.name]
                _memo[t] = ("EC", digest("EC", crv, m.x, m.y), pr)
        o["kty"], o["pub"], o["priv"] = _memo[t]
    except Exception as exc:
        o.update(kty="?", pub="?" + type(exc).__name__)
    return o


def encrypted(t, pw, form):
    """The private PEM t re-encoded by the harness."""
    from cryptography.hazmat.primitives import serialization as ser
    k = ser.load_pem_private_key(t, None, common._be())
    enc = ser.BestAvailableEncryption(pw) if pw else ser.NoEncryption()
    return k.private_bytes(ser.Encoding.PEM, ser.PrivateFormat.PKCS8 if form == "pkcs8" else ser.PrivateFormat.TraditionalOpenSSL, enc)


def again(x):
    """x as it comes back from JSON text (itself if it is no JSON)."""
    try:
        return json.loads(json.dumps(x))
    except (TypeError, ValueError):
        return dict(x)


class Run:
    def __init__(self, p):
        from psion.jose import JsonWebKey, JsonWebKeySet, JsonWebSignature
        self.KEY, self.SET, self.JWS = JsonWebKey, JsonWebKeySet, JsonWebSignature
        self.p = p
        self.rng = random.Random(p["id"] + "|" + str(p.get("seed", 0)))
        self.ev = []
        self.f = {}             # forms by name
        self.jwk = {}           # original JWK each form descends from
        self.s = {}
        self.secrets = []
        self.windows = set()    # stretches of the secrets generated so far

    def run(self):
        with tempfile.TemporaryDirectory(prefix="vp-jwk-") as d:
            self.dir = d
            for o in self.p["ops"]:
                getattr(self, "do_" + o["op"])(o)
        return dict(id=self.p["id"], ev=self.ev)

    def note(self, e, fn, then=None):
        """Runs fn; then(result) gives further fields."""
        r = None
        e.setdefault("obs", NOOBS)
        try:
            r = fn()
            e.update(ok=True, err="")
        except drvlib.Stuck:
            raise
        except Exception as exc:
            e.update(ok=False, err=type(exc).__name__)
        if e["ok"] and then:
            e.update(then(r))
        self.ev.append(e)
        return r

    def give(self, name, jwk, f="dict"):
        self.f[name] = json.loads(json.dumps(jwk))
        self.jwk[name] = jwk
        self.secrets += secrets_of(self.p["keys"][self.p["of"].get(name, name)]) if self.p.get("of") else secrets_of(jwk)
        self.ev.append(dict(op="given", out=name, f=f, obs=facts_dict(jwk, [])))

    # -- chains
    def do_chain(self, o):
        jwk = o["jwk"]
        kty = jwk["kty"]
        self.secrets = secrets_of(o["full"])
        self.give("s", jwk)
        cur, kind = "s", "dict"
        privobj = lastobj = None
        for i, step in enumerate(o["h"]):
            name = "f%d" % i
            x = self.f.get(cur)
            ok = False
            if step["op"] == "load":
                k = kty if step["same"] else o["other"]
                src = x if self.rng.random() < .5 else again(x)
                r = self.note(dict(op="load", src=cur, out=name, kty=k), lambda: self.KEY(dict(src, kty=k)))
                ok, newkind = r is not None, "obj"
            elif step["op"] == "dump":
                pub = step["public"]
                r = self.note(dict(op="dump", src=cur, out=name, public=pub),
                              lambda: x.dump() if pub and self.rng.random() < .5 else x.dump(pub) if self.rng.random() < .5 else x.dump(public=pub),
                              lambda r: dict(obs=facts_dict(r, self.secrets)))
                ok, newkind = r is not None, "dict"
            elif step["op"] == "export":
                pub = step["public"]
                r = self.note(dict(op="export", src=cur, out=name, public=pub),
                              lambda: x.export() if not pub and self.rng.random() < .5 else x.export(pub),
                              lambda r: dict(obs=facts_text(r, kty, self.secrets)))
                ok, newkind = r is not None, "text"
            else:
                r = self.parse(cur, name, x, kty, step, o)
                ok, newkind = r is not None, "obj"
            if not ok:
                continue
            self.f[name] = r
            cur, kind = name, newkind
            if kind == "obj":
                self.probe(name, o["full"])
                lastobj = name
                if o["full"].get("kty") == "oct" or self.ev[-1]["sd"]["ok"]:
                    privobj = name
        if privobj and lastobj:
            self.cross(privobj, lastobj, o["full"])
        if lastobj and o.get("stranger"):
            self.ev.append(dict(op="given", out="z", f="dict", obs=facts_dict(o["stranger"], [])))
            r = self.note(dict(op="load", src="z", out="zo", kty=o["stranger"]["kty"]), lambda: self.KEY(dict(o["stranger"])))
            if r is not None:
                self.f["zo"] = r
                self.cross("zo", lastobj, o["full"])

    def parse(self, cur, name, x, kty, step, o):
        rng = self.rng
        t = x if isinstance(x, bytes) else str(x).encode()
        pw = None
        fmt = "pem"
        private = b"PRIVATE" in t and kty != "oct"
        if private and (not step["pw"] or rng.random() < .4):
            pw = None if step["pw"] and rng.random() < .5 else b"pa55-\xc3\xa9"
            key = (t, pw, "pkcs8" if pw or rng.random() < .6 else "trad")
            if key not in _memo:
                _memo[key] = encrypted(*key)
            t = _memo[key]
            if pw and not step["pw"]:
                pw = rng.choice([b"wrong", None])
        if kty == "oct" and step["same"] and rng.random() < .4:
            fmt, t = "der", base64.b64decode(t)
        how = rng.choice(["bytes", "bytes", "str", "file", "path", "bytespath"])
        src = t
        if how == "str" and fmt == "pem":
            src = t.decode()
        elif how in ("file", "path", "bytespath"):
            p = os.path.join(self.dir, name + ".pem")
            with open(p, "wb") as f:
                f.write(t)
            src = {"file": p, "path": pathlib.Path(p), "bytespath": p.encode()}[how]
        m = o["options"] if step["meta"] else {}
        kw = dict(m)
        if pw is not None:
            kw["password"] = pw
        if fmt != "pem" or rng.random() < .2:
            kw["format"] = fmt
        alg = kty if step["same"] else o["other"]
        e = dict(op="parse", src=cur, out=name, kty=alg, public=step["public"], meta=sorted([esc(k), canon(v)] for k, v in m.items()),
                 goodpw=step["pw"])
        return self.note(e, lambda: self.KEY.parse(src, alg, step["public"], **json.loads(json.dumps({k: v for k, v in kw.items() if k != "password"})),
                                                   **({"password": pw} if pw is not None else {})))

    def side(self, fn, read):
        try:
            r = fn()
        except drvlib.Stuck:
            raise
        except Exception as exc:
            return dict(NOOBS, err=type(exc).__name__)
        return read(r)

    def alg(self, jwk):
        return {"oct": "HS256", "RSA": "RS256"}.get(jwk["kty"]) or CRVALG[jwk["crv"]]

    def fit(self, name):
        d = next((e for e in reversed(self.ev) if e["op"] == "probe" and e["src"] == name), None)
        m = dict(map(tuple, d["pd"]["meta"])) if d else {}
        return m.get("use", '"sig"') == '"sig"' and "alg" not in m and m.get("key_ops", canon(["sign", "verify"])) == canon(["sign", "verify"])

    def probe(self, name, full_):
        x = self.f[name]
        kty = full_["kty"]
        e = dict(op="probe", src=name, signs=False, good=False, fit=True)
        e["pd"] = self.side(lambda: x.dump(True), lambda r: facts_dict(r, self.secrets))
        e["sd"] = self.side(lambda: x.dump(False), lambda r: facts_dict(r, self.secrets))
        e["pe"] = self.side(lambda: x.export(True), lambda r: facts_text(r, kty, self.secrets))
        e["se"] = self.side(lambda: x.export(False), lambda r: facts_text(r, kty, self.secrets))
        self.ev.append(e)
        e["fit"] = self.fit(name)
        if e["fit"]:
            a = self.alg(full_)
            try:
                tok = self.JWS(b"probe", {"alg": a}).serialize(x)
                e["signs"] = True
                h, p, s = tok.split(b".")
                e["good"] = common.raw_verify(a, full_, h + b"." + p, unb64u(s))
            except drvlib.Stuck:
                raise
            except Exception:
                pass

    def cross(self, a, b, full_):
        e = dict(op="cross", src=a, other=b, fit=self.fit(a) and self.fit(b) if a != "zo" else self.fit(b), ok=False, err="")
        jwk = full_ if a != "zo" else None
        try:
            tok = None
            alg = self.alg(jwk or self.p["ops"][0]["stranger"])
            tok = self.JWS(b"cross", {"alg": alg}).serialize(self.f[a])
            self.JWS.deserialize(tok, self.f[b], alg)
            e["ok"] = True
        except drvlib.Stuck:
            raise
        except Exception as exc:
            e["err"] = type(exc).__name__
            if tok is None and a != "zo" and e["fit"]:
                e["err"] = "signing " + e["err"]
        self.ev.append(e)

    # -- generating
    def do_generate(self, o):
        random.seed(7)
        e = dict(op="generate", out=o["out"], kty=o["kty"], size=str(o["size"]), got="", stale=False, must=o["must"],
                 meta=sorted([esc(k), canon(v)] for k, v in o["params"].items() if v is not None))

        def make():
            if o["option"] is None:
                return self.KEY.generate(o["kty"], **json.loads(json.dumps(o["params"])))
            return self.KEY.generate(o["kty"], o["option"], **json.loads(json.dumps(o["params"])))
        full_ = {}

        def seen(k):
            d = json.loads(json.dumps(k.dump(False)))
            full_.update(d)
            got = {"oct": lambda: len(unb64u(d["k"])), "RSA": lambda: num(d["n"]).bit_length(), "EC": lambda: d["crv"]}[o["kty"]]()
            # stretches of the secret that occur twice: in it or in an earlier key
            mat = b"".join(unb64u(d[x]) for x in ("k", "d", "p", "q") if x in d and (o["kty"] != "RSA" or x in "pq"))
            win = [mat[i:i + 8] for i in range(len(mat) - 7)]
            stale = len(set(win)) < len(win) or any(w in self.windows for w in win)
            self.windows.update(win)
            return dict(obs=facts_dict(d, []), got=str(got), stale=stale)
        try:
            k = self.note(e, make, seen)
        except drvlib.Stuck:
            raise
        except Exception as exc:
            self.ev.append(dict(e, ok=False, err=type(exc).__name__, must=True))
            return
        if k is not None:
            self.f[o["out"]] = k
            self.secrets = secrets_of(full_)
            self.probe(o["out"], full_)
            # and back again
            r = self.note(dict(op="dump", src=o["out"], out=o["out"] + "d", public=True), lambda: k.dump(True),
                          lambda r: dict(obs=facts_dict(r, self.secrets)))
            if r is not None:
                k2 = self.note(dict(op="load", src=o["out"] + "d", out=o["out"] + "l", kty=o["kty"]), lambda: self.KEY(r))
                if k2 is not None:
                    self.f[o["out"] + "l"] = k2
                    self.probe(o["out"] + "l", full_)
                    self.cross(o["out"], o["out"] + "l", full_)

    # -- key sets
    def do_key(self, o):
        self.secrets += secrets_of(o["full"])
        self.ev.append(dict(op="given", out=o["name"] + "d", f="dict", obs=facts_dict(o["jwk"], [])))
        self.jwk[o["name"] + "d"] = o["jwk"]
        k = self.note(dict(op="load", src=o["name"] + "d", out=o["name"], kty=o["jwk"]["kty"]), lambda: self.KEY(json.loads(json.dumps(o["jwk"]))))
        self.f[o["name"]] = k

    def members(self, s):
        return [dict(facts_dict(k.dump(True), self.secrets)) for k in s.keys]

    def do_build(self, o):
        bad = o.get("bad")
        keys = [self.f.get(n) for n in o["keys"]]
        if any(k is None for k in keys):
            return
        arg = {"none": None, "dict": {"keys": keys}, "str": "keys", "number": 7, "dicts": [k.dump() for k in keys], "withnone": keys + [None],
               "withdict": keys + [{"kty": "oct", "k": "AAAA", "kid": "zz"}], "withstr": ["x"] + keys}.get(bad, keys) if bad else keys
        r = self.note(dict(op="build", keys=o["keys"], list=not bad, out=o["out"]), lambda: self.SET(arg))
        if r is not None:
            self.s[o["out"]] = r

    def do_find(self, o):
        s = self.s.get(o["set"])
        if s is None:
            return
        e = dict(op="find", set=o["set"], kid=canon(o["kid"]), found="none", obs=NOOBS)
        try:
            k = s.get_key(o["kid"])
            if k is not None:
                e.update(found="key", obs=facts_dict(k.dump(True), []))
        except drvlib.Stuck:
            raise
        except Exception as exc:
            e.update(found="error", err=type(exc).__name__)
        self.ev.append(e)

    def do_dumpset(self, o):
        s = self.s.get(o["set"])
        if s is None:
            return
        e = dict(op="dumpset", set=o["set"], out=o["out"], public=o["public"], obs=[])
        r = self.note(e, lambda: s.dump() if o["public"] and o.get("default") else s.dump(o["public"]),
                      lambda r: dict(obs=[facts_dict(k, self.secrets) for k in r["keys"]] if set(r) == {"keys"} else []))
        if r is not None:
            self.s[o["out"]] = r

    def do_givenset(self, o):
        self.ev.append(dict(op="givenset", out=o["out"], keys=[k + "d" for k in o["keys"]]))
        self.s[o["out"]] = {"keys": [self.jwk[k + "d"] for k in o["keys"]]}

    def do_loadset(self, o):
        d = self.s.get(o["set"])
        if d is None:
            return
        if o.get("json", True):
            d = json.loads(json.dumps(d))
        bad = o.get("bad")
        if bad:
            d = {"none": None, "empty": {}, "list": d["keys"], "nokeys": {"key": d["keys"]}, "emptylist": {"keys": []}, "str": json.dumps(d)}[bad]
        e = dict(op="loadset", set=o["set"], out=o["out"], fine=not bad, obs=[], privs=[])

        def seen(s):
            privs = []
            for k in s.keys:
                try:
                    k.dump(False)
                    privs.append(True)
                except Exception:
                    privs.append(False)
            return dict(obs=self.members(s), privs=privs)
        try:
            s = self.note(e, lambda: self.SET.load(d), seen)
        except drvlib.Stuck:
            raise
        except Exception as exc:
            self.ev.append(dict(e, ok=False, err=type(exc).__name__))
            return
        if s is not None:
            self.s[o["out"]] = s


# ------------------------------------------------------------------ making plans

NAMES = {"RSA": ["rsa2048", "rsa2048b", "rsa2048e3", "rsanocrt", "rsa3072", "rsa1024"],
         "EC": ["ec256", "ec256x", "ec256y", "ec256d", "ec384", "ec384x", "ec384y", "ec384d", "ec521", "ec521x", "ec521y", "ec521d"],
         "oct": ["oct32", "oct33", "oct48", "oct64", "oct100", "octz", "octn"]}


def metadata(rng, kid=None):
    d = {}
    for k, v in [("kid", rng.choice(["k1", "é", "2021-05-01", "a b"])), ("use", "sig"), ("key_ops", ["sign", "verify"]), ("x5c", ["MIIB", "AA=="]),
                 ("x5t#S256", "abc"), ("nested", {"a": [1, {"b": None}], "é": ""}), ("exp", 0), ("flag", False), ("blank", ""), ("list", []), ("é", "\u2028"),
                 ("num", 10 ** 30), ("use", "enc"), ("alg", "HS256")]:
        if rng.random() < (.35 if k not in ("alg", "use") else .15):
            d[k] = v
    if kid:
        d["kid"] = kid
    items = list(d.items())
    rng.shuffle(items)
    return dict(items)


class Maker:
    def __init__(self, job):
        self.job, self.seed = job, job["seed"]

    def chain(self, it, copy):
        i, c = it
        name = "chain-%s-%s-%d#%d" % (c["kty"], "priv" if c["priv"] else "pub", i, copy)
        rng = random.Random("%s|%s" % (self.seed, name))
        kn = rng.choice(NAMES[c["kty"]])
        full_ = CORPUS[kn]
        base = full_ if c["priv"] else public(full_)
        jwk = dict(base, **metadata(rng)) if rng.random() < .8 else dict(base)
        if c["kty"] == "RSA" and c["priv"] and rng.random() < .2:
            for k in rng.choice([("dp", "dq", "qi"), ("qi",), ("dp",), ("p", "q", "dp", "dq", "qi")]):
                jwk.pop(k, None)
        same = [k for k in NAMES[c["kty"]] if CORPUS[k] != full_ and CORPUS[k].get("crv") == full_.get("crv") and CORPUS[k].get("n") != full_.get("n")]
        st = CORPUS[rng.choice(same)] if same and rng.random() < .3 else None
        if st is not None and st["kty"] == "oct":
            a, b = unb64u(st["k"]).rstrip(b"\0"), unb64u(full_["k"]).rstrip(b"\0")
            st = None if a == b else st
        return dict(id=name, seed=self.seed, ops=[dict(op="chain", jwk=jwk, full=dict(full_), h=c["h"], options=metadata(rng) or {"kid": "z"}, stranger=st,
                                                       other={"RSA": rng.choice(["EC", "oct"]), "EC": rng.choice(["RSA", "oct"]), "oct": rng.choice(["RSA", "EC"])}[c["kty"]])])

    def generate(self, i):
        rng = random.Random("%s|gen|%s" % (self.seed, i))
        ops = []
        what = [("oct", None, 32), ("oct", 32, 32), ("oct", rng.randrange(33, 200), None), ("EC", "P-256", "P-256"), ("EC", "P-384", "P-384"),
                ("EC", "P-521", "P-521"), ("EC", "P-256", "P-256"), ("oct", None, 32)]
        if i % 3 == 0:
            what += [("RSA", 1024, 1024), ("RSA", rng.choice([1024, 1280, 1536]), None)]
        if i % 12 == 0:
            what += [("RSA", None, 2048)]
        rng.shuffle(what)
        for j, (kty, opt, size) in enumerate(what):
            ops.append(dict(op="generate", out="g%d" % j, kty=kty, option=opt, size=size or opt, must=True, params=metadata(rng)))
        return dict(id="gen-%s" % i, seed=self.seed, ops=ops)

    def sets(self, it):
        i, c = it
        rng = random.Random("%s|set|%s" % (self.seed, i))
        m = rng.choice([{"a": "key", "b": "key2", "A": "KEY", "c": "key "}, {"a": "1", "b": "01", "A": "1 ", "c": "10"}, {"a": "é", "b": "e", "A": "É", "c": "e\u0301"},
                        {"a": "x", "b": "y", "A": "X", "c": "xy"}, {"a": "None", "b": "null", "A": "none", "c": "0"}])
        big = any(x.startswith("n") for x in c["ids"])
        if big:
            style = rng.choice([lambda a: a[1:], lambda a: "key-" + a, lambda a: "%08x" % random.Random(a + str(i)).getrandbits(32), lambda a: chr(0x3b1 + int(a[1:]))])
            m = {a: style(a) for a in c["ids"]}
        ops = []
        names = []
        used = set()
        for j, (a, kind) in enumerate(zip(c["ids"], c["kinds"])):
            kty = {"rsa": "RSA", "rsapub": "RSA", "ec": "EC", "ecpub": "EC"}.get(kind, "oct")
            pool = [k for k in NAMES[kty] if k not in used] or NAMES[kty]
            if rng.random() < .15:
                pool = NAMES[kty]           # the same material under two ids
            kn = rng.choice(pool)
            used.add(kn)
            full_ = CORPUS[kn]
            if big and kind == "oct":
                full_ = dict(kty="oct", k=b64u(rng.randbytes(rng.randint(32, 70))))
            jwk = dict(public(full_) if kind.endswith("pub") else full_, **metadata(rng))
            jwk.pop("kid", None)
            if a:
                jwk["kid"] = m[a]
            items = list(jwk.items())
            rng.shuffle(items)
            n = "k%d" % j
            names.append(n)
            ops.append(dict(op="key", name=n, jwk=dict(items), full=full_))
        ops.append(dict(op="build", keys=names, out="S"))
        if names and rng.random() < .3:
            ops.append(dict(op="build", keys=names, out="B", bad=rng.choice(["none", "dict", "str", "number", "dicts", "withnone", "withdict", "withstr"])))
        first = m["a"] if not big else m[c["ids"][0]]
        ids = sorted(set(m.values())) + ["", "k", "kid", first[:-1], first + "\0"]
        if big:
            ids += [style("n%d" % x) for x in rng.sample(range(len(m) * 5), 12)] + rng.sample(ids, 8)
            rng.shuffle(ids)
        for k in ids:
            ops.append(dict(op="find", set="S", kid=k))
        ops.append(dict(op="dumpset", set="S", out="D", public=True, default=rng.random() < .5))
        ops.append(dict(op="loadset", set="D", out="L", json=rng.random() < .7))
        for k in rng.sample(ids, 3 if not big else len(ids) // 2):
            ops.append(dict(op="find", set="L", kid=k))
        ops.append(dict(op="dumpset", set="S", out="P", public=False))
        ops.append(dict(op="loadset", set="P", out="Q"))
        ops.append(dict(op="dumpset", set="Q", out="P2", public=rng.random() < .5))
        for k in rng.sample(ids, 2):
            ops.append(dict(op="find", set="Q", kid=k))
        ops.append(dict(op="givenset", out="G", keys=names))
        ops.append(dict(op="loadset", set="G", out="H", **({"bad": rng.choice(["none", "empty", "list", "nokeys", "emptylist", "str"])} if rng.random() < .2 else {})))
        ops.append(dict(op="find", set="H", kid=first))
        return dict(id="set-%s-%s" % (i, "".join(x or "_" for x in c["ids"]) if not big else "%dkeys" % len(names)), seed=self.seed, ops=ops)


def plans(job):
    m = Maker(job)
    for it in job["items"]:
        if job["kind"] == "chains":
            for c in range(job.get("copies", 1)):
                yield m.chain(it, c)
        elif job["kind"] == "generate":
            yield m.generate(it)
        elif job["kind"] == "sets":
            yield m.sets(it)


def outcome(e):
    if e["op"] in ("given", "givenset", "probe"):
        return e["op"]
    if e["op"] == "find":
        return "find " + e["found"]
    return e["op"] + (" ok" if e.get("ok") else " refused")


if __name__ == "__main__":
    vclock.set_ms(1_600_000_000_000)
    vclock.set_tz("UTC")
    drvlib.main(plans, lambda p: Run(p).run(), outcome)
