"""Drives JWS and JWT signing and verifying (properties C16, C17, C18, C23, C24)."""
import base64
import functools
import hashlib
import hmac
import json
import os
import random
import re
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common                                                    # noqa: E402
import drvlib                                                    # noqa: E402
from common import ALGCRV, COORD, b64u, esc, unb64u              # noqa: E402

CORPUS = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "keys.json")))
HS = ["HS256", "HS384", "HS512"]
RS = ["RS256", "RS384", "RS512", "PS256", "PS384", "PS512"]
ES = ["ES256", "ES384", "ES512"]
ALGS = HS + RS + ES + ["none"]
PUBLIC = {"oct": ("k",), "RSA": ("n", "e"), "EC": ("crv", "x", "y")}
PRIVATE = {"oct": (), "RSA": ("d", "p", "q", "dp", "dq", "qi"), "EC": ("d",)}
ORDER = {"P-256": 0xFFFFFFFF00000000FFFFFFFFFFFFFFFFBCE6FAADA7179E84F3B9CAC2FC632551,
         "P-384": 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFC7634D81F4372DDF581A0DB248B0A77AECEC196ACCC52973,
         "P-521": 0x01FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFA51868783BF2F966B7FCC0148F709A5D03BB5C9B8899C47AEBB6FB71E91386409}

for _n in ("rsa_private", "rsa_public", "ec_private", "ec_public"):         # building keys is slow
    def _cached(f=getattr(common, _n)):
        memo = {}

        def g(jwk):
            k = json.dumps({x: jwk[x] for x in jwk if x in ("n", "e", "d", "crv", "x", "y")}, sort_keys=True)
            if k not in memo:
                memo[k] = f(jwk)
            return memo[k]
        return g
    setattr(common, _n, _cached())


def digest(b):
    return "~" + hashlib.sha256(b).hexdigest()[:24]


def public(jwk):
    return {k: v for k, v in jwk.items() if k not in PRIVATE[jwk["kty"]]}


def mat(jwk):
    return digest(json.dumps([jwk["kty"]] + [jwk[k] for k in PUBLIC[jwk["kty"]]]).encode())


NOKEY = dict(kty="nokey", crv="", priv=False, mat="", alg="", kid="", use="", ops=[], big=True)


def keyfacts(jwk):
    if jwk is None:
        return NOKEY
    return dict(kty=jwk["kty"], crv=jwk.get("crv", ""), priv=jwk["kty"] == "oct" or "d" in jwk, mat=mat(jwk),
                alg=esc(jwk.get("alg")), kid=esc(jwk.get("kid")), use=esc(jwk.get("use")), ops=[esc(x) for x in jwk.get("key_ops", [])],
                big=jwk["kty"] != "RSA" or len(unb64u(jwk["n"])) >= 256)


# ------------------------------------------------------------------ reading tokens

B64 = re.compile(rb"\A[A-Za-z0-9_-]*\Z")


def lenient(seg):
    """Value of a base64url text as a tolerant decoder sees it, or None; and whether the text is canonical."""
    canon = bool(B64.match(seg)) and len(seg) % 4 != 1
    if canon:
        v = unb64u(seg)
        return v, b64u(v).encode() == seg
    try:
        return base64.urlsafe_b64decode(seg + b"=" * (len(seg) % 4)), False
    except ValueError:
        pass
    core = re.sub(rb"[^A-Za-z0-9_-]", b"", seg.replace(b"+", b"-").replace(b"/", b"_"))
    if B64.match(seg) or len(core) % 4 == 1:
        return None, False
    return unb64u(core), False


def member(d, k):
    if k not in d:
        return "absent"
    return "str" if isinstance(d[k], str) and d[k] else "bad"


def read_header(obj):
    """Facts of a header given as a Python object."""
    hd = dict(form="object", alg="absent", kid="absent", kidv="", typ="absent", cty="absent", crit="absent")
    if not isinstance(obj, dict):
        return dict(hd, form="other")
    if not obj:
        return dict(hd, form="empty")
    if "alg" in obj:
        a = obj["alg"]
        hd["alg"] = a if isinstance(a, str) and a in ALGS else "unsupported" if isinstance(a, str) else "type"
    hd["kid"] = member(obj, "kid")
    if hd["kid"] == "str":
        hd["kidv"] = esc(obj["kid"])
    hd["typ"], hd["cty"] = member(obj, "typ"), member(obj, "cty")
    if "crit" in obj:
        c = obj["crit"]
        if not isinstance(c, list) or not c or any(not isinstance(x, str) or not x for x in c):
            hd["crit"] = "bad"
        elif any(x not in obj for x in c):
            hd["crit"] = "missing"
        else:
            hd["crit"] = "ok" if all(obj[x] for x in c) else "gray"
    return hd


class Odd(Exception):
    pass


def load(b, gray):
    def const(x):
        gray.append("nan")
        return 0
    return json.loads(b.decode("utf-8"), parse_constant=const)


NONE_HD = dict(form="base64", alg="absent", kid="absent", kidv="", typ="absent", cty="absent", crit="absent")


def evident(c):
    """Claims that no check of times and types can refuse."""
    now = 1_600_000_000
    for k, v in c.items():
        if k in ("iss", "sub", "jti") and not isinstance(v, str):
            return False
        if k == "aud" and not (isinstance(v, str) or isinstance(v, list) and all(isinstance(x, str) for x in v)):
            return False
        if k == "exp" and not (type(v) is int and v > 2_500_000_000):
            return False
        if k in ("nbf", "iat") and not (type(v) is int and v < now):
            return False
    return True


def read_token(tok, jwt):
    """What an independent reader finds in a token: facts for the specification and the decoded header and payload."""
    segs = tok.split(b".")
    f = dict(n=min(len(segs), 9), h="", p="", s="", hd=dict(NONE_HD), pb64=False, pay="other", gray=[])
    if len(segs) != 3:
        return f, None, None
    h, p, s = segs
    f["h"], f["p"] = digest(h), digest(p)
    header = payload = None
    hv, canon = lenient(h)
    if not canon:
        f["gray"].append("headertext")
    if hv is not None:
        try:
            header = load(hv, f["gray"])
            f["hd"] = read_header(header)
        except (ValueError, RecursionError):
            f["hd"] = dict(NONE_HD, form="text")
    pv, canon = lenient(p)
    if not canon:
        f["gray"].append("payloadtext")
    f["pb64"] = pv is not None
    if pv is not None:
        payload = pv
        try:
            c = load(pv, f["gray"] if jwt else [])
            if isinstance(c, dict):
                f["pay"] = "object"
                if jwt and not full(c):
                    f["gray"].append("emptyclaims")
                elif jwt and not evident(c):
                    f["gray"].append("claims")
            if jwt:
                payload = c
        except (ValueError, RecursionError):
            pass
    sv, canon = lenient(s)
    if not canon and f["hd"]["alg"] != "none":
        f["gray"].append("signaturetext")
    f["s"] = "undecodable" if sv is None else sigvalue(f["hd"]["alg"], sv)
    f["exact"] = None if sv is None else digest(sv)
    return f, header, payload


def sigvalue(alg, sv):
    if alg in ES:
        n = COORD[ALGCRV[alg]]
        if len(sv) == 2 * n:
            r, s = int.from_bytes(sv[:n], "big"), int.from_bytes(sv[n:], "big")
            o = ORDER[ALGCRV[alg]]
            if 0 < s < o:
                s = min(s, o - s)
            sv = r.to_bytes(n, "big") + s.to_bytes(n, "big")
    return digest(sv)


def full(d):
    return {k: v for k, v in d.items() if v is not None}


def alike(a, b):
    try:
        return type(a) is not bool and a == b and json.dumps(a, sort_keys=True) == json.dumps(b, sort_keys=True)
    except Exception:
        return False


# ------------------------------------------------------------------ executing a plan

class Run:
    def __init__(self, p):
        from psion.jose import JsonWebKey, JsonWebSignature, JsonWebSignatureHeader, JsonWebToken
        from psion.jose.exceptions import JoseError
        self.KEY, self.JWS, self.HDR, self.JWT, self.ERR = JsonWebKey, JsonWebSignature, JsonWebSignatureHeader, JsonWebToken, JoseError
        self.p = p
        self.rng = random.Random(p["id"] + "|" + str(p.get("seed", 0)))
        self.ev = []
        self.tok = {}
        self.exact = set()
        self.memo = {}
        self.keys = {}

    def key(self, name):
        if name not in self.keys:
            jwk = self.p["keys"][name]
            try:
                self.keys[name] = (self.KEY(dict(jwk)) if jwk is not None else self.p.get("nokey"), None)
            except Exception as exc:
                self.keys[name] = (None, exc)
        k, exc = self.keys[name]
        if exc is not None:
            raise exc
        return k

    def failed(self, exc):
        return dict(ok=False, err=type(exc).__name__, jose=isinstance(exc, self.ERR))

    def run(self):
        for o in self.p["ops"]:
            getattr(self, "do_" + o["op"])(o)
        return dict(id=self.p["id"], keys={k: keyfacts(v) for k, v in self.p["keys"].items()}, ev=self.ev)

    # -- signing
    def do_sign(self, o):
        jwt = o["api"] != "jws"
        header = o["header"]
        content = o["claims"] if jwt else unb64u(o["payload"])
        hd = read_header(header)
        e = dict(e="sign", k=o["k"], jwt=jwt, hd=hd, h="", p="", s="", by=o["by"], ok=True, err="", jose=True, three=False,
                 hsame=False, psame=False, ext=False, gray=o.get("gray", []), pay="object", exp=o.get("exp", []), chk="exp" in o)
        tok = None
        if o["by"] == "ext":
            raw = content if not jwt else json.dumps(content, ensure_ascii=o.get("ascii", False), separators=o.get("sep")).encode()
            text = o["text"].encode() if "text" in o else json.dumps(header, ensure_ascii=o.get("ascii", False),
                                                                      separators=o.get("sep")).encode()
            tok = common.ext_token(hd["alg"], self.p["keys"][o["k"]], text, raw)
        else:
            try:
                k = self.key(o["k"])
                if jwt:
                    obj = self.JWT(json.loads(json.dumps(content)), json.loads(json.dumps(header)))
                    self.warm(o, obj.encode)
                    tok = obj.encode(k)
                    tok = tok.encode() if isinstance(tok, str) else tok
                else:
                    hh = json.loads(json.dumps(header))
                    obj = self.JWS(content, hh if o.get("plainheader", True) else self.HDR(hh))
                    self.warm(o, obj.serialize)
                    tok = obj.serialize(k)
                if not isinstance(tok, bytes):
                    raise TypeError("token is a %s" % type(tok).__name__)
            except drvlib.Stuck:
                raise
            except Exception as exc:
                e.update(self.failed(exc))
        if tok is not None:
            self.tok[o["out"]] = tok
            f, h2, p2 = read_token(tok, jwt)
            e.update(h=f["h"], p=f["p"], s=f["s"])
            segs = tok.split(b".")
            e["three"] = len(segs) == 3 and not (set(f["gray"]) & {"headertext", "payloadtext"}) and bool(B64.match(segs[2]))
            e["hsame"] = isinstance(header, dict) and alike(h2, full(header))
            e["psame"] = alike(p2, full(content)) if jwt else p2 == content
            if f.get("exact"):
                self.exact.add(f["exact"])
            if o["by"] == "psion" and hd["alg"] in ALGS and len(segs) == 3:
                e["ext"] = self.independent(o["k"], hd["alg"], segs)
        self.ev.append(e)

    def warm(self, o, write):
        """The same object signed before, with another key."""
        if o.get("warm"):
            try:
                write(self.key(o["warm"]))
            except Exception:
                pass

    def do_zero(self, o):
        """Signs varying payloads until the signature starts (or its second half starts) with a zero byte; judges the last few."""
        a = o["header"]["alg"]
        jwk = self.p["keys"][o["k"]]
        head = b64u(json.dumps(o["header"]).encode())
        found = 0
        for i in range(o["tries"]):
            pl = b"z%d-%d" % (self.rng.randrange(1 << 40), i)
            sv = None
            if o["by"] == "ext":
                sv = common.raw_sign(a, jwk, (head + "." + b64u(pl)).encode())
                tok = (head + "." + b64u(pl) + "." + b64u(sv)).encode()
            else:
                try:
                    tok = self.JWS(pl, dict(o["header"])).serialize(self.key(o["k"]))
                    sv = unb64u(tok.split(b".")[2])
                except Exception:
                    sv = b"\0"
            half = len(sv) // 2
            odd = not sv or sv[0] == 0 or (a in ES and (sv[half] == 0 or len(sv) != 2 * COORD[ALGCRV[a]])) or (a in RS and len(sv) % 256)
            if a == "ES512":        # its integers always start with seven zero bits
                odd = len(sv) != 132 or sv[:2] in (b"\0\0", b"\1\0") or sv[1] < 4 and sv[0] == 0 or sv[66] == 0 and sv[67] < 4
            if not odd and i:
                continue
            self.given(o["k"], o["by"], a, o["header"], pl, tok if sv != b"\0" else None)
            if sv == b"\0":
                return
            self.verify(dict(k=o["v"], api="jws", pin=None), tok)
            for shorter in (sv[1:] if sv[0] == 0 else b"", sv[:half] + sv[half + 1:] if a in ES and sv[half] == 0 else b""):
                if shorter:         # the same numbers in fewer octets
                    self.verify(dict(k=o["v"], api="jws", pin=None), tok.rpartition(b".")[0] + b"." + b64u(shorter).encode())
            found += bool(odd)
            if found == o.get("max", 3):
                break

    def given(self, k, by, a, header, pl, tok):
        e = dict(e="sign", k=k, jwt=False, hd=read_header(header), h="", p="", s="", by=by, ok=tok is not None, err="", jose=True, three=False,
                 hsame=False, psame=False, ext=False, gray=[], pay="object", exp=[], chk=False)
        if tok is not None:
            f, h2, p2 = read_token(tok, False)
            segs = tok.split(b".")
            self.exact.add(f.get("exact"))
            e.update(h=f["h"], p=f["p"], s=f["s"], hsame=alike(h2, header), psame=p2 == pl,
                     three=len(segs) == 3 and not (set(f["gray"]) & {"headertext", "payloadtext"}) and bool(B64.match(segs[-1])),
                     ext=len(segs) == 3 and self.independent(k, a, segs))
        self.ev.append(e)

    def independent(self, name, alg, segs):
        """The verdict of an independent implementation given the public dump."""
        try:
            if ("dump", name) not in self.memo:
                d = self.key(name).dump(True) if self.p["keys"][name]["kty"] != "oct" else self.key(name).dump(False)
                self.memo["dump", name] = json.loads(json.dumps(d))
            d = self.memo["dump", name]
            return common.raw_verify(alg, d, segs[0] + b"." + segs[1], unb64u(segs[2]))
        except Exception:
            return False

    def do_dump(self, o):
        """Lengths of the coordinates in the dumps of an EC key."""
        ok = True
        try:
            for pub in (True, False):
                if not pub and "d" not in self.p["keys"][o["k"]]:
                    continue
                d = self.key(o["k"]).dump(pub)
                n = COORD[d["crv"]]
                ok = ok and all(len(unb64u(d[x])) == n for x in (("x", "y") if pub else ("x", "y", "d")))
        except Exception:
            ok = False
        self.ev.append(dict(e="dump", k=o["k"], full=ok))

    # -- verifying
    def do_verify(self, o):
        tok = unb64u(o["raw"]) if "raw" in o else self.token(o["tok"])
        if tok is None:                 # nothing was signed
            return
        self.verify(o, tok)

    def verify(self, o, tok):
        jwt = o["api"] != "jws"
        f, header, payload = read_token(tok, jwt)
        exact = f.pop("exact", None)
        if f["hd"]["alg"] in ES and exact not in self.exact:
            f["gray"].append("twin")        # or not genuine at all
        k = o.get("k")
        e = dict(e="verify", k=k, jwt=jwt, pin=esc(o.get("pin")), validate=o.get("val", True), ok=True, err="", jose=True, hsame=False,
                 psame=False, exp=o.get("exp", []), chk="exp" in o, **f)
        kw = {}
        if o.get("pin") or o.get("explicit"):
            kw["algorithm"] = o.get("pin") or None
        if not o.get("val", True) or o.get("explicit"):
            kw["validate"] = o.get("val", True)
        try:
            key = self.key(k)
            if jwt:
                r = self.JWT.decode(tok.decode("latin-1") if o["api"] == "jwts" and tok.isascii() else tok, key, **kw)
                e["psame"] = isinstance(payload, dict) and alike(dict(r.claims), full(payload))
            else:
                r = self.JWS.deserialize(tok, key, **kw)
                e["psame"] = r.payload == payload
            e["hsame"] = isinstance(header, dict) and alike(dict(r.header), full(header))
        except drvlib.Stuck:
            raise
        except Exception as exc:
            e.update(self.failed(exc))
        self.ev.append(e)

    def do_sweep(self, o):
        """Every character of a token replaced, removed or doubled."""
        tok = self.tok.get(o["tok"])
        if tok is None:
            return
        alpha = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_"
        for i in range(o.get("first", 0), len(tok), o.get("step", 1)):
            for how in o["how"]:
                if how == "flip":
                    c = alpha.find(tok[i:i + 1])
                    t = tok[:i] + (alpha[c ^ (1 << self.rng.randrange(6))].to_bytes(1, "big") if c >= 0 else b"A") + tok[i + 1:]
                elif how == "any":
                    t = tok[:i] + bytes([self.rng.choice(alpha)]) + tok[i + 1:]
                elif how == "drop":
                    t = tok[:i] + tok[i + 1:]
                elif how == "double":
                    t = tok[:i] + tok[i:i + 1] + tok[i:]
                elif how == "cut":
                    t = tok[:i]
                else:
                    t = tok[:i] + bytes([self.rng.randrange(256)]) + tok[i + 1:]
                if t != tok:
                    self.verify(o, t)

    # -- what an attacker makes of tokens
    def token(self, spec):
        if isinstance(spec, str):
            return self.tok.get(spec)
        kind, base = spec[0], spec[1]
        tok = self.tok.get(base)
        if tok is None:
            return None
        try:
            return getattr(self, "t_" + kind)(tok, *spec[2:])
        except (ValueError, IndexError, KeyError, TypeError):
            return None             # what was signed is not a token

    def segs(self, tok):
        h, p, s = tok.split(b".")
        return h, p, s, json.loads(unb64u(h)), unb64u(s)

    @staticmethod
    def join(h, p, s):
        enc = lambda x: x if isinstance(x, bytes) else b64u(json.dumps(x, ensure_ascii=False).encode()).encode()
        return b".".join([enc(h), enc(p), s])

    def t_header(self, tok):
        h, p, s, hd, _ = self.segs(tok)
        return self.join(dict(hd, vp=self.rng.randrange(9)), p, s)

    def t_payload(self, tok):
        h, p, s, hd, _ = self.segs(tok)
        raw = unb64u(p)
        try:
            raw = json.dumps(dict(json.loads(raw), vp=self.rng.randrange(9)), ensure_ascii=False).encode()
        except Exception:
            raw = raw + b"x" if self.rng.random() < .5 or not raw else raw[:-1] + bytes([raw[-1] ^ 1])
        return b".".join([h, b64u(raw).encode(), s])

    def resig(self, tok, f):
        h, p, s, hd, sv = self.segs(tok)
        return b".".join([h, p, b64u(f(sv)).encode()])

    def t_sig(self, tok):
        i = self.rng.randrange(1 << 16)
        return self.resig(tok, lambda v: v[:i % len(v)] + bytes([v[i % len(v)] ^ (1 << (i % 8))]) + v[i % len(v) + 1:])

    def t_sigfirst(self, tok):
        return self.resig(tok, lambda v: bytes([v[0] ^ 0x80]) + v[1:])

    def t_siglast(self, tok):
        return self.resig(tok, lambda v: v[:-1] + bytes([v[-1] ^ 1]))

    def t_trunc(self, tok):
        return self.resig(tok, lambda v: v[:-1])

    def t_extend(self, tok):
        return self.resig(tok, lambda v: v + self.rng.choice([b"\0", b"x", b"\0" * 16]))

    def t_empty(self, tok):
        return self.resig(tok, lambda v: b"")

    def t_zero(self, tok):
        return self.resig(tok, lambda v: b"\0" * len(v))

    def t_half(self, tok):
        return self.resig(tok, lambda v: v[:len(v) // 2])

    def t_twice(self, tok):
        return self.resig(tok, lambda v: v + v)

    def t_gap(self, tok):
        """A zero octet before the second half: the halves read as numbers stay what they were."""
        return self.resig(tok, lambda v: v[:len(v) // 2] + b"\0" + v[len(v) // 2:])

    def t_widened(self, tok):
        """Zero octets before both halves."""
        z = b"\0" * self.rng.choice([1, 2, 16])
        return self.resig(tok, lambda v: z + v[:len(v) // 2] + z + v[len(v) // 2:])

    def t_fore(self, tok):
        return self.resig(tok, lambda v: self.rng.choice([b"\0", b"\0\0"]) + v)

    def t_der(self, tok):
        from cryptography.hazmat.primitives.asymmetric.utils import encode_dss_signature
        return self.resig(tok, lambda v: encode_dss_signature(int.from_bytes(v[:len(v) // 2], "big"), int.from_bytes(v[len(v) // 2:], "big")))

    def t_twin(self, tok):
        h, p, s, hd, sv = self.segs(tok)
        n = len(sv) // 2
        o = ORDER[ALGCRV[hd["alg"]]]
        return self.resig(tok, lambda v: v[:n] + (o - int.from_bytes(v[n:], "big")).to_bytes(n, "big"))

    def t_respaced(self, tok):
        h, p, s, hd, _ = self.segs(tok)
        raw = unb64u(h)
        return b".".join([b64u(raw.replace(b"{", b"{ ", 1) if self.rng.random() < .5 else raw + b" ").encode(), p, s])

    def recode(self, x):
        """Another text that lenient decoders read as the same octets."""
        if len(x) % 4 in (2, 3) and self.rng.random() < .5:
            a = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_"
            return x[:-1] + a[a.index(x[-1]) ^ 1:][:1]
        if self.rng.random() < .3:
            return x + b"=" * (-len(x) % 4 or 1)
        i = self.rng.randrange(len(x) + 1)
        return x[:i] + self.rng.choice([b"~", b"!", b" ", b"\n", b"$"]) + x[i:]

    def t_recoded(self, tok):
        h, p, s, hd, _ = self.segs(tok)
        return b".".join([h, self.recode(p), s])

    def t_rehead(self, tok):
        h, p, s, hd, _ = self.segs(tok)
        return b".".join([self.recode(h), p, s])

    def t_othersig(self, tok, other):
        h, p, s, hd, _ = self.segs(tok)
        o = self.tok.get(other)
        return None if o is None else b".".join([h, p, o.split(b".")[2]])

    def t_resigned(self, tok, alg, keyname):
        """The signature of the same text with another algorithm or key."""
        h, p, s, hd, _ = self.segs(tok)
        return b".".join([h, p, b64u(common.raw_sign(alg, self.p["keys"][keyname], h + b"." + p)).encode()])

    def t_extsigned(self, tok, keyname):
        """Likewise, by the rightful holder of that key."""
        h, p, s, hd, _ = self.segs(tok)
        t = self.t_resigned(tok, hd["alg"], keyname)
        f, _, _ = read_token(t, False)
        self.exact.add(f["exact"])
        self.ev.append(dict(e="sign", k=keyname, jwt=False, hd=f["hd"], h=f["h"], p=f["p"], s=f["s"], by="ext", ok=True, err="", jose=True,
                            three=True, hsame=True, psame=True, ext=True, gray=[], pay="object", exp=[], chk=False))
        return t

    def t_relabel(self, tok, alg):
        h, p, s, hd, _ = self.segs(tok)
        return self.join(dict(hd, alg=alg), p, s)

    def t_tonone(self, tok):
        h, p, s, hd, _ = self.segs(tok)
        return self.join(dict(hd, alg="none"), p, b"")

    def t_tononesig(self, tok):
        return self.t_relabel(tok, "none")

    def t_upper(self, tok):
        h, p, s, hd, _ = self.segs(tok)
        return self.join(dict(hd, alg=hd["alg"].swapcase()), p, s)

    def t_hmac(self, tok, keyname, alg, how):
        h, p, s, hd, _ = self.segs(tok)
        m = self.join(dict(hd, alg=alg), p, b"")[:-1]
        return m + b"." + b64u(hmac.new(pubbytes(self.p["keys"][keyname], how), m, "sha" + alg[2:]).digest()).encode()

    def t_splicehdr(self, tok, other):
        h, p, s, hd, _ = self.segs(tok)
        o = self.tok.get(other)
        return None if o is None else b".".join([o.split(b".")[0], p, s])

    def t_splicepay(self, tok, other):
        h, p, s, hd, _ = self.segs(tok)
        o = self.tok.get(other)
        return None if o is None else b".".join([h, o.split(b".")[1], s])

    def t_onesegment(self, tok):
        return tok.replace(b".", b"")

    def t_twosegments(self, tok):
        return tok.rpartition(b".")[0]

    def t_foursegments(self, tok):
        return tok + self.rng.choice([b".", b"." + tok.split(b".")[2], b".x"])

    # -- symbolic histories of the design
    def do_history(self, o):
        m = self.p["map"]
        alg = m["alg"]
        hmemo, pmemo, smemo = {}, {}, {}
        for i, x in enumerate(o["h"]):
            a, kid = alg.get(x["a"], x["a"]), m["kid"].get(x["kid"], "")
            hname = x["a"] + "/" + x["kid"]
            header = dict(full(dict(alg=a, kid=kid or None)), **m["extra"])
            if x["op"] == "sign":
                self.do_sign(dict(by=x["by"], k=x["k"], api=m["api"], header=header, claims=m["claims"].get(x["p"]),
                                  payload=m["payload"].get(x["p"]), out="h%d" % i, sep=m["sep"]))
                t = self.tok.get("h%d" % i)
                if t is not None and t.count(b".") == 2:
                    h, p, s = t.split(b".")
                    if hname in hmemo:
                        hmemo[hname] = self.rng.choice([h, hmemo[hname]])
                    else:
                        hmemo[hname] = h
                    pmemo[x["p"]] = p
                    smemo["%s:%s:%s:%s" % (x["a"], m["mat"][x["k"]], hname, x["p"])] = (h, p, s)
            else:
                h = hmemo.get(hname) or b64u(json.dumps(header, ensure_ascii=False).encode()).encode()
                p = pmemo.get(x["p"]) or (b64u(json.dumps(m["claims"][x["p"]], ensure_ascii=False).encode()) if m["api"] != "jws"
                                          else m["payload"][x["p"]]).encode()
                if x["s"] in smemo:
                    hh, pp, s = smemo[x["s"]]
                    if x["s"].split(":")[2:] == [hname, x["p"]]:
                        h, p = hh, pp
                elif x["s"] in ("", "junk"):
                    s = b"" if not x["s"] else b64u(self.rng.randbytes(self.rng.choice([1, 32, 64, 256]))).encode()
                else:
                    mm = x["s"].split(":")[1]
                    jwk = next(self.p["keys"][k] for k, v in m["mat"].items() if v == mm)
                    s = b64u(hmac.new(pubbytes(jwk, self.rng.choice(["pem", "jwk", "n", "der"])), h + b"." + p,
                                      "sha" + alg["HS256"][2:]).digest()).encode()
                self.verify(dict(k=x["k"], api=m["api"] if m["api"] != "jwts" else self.rng.choice(["jwtb", "jwts"]),
                                 pin=alg.get(x["pin"], x["pin"]), val=x["val"]), b".".join([h, p, s]))


@functools.lru_cache(None)
def _pub(text, how):
    from cryptography.hazmat.primitives import serialization as ser
    jwk = json.loads(text)
    if how == "jwk":
        return json.dumps(jwk).encode()
    if how == "n":
        return unb64u(jwk.get("n") or jwk.get("x"))
    k = common.rsa_public(jwk) if jwk["kty"] == "RSA" else common.ec_public(jwk)
    if how == "pem":
        return k.public_bytes(ser.Encoding.PEM, ser.PublicFormat.SubjectPublicKeyInfo)
    if how == "pemstrip":
        return k.public_bytes(ser.Encoding.PEM, ser.PublicFormat.SubjectPublicKeyInfo).strip()
    return k.public_bytes(ser.Encoding.DER, ser.PublicFormat.SubjectPublicKeyInfo)


def pubbytes(jwk, how):
    if jwk is None or jwk["kty"] == "oct":
        return b"secret"
    return _pub(json.dumps(public({k: v for k, v in jwk.items() if k in ("kty", "n", "e", "crv", "x", "y")}), sort_keys=True), how)


# ------------------------------------------------------------------ making plans

def candidates(kty, crv=""):
    if kty == "oct":
        return ["oct32", "oct33", "oct48", "oct64", "oct100", "octz", "octn", "oct200"]
    if kty == "RSA":
        return ["rsa2048"] * 4 + ["rsa2048e3", "rsanocrt", "rsa2048b", "rsa3072", "rsa4096"]
    n = "ec" + crv[2:]
    return [n, n, n + "x", n + "y", n + "d"]


def kty_of(a):
    return "oct" if a in HS + ["none"] else "RSA" if a in RS else "EC"


def other_alg(a):
    return {"HS256": "HS384", "HS384": "HS512", "HS512": "HS256", "RS256": "PS256", "RS384": "RS256", "RS512": "PS512", "PS256": "RS256",
            "PS384": "PS512", "PS512": "RS512", "ES256": "ES384", "ES384": "ES512", "ES512": "ES256"}.get(a, "HS256")


def foreign_alg(a):
    return "RS256" if a in HS else "HS256"


WORDS = ["a", "sub-1", "b.c", "dé", "日本", "\U0001f600", "x y", "%00", "<&>'\"\\", "\u2028", "0"]


def value(rng, depth=2):
    r = rng.random()
    if depth and r < .15:
        return [value(rng, depth - 1) for _ in range(rng.randrange(4))]
    if depth and r < .3:
        return {rng.choice(WORDS) + str(i): value(rng, depth - 1) for i in range(rng.randrange(4))}
    return rng.choice([rng.choice(WORDS), rng.randrange(-9, 1 << 70), 0, 1, -1, True, False, 1.5, -0.0, 1e300, "", [], {},
                       rng.random(), rng.random() * 10 ** rng.randrange(-20, 20), 0.1, rng.randrange(1 << 53), (1 << 53) + 1, " x ", "1", "null",
                       [rng.choice(WORDS) for _ in range(rng.randrange(2, 6))], ["b", "a", "b"], [2, 1, 2],
                       rng.choice(WORDS) * rng.randrange(1, 30)])


def payload(rng, kind):
    if kind == "plain":
        return b"payload-" + str(rng.randrange(10 ** 9)).encode()
    if kind == "odd":
        return rng.randbytes(rng.randrange(1, 70))
    if kind == "large":
        return rng.randbytes(rng.choice([rng.randrange(3000, 60000), 65535, 65536, 65537, rng.randrange(66000, 140000)]))
    if kind == "dots":
        return rng.choice([b".", b"...", b"a.b.c", b"..=", b"==="])
    if kind == "unicode":
        return "".join(rng.choice(WORDS) for _ in range(9)).encode()
    return b""


def claims(rng, kind):
    if kind == "plain":
        return {"sub": "u%d" % rng.randrange(10 ** 9), "iss": "https://issuer.example.com", "aud": rng.choice(["c", ["c", "d"], ["d", "c"], ["d", "c", "d"]]), "amr": rng.choice([["pwd", "otp"], "x", 0.1])}
    if kind == "odd":
        return dict({rng.choice(WORDS) + str(i): value(rng) for i in range(rng.randrange(1, 8))}, z=value(rng), exp=2_600_000_000)
    if kind == "large":
        return {"c%d" % i: "v" * rng.randrange(200) for i in range(rng.choice([rng.randrange(50, 200), 900]))}
    if kind == "dots":
        return {".": "...", "a.b": "=.="}
    if kind == "unicode":
        return {w + "k": w for w in WORDS}
    return {"a": rng.choice([0, False, "", [], {}])}


def extra(rng, kind):
    return {"none": {}, "typ": {"typ": rng.choice(["JWT", "at+jwt", "é"])}, "cty": {"cty": rng.choice(["JWT", "x"])},
            "unicode": {"né": "日本\U0001f600", "": "x"}, "nested": {"jwk": {"kty": "oct", "k": "AAAA"}, "x5c": ["a", "b"], "n": [[1], {}]},
            "crit": {"crit": ["vpx", "cty"], "vpx": True, "cty": "a"},
            "many": {"p%d" % i: value(rng) for i in range(12)}}[kind]


PRIMES = {"P-256": 2**256 - 2**224 + 2**192 + 2**96 - 1, "P-384": 2**384 - 2**128 - 2**96 + 2**32 - 1, "P-521": 2**521 - 1}


def near_key(rng, k):
    """Another key that has most in common with this one."""
    if k["kty"] == "oct":
        b = bytearray(unb64u(k["k"]))
        how = rng.choice(["last", "last", "first", "more", "less", "bit"])
        if how == "more":
            b.append(rng.randrange(1, 256))
        elif how == "less" and b[-1] and len(b) > 1:
            b.pop()
        elif how == "bit":
            b[rng.randrange(len(b))] ^= 1 << rng.randrange(8)
        else:
            b[0 if how == "first" else -1] ^= 0xff if how == "first" else 0x11
        return {"kty": "oct", "k": b64u(bytes(b))}
    if k["kty"] == "RSA":
        return {"kty": "RSA", "n": k["n"], "e": "Aw" if k["e"] != "Aw" else "AQAB"}
    y = int.from_bytes(unb64u(k["y"]), "big")
    return {"kty": "EC", "crv": k["crv"], "x": k["x"], "y": b64u((PRIMES[k["crv"]] - y).to_bytes(COORD[k["crv"]], "big"))}


class Maker:
    def __init__(self, job):
        self.job = job
        self.seed = job["seed"]
        self.defaults = job.get("dims") or {}

    def case(self, c, copy=0):
        c = dict(c, d=c["d"] or {})
        v = dict(self.defaults)
        v.update(c["d"])
        name = "%s-%s%s" % (c["f"], ",".join("%s=%s" % x for x in sorted(c["d"].items())) or "default", "#%d" % copy if copy else "")
        rng = random.Random("%s|%s" % (self.seed, name))
        p = dict(id=name, seed=self.seed, keys={}, ops=[])
        getattr(self, "case_" + c["f"])(p, v, c["x"], rng)
        return p

    def keyset(self, v, rng):
        """Concrete keys for the roles of a case."""
        a = v["alg"]
        kty, crv = kty_of(a), ALGCRV.get(a, "")
        m = rng.choice(candidates(kty, crv))
        same = {"oct": ["oct32b", "oct48", "oct64"], "RSA": ["rsa2048", "rsa2048b"], "EC": ["ec%sb" % crv[2:]]}[kty]
        o = rng.choice([x for x in same if CORPUS[x].get("n", CORPUS[x].get("k", x)) != CORPUS[m].get("n", CORPUS[m].get("k", m))])
        ot = rng.choice(candidates("EC", "P-256") if kty == "RSA" else ["rsa2048", "rsa2048b"])
        oc = rng.choice(candidates("EC", ALGCRV[other_alg(a)])) if a in ES else m
        return {"m": CORPUS[m], "other": CORPUS[o], "othertype": CORPUS[ot], "othercurve": CORPUS[oc], "near": near_key(rng, CORPUS[m])}

    def meta(self, v, kid, rng):
        a = v["alg"]
        d = {}
        x = {"same": a, "other": other_alg(a), "foreign": foreign_alg(a)}.get(v["keyalg"])
        if x:
            d["alg"] = x
        if v["kids"] in ("both", "keyonly"):
            d["kid"] = kid
        elif v["kids"] == "differ":
            d["kid"] = kid + "2"
        elif v["kids"] == "near":
            d["kid"] = kid.swapcase()
        if v["use"] != "absent":
            d["use"] = v["use"]
        ops = {"both": ["sign", "verify"], "verify": ["verify"], "sign": ["sign"], "encrypt": ["encrypt"], "signencrypt": ["sign", "encrypt"],
               "verifyderive": ["verify", "deriveKey"],
               "part": ["ver", "sign"], "case": ["Sign", "verify"]}.get(v["ops"])
        if ops:
            d["key_ops"] = ops
        return d

    @staticmethod
    def hdr(v, kid, rng):
        h = dict(alg=v["alg"], **extra(rng, v["extra"]))
        if v["kids"] in ("both", "headeronly", "differ", "near"):
            h["kid"] = kid
        items = list(h.items())
        rng.shuffle(items)
        return dict(items)

    def case_token(self, p, v, x, rng):
        a = v["alg"]
        ks = self.keyset(v, rng)
        kid = rng.choice(["kid-Ab1", "Key", "aé-Z", "0x"])
        header = self.hdr(v, kid, rng)
        jwt = v["api"] != "jws"
        by = v["by"]
        p["keys"] = {"m": dict(ks["m"], **({"kid": kid} if "kid" in header else {})), "other": ks["other"], "othertype": ks["othertype"]}
        if v["vkey"] == "nokey":
            p["keys"]["v"] = None
            p["nokey"] = rng.choice([None, "secret", 7]) if not jwt else None
        else:
            k = ks.get(v["vkey"], ks["m"])
            p["keys"]["v"] = dict(public(k) if v["vkey"] == "public" else k, **self.meta(v, kid, rng))
        p["keys"]["w"] = dict(ks["other"], **({"kid": kid} if "kid" in header else {}))
        sep = rng.choice([None, [",", ":"], [" ,", ": "]])
        base = dict(op="sign", by=by, k="m", api=v["api"], header=header, sep=sep, ascii=rng.random() < .5, plainheader=rng.random() < .5,
                    warm=rng.choice(["", "", "w"]))
        cl = claims(rng, v["payload"])
        pl = payload(rng, v["payload"])
        mine = dict(claims=cl) if jwt else dict(payload=b64u(pl))
        p["ops"].append(dict(base, out="t", **mine))
        t = v["tamper"]
        second = dict(claims=dict(cl, second=1)) if jwt else dict(payload=b64u(pl + b"2"))
        if t == "othersig":
            p["ops"].append(dict(base, out="t2", **second))
        if t in ("splicehdr", "splicepay"):
            p["ops"].append(dict(base, out="t2", **dict(second, header=dict(header, second=1) if t == "splicehdr" else header)))
        tok = {"kept": "t", "othersig": ["othersig", "t", "t2"], "otheralg": ["resigned", "t", other_alg(a), "m"],
               "relabel": ["relabel", "t", other_alg(a)], "splicehdr": ["splicehdr", "t", "t2"], "splicepay": ["splicepay", "t", "t2"],
               "hmacpub": ["hmac", "t", "m", "HS256", rng.choice(["pem", "pemstrip", "der"])],
               "hmacjwk": ["hmac", "t", "m", "HS256", rng.choice(["jwk", "n"])],
               "otherkeysig": ["extsigned", "t", "other"],
               "othertypesig": ["resigned", "t", "ES256" if "crv" in ks["othertype"] else "RS256", "othertype"]}.get(t, [t, "t"])
        pin = {"same": a, "other": other_alg(a), "foreign": foreign_alg(a), "none": "none", "lower": a.swapcase()}.get(v["pin"])
        p["ops"].append(dict(op="verify", tok=tok, k="v", api=v["api"], pin=pin, val=v["validate"] == "yes", exp=x,
                             explicit=rng.random() < .3))

    def case_sign(self, p, v, x, rng):
        ks = self.keyset(v, rng)
        kid = rng.choice(["kid-Ab1", "Key", "aé-Z", "0x"])
        header = self.hdr(v, kid, rng)
        jwt = v["api"] != "jws"
        if v["skey"] == "nokey":
            p["keys"]["v"] = None
            p["nokey"] = rng.choice([None, "secret", 7])
        else:
            k = ks.get(v["skey"], ks["m"])
            p["keys"]["v"] = dict(public(k) if v["skey"] == "public" else k, **self.meta(v, kid, rng))
        mine = dict(claims=claims(rng, v["payload"])) if jwt else dict(payload=b64u(payload(rng, v["payload"])))
        p["ops"].append(dict(op="sign", by="psion", k="v", api=v["api"], header=header, out="t", exp=x, plainheader=rng.random() < .5, **mine))
        p["ops"].append(dict(op="verify", tok="t", k="v", api=v["api"] if not jwt else rng.choice(["jwtb", "jwts"]), pin=None))
        if p["keys"]["v"] and p["keys"]["v"]["kty"] == "EC":
            p["ops"].append(dict(op="dump", k="v"))

    def case_header(self, p, v, x, rng):
        k = dict(CORPUS[rng.choice(candidates("oct"))], kid="kid-1")
        p["keys"]["v"] = k
        odd = {"null": None, "number": 7, "list": ["HS256"], "blank": "", "zero": 0, "object": {"a": 1}, "false": False, "bool": True}
        h = {}
        alg = {"HS256": "HS256", "unknown": "HS128", "lower": "hs256", "space": "HS256 "}
        if v["alg"] != "absent":
            h["alg"] = alg[v["alg"]] if v["alg"] in alg else odd[v["alg"]]
        for n, good in (("kid", "kid-1"), ("typ", "JWT"), ("cty", "JWT")):
            if v[n] != "absent":
                h[n] = good if v[n] == "str" else odd[v[n]]
        crit = {"ok": ["vpa"], "two": ["vpa", "alg"], "missing": ["vpz"], "onemissing": ["vpa", "vpz"], "blanklist": [], "str": "vpa", "number": 3,
                "blankitem": ["vpa", ""], "numitem": ["vpa", 1], "null": None, "object": {"vpa": 1}, "falsy": ["vpa", "vpf"]}
        if v["crit"] != "absent":
            h["crit"] = crit[v["crit"]]
            h["vpa"] = rng.choice([True, "x", 1])
            h["vpf"] = rng.choice([False, "", 0])
        items = list(h.items())
        rng.shuffle(items)
        h = dict(items)
        f = v["form"]
        obj = {"empty": {}, "list": ["alg", "HS256"], "string": "HS256", "number": 7, "null": None, "true": True,
               "listofobject": [{"alg": "HS256"}]}.get(f, h)
        if f == "extra":
            obj = dict(h, **{"x" + str(i): value(rng) for i in range(4)})
        if f == "nestedvalue":
            obj = dict(h, jwk=dict(alg="none", kid=3))
        if v["api"] == "construct":
            p["ops"].append(dict(op="sign", by="psion", k="v", api="jws", header=obj, payload=b64u(b"x"), out="t", exp=x, plainheader=rng.random() < .5))
            return
        text = json.dumps(obj, ensure_ascii=rng.random() < .5)
        text = {"dup": lambda: text.replace("{", '{"alg": "none", ', 1) if "alg" in h else text.replace("{", '{"vpd": 1, "vpd": 2' + (", " if h else ""), 1),
                "spaced": lambda: " \n" + text.replace(":", " :\t") + " \r\n", "escaped": lambda: text.replace("HS256", "\\u0048S256"),
                "badjson": lambda: text[:-1], "single": lambda: text.replace('"', "'"), "trailing": lambda: text + "}",
                "deep": lambda: '{"a":' + "[" * 100000 + "]" * 100000 + "," + text[1:], "blank": lambda: ""}.get(f, lambda: text)()
        raw = text.encode()
        if f == "nonutf8":
            raw = raw[:-1] + b',"z":"\xff\xfe"}'
        if f == "escaped" and v["alg"] == "space":
            pass
        seg = b64u(raw)
        if f == "badb64":
            seg = seg[:len(seg) // 4 * 4] + "A"
        jwt = v["api"] != "jws"
        pl = {"plain": json.dumps(claims(rng, "plain")), "list": "[1]", "badjson": '{"a":', "number": "12",
              "deep": '{"a":' + "[" * 100000 + "]" * 100000 + "}"}.get(v["payload"], "x")
        ps = b64u(pl.encode()) if v["payload"] != "badb64" else rng.choice(["A", "AAAAA"])
        msg = (seg + "." + ps).encode()
        sig = common.raw_sign("HS256", k, msg)
        tok = msg + b"." + b64u(sig).encode()
        n = v["segments"]
        if n == "0":
            tok = b""
        elif n == "1":
            tok = tok.replace(b".", b"")
        elif n == "2":
            tok = rng.choice([msg, tok.partition(b".")[2]])
        elif n == "4":
            tok += b"." + rng.choice([b"", b"AAAA"])
        elif n == "5":
            tok += b".AAAA.AAAA"
        elif n == "dots":
            tok = b"...."
        if n == "3":
            p["facts"] = True
        p["ops"].append(dict(op="given", raw=b64u(tok), k="v", sig=n == "3", api=v["api"]))
        p["ops"].append(dict(op="verify", raw=b64u(tok), k="v", api=v["api"], val=v["validate"] == "yes", exp=x))

    # symbolic histories
    def history(self, i, h):
        rng = random.Random("%s|jhist|%s" % (self.seed, i))
        hs, rs, ps = rng.choice(HS), rng.choice(RS[:3]), rng.choice(RS[3:])
        es = rng.choice(ES)
        crv, crv2 = ALGCRV[es], ALGCRV[other_alg(es)]
        oc = rng.sample(["oct32", "oct48", "oct64", "oct32b", "octz", "octn"], 2)
        rc = rng.choice([["rsa2048", "rsa2048b"], ["rsa2048b", "rsa2048e3"], ["rsanocrt", "rsa2048"], ["rsa3072", "rsa2048"]])
        ec, ec3 = rng.choice(candidates("EC", crv)), rng.choice(candidates("EC", crv2))
        k1, k2 = rng.sample(["k1", "K1", "key-é", "2", "k1 "], 2)
        o1, o2, r1, r2, e1, e3 = (CORPUS[x] for x in (*oc, *rc, ec, ec3))
        keys = {"O": o1, "Ob": dict(o1, alg=hs, kid=k1, use="sig", key_ops=["sign", "verify"]), "O2": dict(o2, kid=k2), "R": r1,
                "Rp": public(r1), "Rb": dict(public(r1), alg=rs, kid=k1, use="sig", key_ops=["verify"]), "Re": dict(r1, kid=k1, use="enc"),
                "Ro": dict(r1, kid=k1, key_ops=["sign", "encrypt"]), "R2": dict(r2, kid=k1), "E": e1, "Ep": public(e1), "E3": e3}
        mats = {"O": "o1", "Ob": "o1", "O2": "o2", "R": "r1", "Rp": "r1", "Rb": "r1", "Re": "r1", "Ro": "r1", "R2": "r2", "E": "e1", "Ep": "e1",
                "E3": "e3"}
        c1 = claims(rng, "plain")
        p1 = payload(rng, rng.choice(["plain", "odd", "unicode"]))
        return dict(id="hist-%s" % i, seed=self.seed, keys=keys, ops=[dict(op="history", h=h)],
                    map=dict(alg={"HS256": hs, "RS256": rs, "PS256": ps, "ES256": es}, kid={"k1": k1, "k2": k2}, mat=mats,
                             api=rng.choice(["jws", "jwtb", "jwts"]), claims={"p1": c1, "p2": dict(c1, admin=True)},
                             payload={"p1": b64u(p1), "p2": b64u(p1 + b"!")}, sep=rng.choice([None, [",", ":"]]),
                             extra=rng.choice([{}, {"typ": "JWT"}])))

    def sweep(self, i):
        rng = random.Random("%s|sweep|%s" % (self.seed, i))
        algs = HS + RS + ES
        a = algs[i % len(algs)]
        kn = {"oct": "oct32", "RSA": "rsa2048", "EC": rng.choice(candidates("EC", ALGCRV.get(a, "P-256")))}[kty_of(a)]
        k = CORPUS[kn]
        jwt = rng.random() < .5
        api = rng.choice(["jwtb", "jwts"]) if jwt else "jws"
        how = self.job.get("how") or ["flip"]
        ops = [dict(op="sign", by=rng.choice(["psion", "psion", "ext"]), k="m", api="jwt" if jwt else "jws", header={"alg": a, "kid": "ab"},
                    out="t", claims={"sub": "u"}, payload=b64u(b"pay")),
               dict(op="verify", tok="t", k="v", api=api)]
        for x in how:
            ops.append(dict(op="sweep", tok="t", k="v", api=api, how=[x]))
        if a in ES:
            ops.append(dict(op="verify", tok=["twin", "t"], k="v", api=api))
        return dict(id="sweep-%d" % i, seed=self.seed, keys={"m": dict(k, kid="ab"), "v": dict(public(k), kid="ab")}, ops=ops)

    def many(self, i):
        """Signatures with leading zeros; every algorithm with every key of its type."""
        rng = random.Random("%s|many|%s" % (self.seed, i))
        pairs = [(a, k) for a in HS + RS + ES for k in sorted(set(candidates(kty_of(a), ALGCRV.get(a, ""))))]
        a, kn = pairs[i % len(pairs)]
        k = dict(CORPUS[kn], kid="ab")
        ops = []
        for by in ("psion", "ext"):
            ops.append(dict(op="zero", by=by, k="m", v="v", header={"alg": a, "kid": "ab"}, tries=self.job.get("tries", 300)))
        return dict(id="many-%s-%s-%d" % (a, kn, i), seed=self.seed, keys={"m": k, "v": public(k)}, ops=ops)

    def fuzz(self, i):
        """Arbitrary text with arbitrary keys."""
        rng = random.Random("%s|jfuzz|%s" % (self.seed, i))
        names = ["oct32", "octn", "rsa2048", "ec256", "ec384", "ec521"]
        kn = rng.sample(names, 2)
        keys = {"a": CORPUS[kn[0]], "b": rng.choice([public(CORPUS[kn[1]]), dict(public(CORPUS[kn[1]]), kid="k", use="sig"),
                                                     dict(CORPUS[kn[1]], alg=rng.choice(ALGS))]), "n": None}
        ops = []
        for _ in range(12):
            ops.append(dict(op="verify", raw=b64u(junk(rng, [keys["a"], keys["b"]])), k=rng.choice(["a", "b", "b", "a", "n"]),
                            api=rng.choice(["jws", "jwtb", "jwts"]), val=rng.random() < .6,
                            pin=rng.choice([None, None, None, rng.choice(ALGS), "x"])))
        return dict(id="fuzz-%s" % i, seed=self.seed, keys=keys, ops=ops)


def junk_json(rng, depth=2):
    if rng.random() < .1:
        return rng.choice(["NaN", "Infinity", "-Infinity", "1e999", "01", "nul", "{", "[" * 2000, '{"a":' * 1500, "1" * 5000, '"\\ud800"', '"\\x"', ""])
    d = {}
    for n in rng.sample(["alg", "kid", "typ", "cty", "crit", "jku", "b64", "exp", "x"], rng.randrange(5)):
        d[n] = rng.choice([rng.choice(ALGS), rng.choice(ALGS), value(rng), value(rng), None, ["alg"], ["exp", "x"]])
    if rng.random() < .5:
        d["alg"] = rng.choice(ALGS)
    if rng.random() < .08:
        return json.dumps(value(rng))
    return json.dumps(d, ensure_ascii=rng.random() < .5)


def junk(rng, keys):
    r = rng.random()
    if r < .15:
        return rng.randbytes(rng.randrange(60))
    if r < .3:
        return bytes(rng.choice(b"..AZaz09-_=+/ \n{}\"") for _ in range(rng.randrange(50)))
    h = junk_json(rng).encode("utf-8", "replace")
    p = junk_json(rng).encode("utf-8", "replace") if rng.random() < .6 else rng.randbytes(rng.randrange(20))
    if rng.random() < .15:
        i = rng.randrange(len(h) + 1)
        h = h[:i] + rng.randbytes(1) + h[i:]
    segs = [b64u(h).encode(), b64u(p).encode(), b64u(rng.randbytes(rng.choice([0, 1, 32, 48, 64, 96, 132, 256]))).encode()]
    if rng.random() < .25:
        s = rng.randrange(3)
        i = rng.randrange(len(segs[s]) + 1)
        segs[s] = segs[s][:i] + rng.choice([b"=", b"+", b"/", b" ", b"\n", b"A", b"\xff", b"=="]) + segs[s][i:]
    if rng.random() < .1:
        segs.insert(rng.randrange(4), b"")
    if rng.random() < .05:
        segs.pop()
    return b".".join(segs)


def do_given(self, o):
    """A token whose signature was made by the holder of the key, whatever its header says."""
    if not o["sig"]:
        return
    f, _, _ = read_token(unb64u(o["raw"]), False)
    self.exact.add(f.get("exact"))
    hd = dict(f["hd"], form="object", alg="HS256")
    self.ev.append(dict(e="sign", k=o["k"], jwt=False, hd=hd, h=f["h"], p=f["p"], s=f["s"], by="ext", ok=True, err="", jose=True, three=True,
                        hsame=True, psame=True, ext=True, gray=[], pay="object", exp=[], chk=False))


Run.do_given = do_given


def plans(job):
    m = Maker(job)
    for it in job["items"]:
        if job["kind"] == "cases":
            for c in range(job.get("copies", 1)):
                yield m.case(it, c)
        elif job["kind"] == "hist":
            yield m.history(*it)
        elif job["kind"] == "sweep":
            yield m.sweep(it)
        elif job["kind"] == "many":
            yield m.many(it)
        elif job["kind"] == "fuzz":
            yield m.fuzz(it)


def outcome(e):
    if e["e"] == "dump":
        return "dumped"
    return e["e"] + (" ok" if e["ok"] else " " + e["err"])


if __name__ == "__main__":
    sys.setrecursionlimit(3000)
    drvlib.main(plans, lambda p: Run(p).run(), outcome)
