"""Drives the validation of claims (properties C19, C20)."""
import json
import os
import random
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common                                  # noqa: E402
import drvlib                                  # noqa: E402
import vclock                                  # noqa: E402
from common import esc                         # noqa: E402

CORPUS = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "keys.json")))
ABSENT = {"t": "absent", "v": "", "items": [], "strs": True, "d": 0}
TIMES = ("exp", "nbf", "iat", "auth_time")


def canon(x):
    return esc(json.dumps(x, sort_keys=True))


def val(x, now):
    if x is None:
        return dict(ABSENT, t="null", v="null")
    t = {bool: "bool", int: "int", float: "float", str: "str", list: "list", dict: "obj"}[type(x)]
    return {"t": t, "v": canon(x), "items": [canon(i) for i in x] if t == "list" else [],
            "strs": t != "list" or all(isinstance(i, str) for i in x),
            "d": max(-10 ** 9, min(10 ** 9, x - now)) if t == "int" else 0}


def full(d):
    return {k: v for k, v in d.items() if v is not None}


def alike(a, b):
    try:
        return a == b and json.dumps(a, sort_keys=True) == json.dumps(b, sort_keys=True)
    except Exception:
        return False


def confusable(claim, expected):
    """Equal in Python, different in JSON (1, 1.0, true)."""
    vals = [claim] + (claim if isinstance(claim, list) else [])
    return any(v == w and canon(v) != canon(w) for v in vals for w in expected)


class Run:
    def __init__(self, p):
        from psion.jose import JsonWebKey, JsonWebToken, JsonWebTokenClaims
        from psion.jose.exceptions import JoseError
        from psion.oidc import IDToken
        self.KEY, self.JWT, self.CL, self.ID, self.ERR = JsonWebKey, JsonWebToken, JsonWebTokenClaims, IDToken, JoseError
        self.p = p
        self.jwk = CORPUS[p.get("key", "oct32")]
        self.alg = p.get("alg", "HS256")
        self._key = None
        self.made = {}
        self.ev = []
        self.shared = {}

    def key(self):
        if self._key is None:
            self._key = self.KEY(dict(self.jwk))
        return self._key

    def call(self, o, claims):
        api = o["api"]
        given = json.loads(json.dumps(claims))
        opts = self.options(o)
        if api == "claims":
            r = self.CL(given, opts) if opts is not None or o.get("explicit") else self.CL(given)
            return dict(r)
        if api == "idtoken":
            r = self.ID(given, opts) if opts is not None or o.get("explicit") else self.ID(given)
            return dict(r)
        if api == "encode":
            t = self.JWT(given, {"alg": self.alg})
            if o.get("sign"):
                t.encode(self.key())
            return dict(t.claims)
        kw = {}
        if opts is not None or o.get("explicit"):
            kw["options"] = opts
        if api == "decodeoff":
            kw["validate"] = False
        tok = self.token(claims)
        return dict(self.JWT.decode(tok if o.get("bytes") else tok.decode(), self.key(), **kw).claims)

    def token(self, claims):
        t = json.dumps(claims, ensure_ascii=False)
        if t not in self.made:
            try:
                self.made[t] = common.ext_token(self.alg, self.jwk, {"alg": self.alg}, t.encode())
            except Exception as exc:
                raise SystemExit("harness: %r" % exc)
        return self.made[t]

    def options(self, o):
        if o.get("share") is not None and o["share"] in self.shared:
            return self.shared[o["share"]]
        if o.get("opts") is None and o.get("want") is None:
            return None
        d = {}
        for x in o.get("opts") or []:
            d[x["c"]] = {k: x[k] for k in x.get("keys", ("essential", "value", "values")) if k in x}
        if o.get("want") is not None and o["api"] == "idtoken":
            d["nonce"] = o["want"]
        d = json.loads(json.dumps(d))
        if o.get("share") is not None:
            self.shared[o["share"]] = d
        return d

    def run(self):
        for o in self.p["ops"]:
            self.check(o)
        return dict(id=self.p["id"], ev=self.ev)

    def check(self, o):
        vclock.set_ms(o["now"] * 1000 + o.get("frac", 0))
        vclock.set_tz(o.get("tz"))
        cl = o["claims"]
        gray = list(o.get("gray", []))
        opts = []
        for x in o.get("opts") or []:
            opts.append({"s": x["s"], "c": esc(x["c"]), "ess": bool(x.get("essential")), "hasv": x.get("value") is not None,
                         "v": canon(x.get("value")), "hasvs": bool(x.get("values")), "vs": [canon(v) for v in x.get("values") or []]})
            exp = ([x["value"]] if "value" in x else []) + list(x.get("values") or [])
            if any(y is None for y in exp):
                gray.append("null")
            if x["c"] in cl and confusable(cl[x["c"]], exp):
                gray.append("equality")
        e = dict(api=o["api"], claims={esc(k): val(v, o["now"]) for k, v in cl.items()}, opts=opts,
                 nonce=ABSENT if o.get("want") is None else val(o["want"], o["now"]), gray=gray, ok=True, err="", jose=True, same=False,
                 without=False, exp=o.get("exp", []), chk="exp" in o, tok=o.get("tok", ""), e=o["api"])
        try:
            e["same"] = alike(self.call(o, cl), full(cl))
        except drvlib.Stuck:
            raise
        except Exception as exc:
            e.update(ok=False, err=type(exc).__name__, jose=isinstance(exc, self.ERR))
            try:
                self.call(o, {k: v for k, v in cl.items() if k not in TIMES})
                e["without"] = True
            except drvlib.Stuck:
                raise
            except Exception:
                pass
        self.ev.append(e)


# ------------------------------------------------------------------ making plans

BASES = [1_700_000_000, 951_782_400, 2_147_483_650, 1_000_000, 1_636_264_799, 1_615_705_199, 4_102_444_799, 86_399, 1_583_020_799]


class Maker:
    def __init__(self, job):
        self.job = job
        self.seed = job["seed"]
        self.defaults = job.get("dims") or {}

    def case(self, c, copy=0):
        c = dict(c, d=c["d"] or {})
        v = dict(self.defaults)
        v.update(c["d"])
        name = "%s-%s%s" % (c["f"], ",".join("%s=%s" % x for x in sorted(c["d"].items())) or "default", "#%d" % copy if copy else "")
        rng = random.Random("%s|%s" % (self.seed, name))
        now = rng.choice(BASES) + rng.choice([0, 0, 1, rng.randrange(100000)])
        o = dict(api=v["api"], now=now, frac=rng.choice([0, 0, 500]), tz=rng.choice(["UTC", "UTC", "EST5EDT,M3.2.0,M11.1.0", "IST-5:30"]), exp=c["x"],
                 explicit=rng.random() < .3, bytes=rng.random() < .5, sign=rng.random() < .2)
        cl = {"vp": rng.choice(["x", 1, True, [1], {"a": 0}])}
        getattr(self, "case_" + c["f"])(o, cl, v, rng)
        items = list(cl.items())
        rng.shuffle(items)
        o["claims"] = dict(items)
        return dict(id=name, seed=self.seed, ops=[o])

    @staticmethod
    def time(x, now, rng):
        return {"p1": now + 1, "zero0": now, "m1": now - 1, "p3600": now + 3600, "m3600": now - 3600, "pfar": now + 10 ** 8, "mfar": now - 10 ** 8,
                "epoch": 0, "neg": -rng.randrange(1, 10 ** 6), "huge": rng.choice([10 ** 12, 10 ** 30, 253402300800, 2 ** 63]), "true": True, "false": False,
                "float": now + rng.choice([3600.5, 1e6]), "floatpast": now - rng.choice([3600.5, 0.5]), "str": rng.choice([str(now + 60), "2099-01-01T00:00:00Z", "x"]),
                "blank": "", "list": [now + 60], "obj": {"t": now + 60}, "null": None}[x]

    def case_time(self, o, cl, v, rng):
        o["frac"] = int(v["frac"])
        o["tz"] = {"EST5EDT": "EST5EDT,M3.2.0,M11.1.0"}.get(v["tz"], v["tz"])
        for n in ("exp", "nbf", "iat", "auth_time"):
            if v[n] != "absent":
                cl[n] = self.time(v[n], o["now"], rng)
        if v["opts"] == "empty":
            o["opts"] = []
        elif v["opts"] == "ess":
            o["opts"] = [dict(s="o1", c="vp", essential=True)]

    @staticmethod
    def json(x, rng):
        return {"str": rng.choice(["abc", "https://i.example", "é", "0", "null"]), "blank": "", "int": rng.choice([1, 7, -1, 10 ** 20]), "zero": 0, "false": False, "true": True, "float": 1.5,
                "list": [1], "liststr": rng.choice([["a"], ["a", "b"], [""]]), "emptylist": [], "listmixed": rng.choice([["a", 1], [1, "a"], ["a", ["b"]], ["a", False], ["a", 0], ["a", {}]]),
                "listnull": ["a", None], "obj": {"a": "b"}, "emptyobj": {}, "null": None}[x]

    def case_types(self, o, cl, v, rng):
        for n in ("iss", "sub", "jti", "aud", "nonce"):
            if v[n] != "absent":
                cl[n] = self.json(v[n], rng)
        if v["nonce"] == "str":
            cl["nonce"] = "n-0S6_WzA2Mj"
        if v["exp"] != "absent":
            cl["exp"] = self.time(v["exp"], o["now"], rng)
        if v["want"] != "absent":
            o["want"] = {"same": "n-0S6_WzA2Mj", "other": "n-1", "case": "N-0s6_wZa2mJ", "longer": "n-0S6_WzA2Mj0"}[v["want"]]

    def slot(self, n, x, rng):
        """(claim value or ... (absent), option)"""
        A = ...
        s = rng.choice(["x", "https://a", "é1", "v w"])
        table = {
            "ess-there": (rng.choice([s, 5, [1], {"a": 1}, True]), dict(essential=True)), "ess-absent": (A, dict(essential=True)), "ess-false": (False, dict(essential=True)),
            "ess-zero": (0, dict(essential=True)), "ess-blank": ("", dict(essential=True)), "ess-emptylist": ([], dict(essential=True)),
            "val-eq": (s, dict(value=s)), "val-ne": (s, dict(value="other")), "val-absent": (A, dict(value=s)),
            "val-eqfalse": (False, dict(value=False)), "val-nefalse": (rng.choice([True, s]), dict(value=False)), "val-eqzero": (0, dict(value=0)),
            "val-nezero": (rng.choice([1, s]), dict(value=0)), "val-eqblank": ("", dict(value="")), "val-neblank": (s, dict(value="")),
            "val-prefix": (rng.choice([s + "1", s[:-1]]), dict(value=s)), "val-case": ("ABc", dict(value="abC")), "val-listeq": (["a", "b"], dict(value=["a", "b"])),
            "val-listne": (["a", "b"], dict(value=rng.choice([["a"], ["b", "a"], ["a", "b", "c"]]))), "val-inlist": ([s, "b"], dict(value=s)), "val-null": (None, dict(value=s)),
            "vals-in": (s, dict(values=rng.choice([["q", s], [s, "q"], ["q", s, "r"]]))), "vals-out": (s, dict(values=["q", "r"])), "vals-absent": (A, dict(values=[s, "q"])),
            "vals-share": (rng.choice([["z", s], [s], [s, "q"]]), dict(values=["q", s])), "vals-disjoint": (["z", "y"], dict(values=["q", s])),
            "vals-emptyclaim": (rng.choice([[], ""]), dict(values=[s])), "vals-listmember": (["z"], dict(values=["q", ["z"]])),
            "vals-falsein": (False, dict(values=["q", False])), "vals-falseout": (False, dict(values=["q", True])), "vals-prefix": (s + "1", dict(values=[s, s[:-1] or "k"])),
            "vals-one": (s, dict(values=[s])), "vals-null": (None, dict(values=[s])), "essval-eq": (s, dict(essential=True, value=s)),
            "essval-ne": (s, dict(essential=True, value="other")), "essval-absent": (A, dict(essential=True, value=s)),
            "essvals-share": ([s, "z"], dict(essential=True, values=["q", s])), "essvals-out": (s, dict(essential=True, values=["q"])),
            "valvals-eqout": (s, dict(value=s, values=["q", "r"])), "valvals-eqin": (s, dict(value=s, values=["q", s])), "valvals-nein": (s, dict(value="q", values=["q", s])),
            "noness-absent": (A, dict(essential=False)),
            # a number is not its text, one value is not a list of it, an object is compared in full
            "val-numtext": (rng.choice([(5, "5"), (-1, "-1"), (2.5, "2.5"), (True, "True"), (True, "true")]) + ("value",)),
            "val-textnum": (rng.choice([("5", 5), ("0", 0), ("2.5", 2.5), ("false", False), ("None", False)]) + ("value",)),
            "val-wrapped": (s, dict(value=[s])), "val-listtext": (["a", "b"], dict(value=rng.choice(["a b", "a,b", "['a', 'b']", '["a", "b"]']))),
            "val-objeq": ({"a": 1, "b": ["x"]}, dict(value={"b": ["x"], "a": 1})),
            "val-objne": ({"a": 1, "b": ["x"]}, dict(value=rng.choice([{"a": 1}, {"a": 1, "b": ["y"]}, {"a": "1", "b": ["x"]}]))),
            "vals-numtext": (rng.choice([7, [7], [8, 7]]), dict(values=["7", "q"])), "vals-textnum": (rng.choice(["7", ["7"]]), dict(values=[7, 8])),
            "vals-listcase": (["Ab"], dict(values=["aB", "ab"])), "vals-numin": (rng.choice([7, [7, 9]]), dict(values=["7", 7])),
            "vals-objin": ({"a": 1}, dict(values=["a", {"a": 1}])), "vals-inner": (rng.choice(["b c", "bcd", [["b"]], {"b": "b"}]), dict(values=["b", "c"])),
            "val-trim": (rng.choice([s + " ", " " + s, s + "\n"]), dict(value=s)), "vals-trim": (s, dict(values=[s + " ", "\t" + s])),
            "val-numeq": (rng.choice([5, -3, 2.5, 10 ** 12]), None), "val-nearnum": (10 ** 15 + 1, dict(value=10 ** 15))}
        for k in ("val-numtext", "val-textnum"):
            table[k] = (table[k][0], dict(value=table[k][1]))
        table["val-numeq"] = (table["val-numeq"][0], dict(value=table["val-numeq"][0]))
        return table[x]

    def case_opts(self, o, cl, v, rng):
        if v["exp"] != "absent":
            cl["exp"] = self.time(v["exp"], o["now"], rng)
        opts = []
        used = set()
        for n in ("o1", "o2", "o3"):
            if v[n] == "none":
                continue
            value, opt = self.slot(n, v[n], rng)
            exps = ([opt["value"]] if "value" in opt else []) + opt.get("values", [])
            pool = [n, "claim-" + n]
            if v["names"] == "odd":
                pool = ["é" + n, "https://c/" + n, n + " ", n.upper(), "a.b." + n]
            elif v["names"] == "registered":
                if isinstance(value, str) or value is ...:
                    pool = ["iss", "sub", "jti", "aud", "azp"]
                elif isinstance(value, list) and all(isinstance(i, str) for i in value):
                    pool = ["aud", "amr", "scope"]
                else:
                    pool = ["acr", "email_verified", "azp", "amr"]
            name = rng.choice([x for x in pool if x not in used] or [n])
            used.add(name)
            if value is not ...:
                cl[name] = value
            opts.append(dict(opt, s=n, c=name))
        if v["order"] == "reversed":
            opts.reverse()
        elif v["order"] == "rotated":
            opts = opts[1:] + opts[:1]
        o["opts"] = opts

    def history(self, i, h):
        rng = random.Random("%s|chist|%s" % (self.seed, i))
        base = rng.choice(BASES)
        unit = rng.choice([1, 1, 1, 2, 60, 3600])
        words = rng.sample(["x", "y", "é", "x ", "X", "https://a"], 2)
        zero = rng.choice([0, False, ""])
        m = {"x": words[0], "y": words[1], "z": "zz", "0": zero}
        toks = []
        now = base
        ops = []
        frac = rng.choice([0, 0, 1, 999])
        for x in h:
            if x["op"] == "issue":
                k = x["k"]
                cl = {"vp": "t%d" % len(toks)}
                for n in ("exp", "nbf", "iat"):
                    if k[n] != -99:
                        cl[n] = base + k[n] * unit
                if k["c"] != "absent":
                    cl["c"] = m[k["c"]]
                if k["g"] != "absent":
                    cl["g"] = [m[y] for y in k["g"]]
                toks.append(cl)
            elif x["op"] == "tick":
                now += unit
            else:
                j = x["i"] - 1
                opts = []
                for q in x["o"]:
                    d = dict(s=q["s"], c=q["c"])
                    if q["ess"]:
                        d["essential"] = True
                    if q["hasv"]:
                        d["value"] = m[q["v"]]
                    if q["hasvs"]:
                        d["values"] = [m[y] for y in q["vs"]]
                    opts.append(d)
                api = rng.choice(["decode", "decode", "claims", "idtoken"])
                ops.append(dict(api=api, now=now, frac=frac, tz=x["z"], claims=toks[j], tok="t%d" % j, opts=opts if opts or rng.random() < .5 else None,
                                share=json.dumps(opts) if opts else None))
        return dict(id="hist-%s" % i, seed=self.seed, ops=ops, **rng.choice([dict(alg="HS256", key="oct32"), dict(alg="ES256", key="ec256")]))

    def fuzz(self, i):
        """Arbitrary claims and options."""
        rng = random.Random("%s|cfuzz|%s" % (self.seed, i))
        ops = []
        for _ in range(10):
            now = rng.choice(BASES) + rng.randrange(10)
            names = rng.sample(["iss", "sub", "aud", "jti", "exp", "nbf", "iat", "auth_time", "nonce", "a", "b", "c", "é", ""], rng.randrange(1, 9))
            cl = {n: self.any(rng, now, n) for n in names}
            opts = []
            for n in rng.sample(["iss", "aud", "sub", "a", "b", "c", "exp", "é"], rng.randrange(4)):
                d = dict(s="o-" + n, c=n)
                if rng.random() < .4:
                    d["essential"] = rng.random() < .7
                if rng.random() < .5:
                    d["value"] = cl[n] if n in cl and rng.random() < .6 else self.any(rng, now, n)
                if rng.random() < .5:
                    d["values"] = [self.any(rng, now, n) for _ in range(rng.randrange(3))] + ([cl[n]] if n in cl and rng.random() < .5 else [])
                    if isinstance(cl.get(n), list) and cl[n] and rng.random() < .4:
                        d["values"].append(rng.choice(cl[n]))
                opts.append(d)
            o = dict(api=rng.choice(["claims", "idtoken", "decode", "decode", "decodeoff", "encode"]), now=now, frac=rng.randrange(1000),
                     tz=rng.choice(["UTC", "EST5EDT,M3.2.0,M11.1.0", "IST-5:30", "LINT-14", "BIT12"]), claims=cl, opts=opts if opts else rng.choice([None, []]))
            if o["api"] == "encode":
                o["opts"] = None
            if not full(cl):
                o["gray"] = ["empty"]
            ops.append(o)
        for _ in range(2):          # many options, of which at most one is not met
            n = rng.choice([9, 17, 33, 65, 130])
            now = rng.choice(BASES)
            cl = {"c%d" % j: rng.choice(["a", "b", 1, ["a", "b"], {"a": 1}, "x" * 300]) for j in range(n)}
            opts = []
            for c in rng.sample(sorted(cl), n):
                d = dict(s="o-" + c, c=c)
                kind = rng.randrange(4)
                if kind == 0:
                    d["essential"] = True
                elif kind == 1:
                    d["value"] = cl[c]
                elif kind == 2:
                    d["values"] = ["%d" % x for x in range(rng.choice([1, 3, 40]))]
                    d["values"].insert(rng.randrange(len(d["values"]) + 1), cl[c] if not isinstance(cl[c], list) else rng.choice(cl[c]))
                else:
                    d["essential"], d["value"] = True, cl[c]
                opts.append(d)
            j = rng.randrange(n)
            if rng.random() < .7:
                c = opts[j]["c"]
                if opts[j].get("essential"):
                    del cl[c]
                else:
                    cl[c] = rng.choice(["z", 2, ["z"], {"a": 2}])
            ops.append(dict(api=rng.choice(["claims", "idtoken", "decode"]), now=now, frac=0, tz="UTC", claims=cl, opts=opts))
        return dict(id="fuzz-%s" % i, seed=self.seed, ops=ops)

    def any(self, rng, now, n):
        if n in ("exp", "nbf", "iat") and rng.random() < .8:
            good = {"exp": 1, "nbf": -1, "iat": -1}[n]
            return now + good * rng.choice([0, 1, 2, 50, 10 ** 6]) * (1 if rng.random() < .8 else -1)
        if n in ("iss", "sub", "jti") and rng.random() < .8:
            return rng.choice(["a", "", "https://i", "é"])
        if n == "aud" and rng.random() < .8:
            return rng.choice(["a", ["a"], ["a", "b"], []])
        return rng.choice(["a", "b", "", 0, 1, True, False, 1.5, -3, ["a"], ["b", 1], [], {}, {"a": 1}, None, "é", 10 ** 25, [["a"]]])


def plans(job):
    m = Maker(job)
    for it in job["items"]:
        if job["kind"] == "cases":
            for c in range(job.get("copies", 1)):
                yield m.case(it, c)
        elif job["kind"] == "hist":
            yield m.history(*it)
        elif job["kind"] == "fuzz":
            yield m.fuzz(it)


def outcome(e):
    return e["api"] + (" accepted" if e["ok"] else " " + e["err"])


if __name__ == "__main__":
    drvlib.main(plans, lambda p: Run(p).run(), outcome)
