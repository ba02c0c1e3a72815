"""Streams and design-model runs for keys and key sets (C21, C22)."""
import lib
from engine import Stream, sample

INV = ("Sound", "SameKey")


def consts(**k):
    c = dict(Kty="RSA", StartPriv=True, MaxLen=4, Bug="", Lean=False)
    c.update(k)
    return c


def sets(work, name, keys, ids, kinds, bug=""):
    return lib.tlc("JwkSets", lib.cfg_text(constants=dict(MaxKeys=keys, Ids=set(ids), Kinds=set(kinds), Bug=bug),
                                           invariants=("Sound",) + (() if bug else ("Report",))), work, "sets-" + name, mem="4g")


def model(prop, tier, work):
    out = []
    if prop == "C21":
        for kty in ("RSA", "oct") if tier != "thorough" else ("RSA", "EC", "oct"):
            c = consts(Kty=kty, MaxLen=6 if tier != "thorough" else 8)
            r = lib.tlc_must("Jwk", lib.cfg_text(constants=c, invariants=INV, properties=("NeverBack",)), work, "model" + kty, workers=lib.CORES, mem="10g",
                             c2=tier == "thorough", timeout=3000)
            out.append(("every chain of up to %d conversions of a private %s key" % (c["MaxLen"], kty), r.distinct, r.generated))
        for b in ("publicdump", "leak", "dropmeta", "export", "anytype", "parsepriv"):
            r = lib.tlc("Jwk", lib.cfg_text(constants=consts(Bug=b, StartPriv=b != "publicdump"), invariants=INV), work, "bug" + b)
            if not r.violated:
                raise lib.Broken("the design mutation %s is not rejected: %s" % (b, r.out[-800:]))
            out.append(("design mutation %s: rejected by %s" % (b, r.violated[0]), r.distinct, r.generated))
    else:
        for b in ("noid", "adjacent", "last"):
            r = sets(work, b, 3, ["", "a", "b"], ["ec"], b)
            if not r.violated:
                raise lib.Broken("the design mutation %s is not rejected: %s" % (b, r.out[-800:]))
            out.append(("design mutation %s: rejected by %s" % (b, r.violated[0]), r.distinct, r.generated))
    return out


def chains(work, kty, priv, length, lean):
    r = lib.tlc_must("Jwk", lib.cfg_text(constants=consts(Kty=kty, StartPriv=priv, MaxLen=length, Lean=lean), invariants=INV + ("Report",)), work,
                     "chains-%s%d%d%d" % (kty, priv, length, lean), mem="4g")
    return list(r.lines("PLAN"))


def streams(prop, tier, seed, work):
    q = tier != "thorough"
    D, T = "drv_jwk.py", "JwkTrace"
    out = []
    if prop == "C21":
        for kty, n, copies in (("RSA", 200, 1), ("EC", 700, 1), ("oct", 500, 1)):
            for priv in ((True,) if kty == "oct" else (True, False)):
                cs = sample(list(enumerate(chains(work, kty, priv, 5, False))), n if q else None, seed)
                out.append(Stream("chains of 5 conversions, %s %s" % ("private" if priv else "public", kty), D, T, cs, kind="chains", copies=copies if q else 20))
                cs = sample(list(enumerate(chains(work, kty, priv, 7 if not q else 6, True))), n // 2 if q else 4000, seed)
                out.append(Stream("longer chains, %s %s" % ("private" if priv else "public", kty), D, T, cs, kind="chains", copies=copies if q else 4))
        out.append(Stream("generated keys", D, T, list(range(48 if q else 1200)), kind="generate"))
    else:
        kinds = ["ec", "ecpub", "oct"]
        r = sets(work, "two", 2, ["", "a", "b", "A", "c"], kinds + ["rsapub", "rsa"])
        cs = list(r.lines("SET"))
        out.append(Stream("sets of up to two keys of every kind", D, T, list(enumerate(cs)), kind="sets"))
        r = sets(work, "three", 3, ["", "a", "b", "A"], kinds)
        cs = list(r.lines("SET"))
        out.append(Stream("sets of three keys", D, T, sample(list(enumerate(cs)), 900 if q else None, seed), kind="sets"))
        r = sets(work, "many", 5 if not q else 4, ["", "a", "b", "A", "c"], ["ec"])
        cs = list(r.lines("SET"))
        good = [c for c in cs if c["ok"] and len(c["ids"]) > 3]
        rest = [c for c in cs if not c["ok"]]
        pick = sample(good, 200 if q else None, seed) + sample(rest, 300 if q else None, seed + 1)
        mixed = []
        for i, c in enumerate(pick):        # kinds at random: the ids are what matters here
            rng = lib.random.Random("%s|kinds|%d" % (seed, i))
            mixed.append((i, dict(c, kinds=[rng.choice(kinds + ["rsapub"]) for _ in c["ids"]])))
        out.append(Stream("larger sets", D, T, mixed, kind="sets"))
        big = []
        for n, num, ks in ((9, 12, kinds), (9, 6, ["ec", "oct"]), (20, 8, ["ec", "oct"]), (70, 4, kinds)):
            r = lib.tlc_must("JwkSets", lib.cfg_text(spec="GrowSpec", constants=dict(MaxKeys=n, Ids={"n%d" % i for i in range(n * 5)}, Kinds=set(ks), Bug=""),
                                                     invariants=("Sound", "GrowReport")), work, "grow%d%d" % (n, num),
                             args=("-simulate", "num=%d" % (num if q else num * 40), "-depth", str(n + 2), "-seed", str(seed * 100 + n + num)))
            big += list(r.lines("SET"))
        out.append(Stream("sets of up to 70 keys", D, T, list(enumerate(big)), kind="sets"))
    return out


def relevant(prop, viols, streams_):
    return [v for v in viols if v[4] == prop]


ASSUMPTIONS = [
    "cryptography (OpenSSL) and harness/drv_jwk.py read JWKs and PEMs independently of psion",
    "Keys come from the corpus harness/keys.json (all types, curves, leading zeros, without CRT parameters) or are generated here",
    "Left open: symmetric keys have no public form; null members; blank or non-string ids; DER parsing of PEM text as a symmetric key",
]
