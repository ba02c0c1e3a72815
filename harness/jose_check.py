"""Streams and design-model runs for signing and verifying tokens (C16, C17, C18, C23, C24)."""
import lib
from engine import Stream, sample

INV = ("SignSound", "VerifySound")
BUGS = {"C16": ["nosig", "payloadonly", "nopin", "noneok", "nokeyalg"], "C17": ["nosig"],
        "C18": ["nokeyalg", "nokid", "nouse", "noops", "notype", "noprivate"], "C23": ["payloadonly"], "C24": ["nosig"]}
TOKEN = {"payload", "extra", "kids", "keyalg", "use", "ops", "vkey", "pin", "validate", "tamper", "by", "api"}
SIGN = {"api", "payload", "extra", "kids", "keyalg", "use", "ops", "skey"}
HEADER = {"api", "validate", "form", "alg", "kid", "typ", "cty", "crit", "segments", "payload"}


def consts(**k):
    c = dict(MaxSign=1, MaxOps=9, Bug="", Hist=False)
    c.update(k)
    return c


def model(prop, tier, work):
    out = []
    c = consts(MaxSign=2 if tier == "thorough" else 1)
    r = lib.tlc_must("Jose", lib.cfg_text(constants=c, invariants=INV), work, "model", workers=lib.CORES, mem="8g", c2=True,
                     timeout=4000 if tier == "thorough" else 600)
    out.append(("signing and verifying with an attacker, MaxSign=%d; each state: every key, algorithm, key id, payload and constructible "
                "signature" % c["MaxSign"], r.distinct, r.generated))
    for b in BUGS[prop]:
        r = lib.tlc("Jose", lib.cfg_text(constants=consts(Bug=b), invariants=INV), work, "bug" + b, workers=lib.CORES)
        if not r.violated:
            raise lib.Broken("the design mutation %s is not rejected: %s" % (b, r.out[-800:]))
        out.append(("design mutation %s: rejected by %s" % (b, r.violated[0]), r.distinct, r.generated))
    return out


def cases(fam, dev, active, free, work, name):
    r = lib.tlc_must("JoseCases", lib.cfg_text(constants=dict(Family=fam, MaxDev=dev, Active=set(active), Free=set(free)),
                                               invariants=("Report",)), work, "cases-" + name, mem="6g", c2=dev > 2)
    dims = next(r.lines("DIMS"))
    return dims, list({lib.json.dumps(x, sort_keys=True): x for x in r.lines("CASE")}.values())


def histories(work, num, seed):
    def gen(k, n):
        r = lib.tlc_must("Jose", lib.cfg_text("SimSpec", consts(MaxSign=4, MaxOps=14, Hist=True), ("Report",)), work, "sim%d" % k,
                         args=("-simulate", "num=%d" % n, "-depth", "20", "-seed", str(seed * 100 + k)))
        return [x["h"] for x in r.lines("PLAN")]
    parts = max(1, min(lib.CORES, num // 100))
    got = lib.pool(gen, [(k, num // parts) for k in range(parts)])
    uniq = dict.fromkeys(lib.json.dumps(h) for g in got for h in g)
    return [(i, lib.json.loads(h)) for i, h in enumerate(uniq)]


def streams(prop, tier, seed, work):
    q = tier != "thorough"
    D, T = "drv_jose.py", "JoseTrace"
    out = []
    gens = []

    def fam(name, f, dev, active, free, limit, copies=1):
        gens.append((name, lambda: cases(f, dev, active, free, work, "%d" % abs(hash(name))), limit, copies))
    if prop == "C16":
        fam("tokens, one deviation, every algorithm, maker and interface", "token", 1, TOKEN, {"alg", "by", "api"}, None, 1 if q else 4)
        fam("tokens, two deviations", "token", 2, {"tamper", "pin", "vkey", "keyalg", "validate", "kids", "api", "by"}, {"alg"},
            5000 if q else None)
        fam("tokens of every content, altered", "token", 2, {"tamper", "payload", "extra", "vkey"}, {"alg"}, 2500 if q else None)
        if not q:
            fam("tokens, three deviations", "token", 3, {"tamper", "pin", "vkey", "keyalg", "validate", "api", "by"}, {"alg"}, 120_000)
    if prop == "C17":
        fam("round trips", "token", 2, {"payload", "extra", "vkey", "pin", "validate", "api", "kids", "ops"}, {"alg"}, 4500 if q else None,
            1 if q else 4)
        fam("signing", "sign", 2, {"api", "payload", "extra", "kids", "ops", "use", "keyalg"}, {"alg"}, 3500 if q else None, 1 if q else 4)
        if not q:
            fam("round trips, three deviations", "token", 3, {"payload", "extra", "vkey", "pin", "validate", "api", "kids", "ops"}, {"alg"},
                100_000)
    if prop == "C18":
        fam("signing", "sign", 2, SIGN - {"payload", "extra"}, {"alg"}, None, 1 if q else 3)
        fam("verifying", "token", 2, {"kids", "keyalg", "use", "ops", "vkey", "validate", "api", "pin"}, {"alg"}, 5000 if q else None)
        fam("public keys as secrets", "token", 2, {"tamper", "vkey", "keyalg", "api", "use", "ops"}, {"alg"}, 2000 if q else None)
        if not q:
            fam("signing, three deviations", "sign", 3, SIGN - {"payload"}, {"alg"}, 100_000)
            fam("verifying, three deviations", "token", 3, {"kids", "keyalg", "use", "ops", "vkey", "validate", "api"}, {"alg"}, 100_000)
    if prop == "C23":
        fam("headers", "header", 2, HEADER, {"api"}, None, 1 if q else 4)
        fam("tokens, one deviation", "token", 1, TOKEN, {"alg", "api"}, 1500 if q else None)
        if not q:
            fam("headers, three deviations", "header", 3, HEADER, {"api"}, 120_000)
        out.append(Stream("arbitrary text", D, T, list(range(1200 if q else 30000)), kind="fuzz"))
    if prop == "C24":
        fam("tokens of either maker", "token", 2, {"payload", "extra", "vkey", "pin", "api", "kids"}, {"alg", "by"}, 6000 if q else None,
            1 if q else 3)
        fam("signing", "sign", 1, {"api", "payload", "extra", "kids"}, {"alg", "api"}, None, 1 if q else 8)
    if prop in ("C16", "C23"):
        out.append(Stream("every character of a token changed", D, T, list(range(24 if q else 240)), kind="sweep",
                          how=["flip", "drop", "cut"] if q else ["flip", "any", "drop", "double", "cut", "byte"]))
    if prop in ("C17", "C24"):
        out.append(Stream("signatures with leading zeros, every algorithm with every key", D, T, list(range(70 if q else 1400)), kind="many",
                          tries=200 if q else 600))
    n = (400 if prop == "C23" else 800) if q else 12000
    for (name, fn, limit, copies), (dims, cs) in zip(gens, lib.pool(lambda g: g(), [(g[1],) for g in gens], 4)):
        out.append(Stream(name, D, T, sample(cs, limit, seed), kind="cases", dims=dims, copies=copies))
    out.append(Stream("histories of the design model", D, T, histories(work, n, seed), kind="hist"))
    return out


def relevant(prop, viols, streams_):
    return [v for v in viols if v[4] == prop]


ASSUMPTIONS = [
    "Cryptography is symbolic in the specification: a signature exists only if a holder of the key made it in the recorded history",
    "cryptography (OpenSSL) implements the primitives; harness/common.py is the independent RFC 7515/7518 implementation",
    "Left open: alg none without a named algorithm; non-canonical base64 text; null members; ECDSA twin signatures; RSA keys below 2048 bits",
    "Bounds: up to 2 (quick) or 3 (thorough) simultaneous deviations, histories of 14 operations, keys of the corpus harness/keys.json",
]
