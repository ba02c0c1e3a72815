"""Streams and design-model runs for claims (C19, C20)."""
import lib
from engine import Stream, sample

BUGS = {"C19": ["inclusive", "strictiat", "nonbf", "falsytime", "local"], "C20": ["optskip", "falsyvalue"]}
TIME = {"api", "tz", "frac", "exp", "nbf", "iat", "auth_time", "opts"}
TYPES = {"api", "iss", "sub", "jti", "aud", "nonce", "want", "exp"}
OPTS = {"api", "o1", "o2", "o3", "names", "exp", "order"}


def consts(**k):
    c = dict(MaxTok=1, MaxNow=3, MaxOps=9, Bug="", Hist=False)
    c.update(k)
    return c


def model(prop, tier, work):
    out = []
    c = consts() if tier != "thorough" else consts(MaxTok=2, MaxNow=2)
    r = lib.tlc_must("Claims", lib.cfg_text(constants=c, invariants=("Sound", "ZoneFree"), properties=("StaysExpired",)), work, "model", workers=lib.CORES,
                     mem="10g", c2=tier == "thorough", timeout=5000)
    out.append(("claims issued, clock moving, every option set and zone: MaxTok=%(MaxTok)d MaxNow=%(MaxNow)d" % c, r.distinct, r.generated))
    for b in BUGS[prop]:
        r = lib.tlc("Claims", lib.cfg_text(constants=consts(Bug=b), invariants=("Sound",)), work, "bug" + b, workers=2)
        if not r.violated:
            raise lib.Broken("the design mutation %s is not rejected: %s" % (b, r.out[-800:]))
        out.append(("design mutation %s: rejected by %s" % (b, r.violated[0]), r.distinct, r.generated))
    return out


def cases(fam, dev, active, free, work, name):
    r = lib.tlc_must("ClaimsCases", lib.cfg_text(constants=dict(Family=fam, MaxDev=dev, Active=set(active), Free=set(free)),
                                                 invariants=("Report",)), work, "cases-" + name, mem="8g", c2=dev > 2)
    dims = next(r.lines("DIMS"))
    return dims, list({lib.json.dumps(x, sort_keys=True): x for x in r.lines("CASE")}.values())


def histories(work, num, seed):
    def gen(k, n):
        r = lib.tlc_must("Claims", lib.cfg_text("SimSpec", consts(MaxOps=30, Hist=True), ("Report",)), work, "sim%d" % k,
                         args=("-simulate", "num=%d" % n, "-depth", "40", "-seed", str(seed * 100 + k)))
        return [x["h"] for x in r.lines("PLAN")]
    parts = max(1, min(lib.CORES, num // 100))
    got = lib.pool(gen, [(k, num // parts) for k in range(parts)])
    uniq = dict.fromkeys(lib.json.dumps(h) for g in got for h in g)
    return [(i, lib.json.loads(h)) for i, h in enumerate(uniq)]


def streams(prop, tier, seed, work):
    q = tier != "thorough"
    D, T = "drv_claims.py", "ClaimsTrace"
    gens = []

    def fam(name, f, dev, active, free, limit, copies=1):
        gens.append((name, lambda: cases(f, dev, active, free, work, f + str(dev) + str(len(free))), limit, copies))
    if prop == "C19":
        fam("times, one deviation, every interface, zone and fraction", "time", 1, TIME, {"api", "tz", "frac"}, None, 1 if q else 10)
        fam("times, two deviations, every interface", "time", 2, TIME, {"api"}, 18000 if q else None, 1 if q else 3)
        fam("times, every combination", "time", 0, TIME, {"exp", "nbf", "iat", "api"} if not q else {"exp", "nbf", "iat"}, 8000 if q else None)
    else:
        fam("types of registered claims", "types", 2, TYPES, {"api"}, 18000 if q else None, 1 if q else 4)
        fam("options, one or two, every interface", "opts", 2, OPTS, {"api"}, 18000 if q else None, 1 if q else 3)
        fam("options, three", "opts", 0, OPTS, {"o1", "o2", "o3"}, 20000 if q else None)
    n = 1500 if q else 12000
    out = []
    for (name, fn, limit, copies), (dims, cs) in zip(gens, lib.pool(lambda g: g(), [(g[1],) for g in gens], 4)):
        out.append(Stream(name, D, T, sample(cs, limit, seed), kind="cases", dims=dims, copies=copies))
    out.append(Stream("histories of the design model", D, T, histories(work, n, seed), kind="hist"))
    out.append(Stream("arbitrary claims and options", D, T, list(range(2500 if q else 30000)), kind="fuzz"))
    return out


def relevant(prop, viols, streams_):
    return [v for v in viols if v[4] == prop]


ASSUMPTIONS = [
    "Wall-clock time is what the preloaded clock shim returns; the zone is set with TZ",
    "Left open: null members, empty claims, options without a usable expectation, equality of 1, 1.0 and true, options when validation is off",
    "Bounds: up to 2 simultaneous deviations of all dimensions, every combination of the three times and of three options, histories of 30 operations",
]
