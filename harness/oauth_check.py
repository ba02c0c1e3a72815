"""Streams and design-model runs for the OAuth properties."""
import lib
import scheds
from engine import Stream, sample

FAMS = {
    "C01": ["redeem"], "C02": ["redeem"], "C03": ["authorize"], "C04": ["authorize", "consent"],
    "C05": ["authorize", "redeem", "refresh", "cred"], "C06": ["redeem", "refresh", "cred", "revoke"],
    "C07": ["authorize", "redeem", "refresh", "cred"], "C08": ["refresh"], "C09": ["revoke"],
    "C10": ["authorize", "consent", "redeem", "refresh", "cred", "revoke"], "C11": ["authorize", "consent"],
    "C12": ["redeem", "refresh", "cred"], "C13": ["authorize", "redeem"], "C15": [], "C26": ["consent", "authorize"],
    "C29": ["authorize", "consent", "redeem", "refresh", "cred", "revoke"],
}
HIST = {
    "C01": ["authorize", "redeem"], "C02": ["authorize", "redeem"], "C03": ["authorize", "redeem"],
    "C04": ["authorize", "consent"], "C05": ["authorize", "redeem", "refresh", "cred"],
    "C06": ["redeem", "refresh", "cred", "revoke"], "C07": ["authorize", "redeem", "refresh", "cred"],
    "C08": ["redeem", "refresh"], "C09": ["redeem", "refresh", "revoke"],
    "C10": ["authorize", "consent", "redeem", "refresh", "cred", "revoke"], "C11": ["authorize", "consent"],
    "C12": ["authorize", "redeem", "refresh", "cred"], "C13": ["authorize", "redeem"],
    "C15": ["authorize", "redeem", "refresh", "revoke", "cred", "consent"], "C26": ["authorize", "consent"],
    "C29": ["authorize", "redeem", "refresh", "revoke", "cred", "consent"],
}
# the design model: constants of the quick run, of the thorough run, design mutations it must reject
MODEL = {
    "C01": (dict(MaxConc=2, MaxFault=1), dict(MaxConc=2, MaxFault=2, MaxEnv=1, Oidc=False), ["noclaim", "nofinally"]),
    "C02": (dict(MaxReq=1, MaxEnv=2), dict(MaxReq=2, MaxEnv=2, Eps={"authorize", "redeem"}), ["foreigncode", "nopkce", "noexpiry", "anyuser"]),
    "C03": (dict(Eps={"authorize"}, MaxEnv=1, MaxFault=1), dict(Eps={"authorize"}, MaxConc=2, MaxEnv=1, MaxFault=1), ["nononce", "openredirect"]),
    "C04": (dict(Eps={"authorize", "consent"}, MaxEnv=1), dict(Eps={"authorize", "consent"}, MaxConc=2, MaxEnv=1, MaxFault=1), ["openredirect"]),
    "C05": (dict(Eps={"refresh"}, MaxEnv=1), dict(Eps={"refresh", "cred"}, MaxReq=3, MaxEnv=2), ["broaderscope", "anyscope"]),
    "C06": (dict(Eps={"refresh", "cred", "revoke"}), dict(Eps={"refresh", "cred", "revoke"}, MaxEnv=2, MaxFault=1), ["foreignrefresh"]),
    "C07": (dict(Eps={"redeem"}, MaxReq=1, MaxEnv=2), dict(Eps={"refresh", "cred"}, MaxEnv=2), ["anygrant"]),
    "C08": (dict(Eps={"refresh"}, MaxEnv=1), dict(Eps={"refresh"}, MaxReq=3, MaxEnv=2), ["foreignrefresh"]),
    "C09": (dict(Eps={"refresh", "revoke"}, MaxEnv=1), dict(Eps={"refresh", "revoke"}, MaxConc=2, MaxFault=1, MaxEnv=1), []),
    "C10": (dict(Eps={"redeem"}, MaxReq=1, MaxFault=2, MaxEnv=1),
            dict(Eps={"redeem", "refresh", "cred"}, MaxReq=2, MaxFault=1, MaxEnv=1), []),
    "C11": (dict(Eps={"authorize", "consent"}, MaxEnv=1), dict(Eps={"authorize", "consent"}, MaxConc=2, MaxFault=1), ["openredirect"]),
    "C12": (dict(Eps={"refresh", "cred"}, MaxEnv=1), dict(Eps={"refresh", "cred"}, MaxReq=3, MaxEnv=1), []),
    "C13": (dict(Eps={"authorize", "redeem"}), dict(Eps={"authorize", "redeem"}, MaxEnv=1, MaxReq=3), ["nononce", "oldkey"]),
    "C15": (dict(Eps={"refresh"}, MaxConc=2), dict(Eps={"redeem", "refresh"}, MaxConc=2), ["noclaim"]),
    "C26": (dict(Eps={"authorize", "consent"}, MaxEnv=1), dict(Eps={"authorize", "consent"}, MaxConc=2, MaxEnv=1, MaxFault=1), []),
    "C29": (dict(Eps={"redeem", "revoke"}, MaxEnv=1), dict(Eps={"authorize", "redeem", "refresh"}, MaxReq=2, MaxEnv=1, MaxFault=1),
            ["tellsecret", "tellfact", "passalong"]),
}
BUGEPS = {"broaderscope": {"refresh"}, "foreignrefresh": {"refresh"}, "openredirect": {"authorize"}, "nononce": {"authorize"},
          "anyscope": {"cred"}}
SHARED = {"same", "wrongver", "otherclient", "badauth", "badredir", "pub"}
SINGLE = {"one", "onepub", "onewrong", "oneother"}
PAIRS = {k for k in scheds.COMBOS if k.count("+") == 1}
BROWSER = {k for k in PAIRS if not set(k.split("+")) - {"autA", "autB", "autA2", "autAbad", "conA", "conB"}}
TRIPLES = {k for k in scheds.COMBOS if k.count("+") == 2}
KINDS = {"raise", "raiseafter", "oauth", "cancel", "cancelafter"}
INV = ("Conforms", "OneHolder", "UsedIsGone", "Confined", "Bound", "NoStaleClaim")


def consts(**k):
    c = dict(MaxReq=2, MaxConc=1, MaxFault=0, MaxEnv=0, Eps={"redeem"}, Oidc=True, Codes0=True, Hist=False, Bug="")
    c.update(k)
    return c


def model(prop, tier, work):
    """(description, states, transitions) of the design-model runs."""
    out = []
    quick, thorough, bugs = MODEL[prop]
    k = thorough if tier == "thorough" else quick
    for oidc in ([True, False] if tier == "thorough" and "Oidc" not in k else [k.get("Oidc", True)]):
        c = consts(**dict(k, Oidc=oidc))
        r = lib.tlc_must("OAuth", lib.cfg_text(constants=c, invariants=INV, properties=("NoGain",)), work, "model%d" % oidc,
                         workers=lib.CORES, mem="16g" if tier == "thorough" else "6g", c2=tier == "thorough",
                         timeout=6000 if tier == "thorough" else 600)
        out.append((" ".join("%s=%s" % (a, sorted(b) if isinstance(b, set) else b) for a, b in sorted(c.items())),
                    r.distinct, r.generated))
    if tier == "thorough":
        c = consts(MaxReq=2, MaxConc=2, MaxFault=1, Eps=set(list(sorted(k.get("Eps", {"redeem"})))[:1]))
        r = lib.tlc_must("OAuth", lib.cfg_text(constants=c, properties=("Answered",)), work, "live", workers=lib.CORES, mem="12g",
                         c2=True, timeout=3000)
        out.append(("liveness Answered, one endpoint, two concurrent requests, one fault", r.distinct, r.generated))
    for b in bugs:
        n = 2 if b == "noclaim" else 1
        c = consts(Bug=b, MaxReq=n, MaxConc=n, MaxEnv=2, Eps=BUGEPS.get(b, {"redeem"}))
        r = lib.tlc("OAuth", lib.cfg_text(constants=c, invariants=INV), work, "bug" + b, workers=lib.CORES)
        if not r.violated:
            raise lib.Broken("the design mutation %s is not rejected: %s" % (b, r.out[-800:]))
        out.append(("design mutation %s: rejected by %s" % (b, r.violated[0]), r.distinct, r.generated))
    return out


def cases(fams, dev, work, name="cases"):
    r = lib.tlc_must("OAuthCases", lib.cfg_text(constants=dict(MaxDev=dev, Families=set(fams)), invariants=("Report",)), work, name,
                     mem="6g", c2=dev > 2)
    dims = next(r.lines("DIMS"))
    return dims, list({lib.json.dumps(x, sort_keys=True): x for x in r.lines("CASE")}.values())


def sched(work, name, combos, size, runs, ln, kinds=(), at=0):
    r = lib.tlc_must("OAuthSched", lib.cfg_text(constants=dict(Combos=set(combos), Size=size, MaxRuns=runs, MaxLen=ln,
                                                               FaultKinds=set(kinds), MaxFaultAt=at), invariants=("Report",)),
                     work, "sched-" + name, mem="4g")
    return list({lib.json.dumps(x, sort_keys=True): x for x in r.lines("SCHED")}.values())


def crowds(work, kinds, sizes, dev, name="crowd"):
    r = lib.tlc_must("OAuthCrowd", lib.cfg_text(constants=dict(MaxDev=dev, Kinds=set(kinds), Sizes=set(map(str, sizes))), invariants=("Report",)),
                     work, name, mem="2g")
    return list({lib.json.dumps(x, sort_keys=True): x for x in r.lines("CROWD")}.values())


def logins(work, dev, name="logins"):
    r = lib.tlc_must("OAuthLogins", lib.cfg_text(constants=dict(MaxDev=dev), invariants=("Report",)), work, name, mem="4g")
    return list({lib.json.dumps(x, sort_keys=True): x for x in r.lines("LOGINS")}.values())


def histories(work, eps, num, seed, conc=2, reqs=8, fault=2, env=3, name="sim"):
    def gen(k, n):
        r = lib.tlc_must("OAuth", lib.cfg_text("SimSpec", consts(MaxReq=reqs, MaxConc=conc, MaxFault=fault, MaxEnv=env, Eps=set(eps),
                                                                 Hist=True), ("Conforms", "Report")), work, "%s%d" % (name, k),
                         args=("-simulate", "num=%d" % n, "-depth", "400", "-seed", str(seed * 100 + k)))
        return [x["h"] for x in r.lines("PLAN")]
    parts = max(1, min(lib.CORES, num // 40))
    got = lib.pool(gen, [(k, num // parts) for k in range(parts)])
    uniq = dict.fromkeys(lib.json.dumps(h) for g in got for h in g)
    return [(i, lib.json.loads(h)) for i, h in enumerate(uniq)]


def streams(prop, tier, seed, work):
    q = tier != "thorough"
    D, T = "drv_oauth.py", "OAuthTrace"
    out = []
    gens = []

    def add(name, fn, **job):
        gens.append((name, fn, job))
    if FAMS[prop]:
        dims, cs = cases(FAMS[prop], 2, work)
        out.append(Stream("cases with up to 2 deviations of " + ", ".join(FAMS[prop]), D, T, cs, kind="cases", dims=dims,
                          copies=1 if q else 6))
        if not q:
            dims, cs = cases(FAMS[prop], 3, work, "cases3")
            out.append(Stream("cases with 3 deviations", D, T, sample([c for c in cs if len(c["d"]) == 3], 160_000, seed), kind="cases",
                              dims=dims))
    hn = {"C10": 240, "C15": 160, "C29": 240}.get(prop, 320) if q else 6000
    add("histories of the design model", lambda: histories(work, HIST[prop], hn, seed), kind="hist")
    add("sequential histories of the design model", lambda: histories(work, HIST[prop], 320 if q else 6000, seed + 1, conc=1, reqs=14,
                                                                      fault=0, env=4, name="seq"), kind="hist", gates="none" if q else "both")
    if not q:
        add("three concurrent requests of the design model", lambda: histories(work, HIST[prop], 3000, seed + 2, conc=3, name="tri"), kind="hist")
    if prop == "C01":
        add("two requests with one code, one switch", lambda: sched(work, "a", SHARED, 2, 2, 9), kind="scheds", variants=[0, 2])
        add("two redemptions, two switches", lambda: sample(sched(work, "b", {"same"}, 2, 3, 8), 500 if q else None, seed), kind="scheds",
            variants=[1])
        add("two redemptions, switches also after each effect", lambda: sample(sched(work, "c", {"same", "pub", "wrongver"}, 2, 2, 18),
                                                                                700 if q else None, seed), kind="scheds", gates="both")
        add("two redemptions of one code and another redemption", lambda: sample(
            sched(work, "t", {"sameB", "sameA2", "sameP"}, 3, 3, 8), 1500 if q else 30000, seed), kind="scheds")
        add("one redemption with a fault", lambda: sched(work, "d", SINGLE, 1, 1, 0, KINDS, 9), kind="scheds", variants=[0, 1, 2])
        add("one redemption with a fault, finer", lambda: sched(work, "e", SINGLE, 1, 1, 0, KINDS, 9), kind="scheds", gates="both")
        add("two redemptions and a fault", lambda: sample(sched(work, "f", {"same", "wrongver"}, 2, 2, 7, KINDS, 9), 3000 if q else None,
                                                          seed), kind="scheds")
        if not q:
            add("three redemptions, two switches", lambda: sample(sched(work, "g", {"same3"}, 3, 3, 8), 40000, seed), kind="scheds")
            add("two redemptions, three switches", lambda: sample(sched(work, "h", SHARED, 2, 4, 6), 60000, seed), kind="scheds")
            add("two redemptions and a fault, finer", lambda: sample(sched(work, "i", SHARED, 2, 2, 14, KINDS, 9), 40000, seed),
                kind="scheds", gates="both")
        add("crowds of redemptions", lambda: sample(crowds(work, {"redeem"}, (2, 6, 12, 20, 40, 70, 130), 2), 60 if q else None, seed), kind="crowd")
    if prop == "C15":
        add("crowds of requests", lambda: sample(crowds(work, {"mixed", "authorize", "refresh"}, (6, 12, 40, 70), 2), 60 if q else None, seed),
            kind="crowd")
        add("pairs of requests, one switch", lambda: sample(sched(work, "p", PAIRS, 2, 2, 7), 4500 if q else None, seed), kind="scheds",
            solo=True, variants=[0] if q else [0, 1, 2])
        add("pairs on shared adapter objects", lambda: sample(sched(work, "p1", PAIRS, 2, 2, 7), 1500 if q else None, seed + 5),
            kind="scheds", solo=True, variants=[1])
        add("pairs of requests, two switches", lambda: sample(sched(work, "p2", PAIRS, 2, 3, 4), 1500 if q else 60000, seed), kind="scheds",
            solo=True, variants=[0])
        add("pairs of requests and a fault", lambda: sample(sched(work, "p3", PAIRS, 2, 2, 3, KINDS, 7), 2500 if q else 60000, seed),
            kind="scheds", solo=True, variants=[0])
        add("triples of requests", lambda: sample(sched(work, "p4", TRIPLES, 3, 3, 5), 800 if q else 20000, seed), kind="scheds", solo=True,
            variants=[0])
    if prop in ("C01", "C02", "C03", "C05", "C07", "C08", "C09", "C11", "C12", "C13", "C15", "C29"):
        add("three logins", lambda: sample(logins(work, 2 if q else 3), 900 if q else 30000, seed), kind="logins")
    if prop in ("C04", "C11", "C15"):
        add("pairs of browser requests, one refused by the application", lambda: sched(work, "o", BROWSER, 2, 2, 2, {"oauth"}, 2), kind="scheds",
            solo=prop == "C15", variants=[0] if q else [0, 1, 2])
    if prop in ("C02", "C06", "C08", "C12", "C13", "C10", "C03", "C04", "C11", "C26", "C29"):
        one = {"C02": ["one", "onepub", "onewrong", "oneother"], "C03": ["autA", "autAbad"], "C04": ["autA", "conA"], "C11": ["autA", "conB"],
               "C26": ["conA", "conB"], "C08": ["refA", "refB"], "C13": ["one", "autA"], "C12": ["one", "refA", "creA"],
               "C06": ["one", "refB", "revA", "revB", "creA"],
               "C29": ["one", "autA", "conA", "refA", "revA", "creA"],
               "C10": ["one", "onepub", "autA", "autB", "conA", "refA", "refAs", "revA", "revB", "creA", "creB"]}[prop]
        add("single requests with one fault", lambda: sched(work, "s", one, 1, 1, 0, KINDS, 9), kind="scheds", variants=[0, 1])
    if prop in ("C04", "C06", "C10", "C11", "C29"):
        n = {"C10": 2500}.get(prop, 800) if q else 40000
        out.append(Stream("arbitrary requests", D, T, list(range(n)), kind="fuzz"))
    if prop == "C03":
        out.append(Stream("statistics of codes", "drv_codes.py", T, [0], n=1200 if q else 12000))
    for (name, fn, job), items in zip(gens, lib.pool(lambda g: g(), [(g[1],) for g in gens], 4)):
        out.append(Stream(name, D, T, items, **job))
    return out


def relevant(prop, viols, streams_):
    """The violations that count against prop."""
    if prop != "C15":
        return [v for v in viols if v[4] == prop]
    # what goes wrong only when requests overlap is interference as well
    alone = {(v[0], v[5]) for v in viols if v[2].startswith("solo-")}
    return [v for v in viols if not v[2].startswith("solo-") and
            (v[4] == "C15" or (v[2].startswith("sched-") and (v[0], v[5]) not in alone and "!" not in v[2]))]


ASSUMPTIONS = [
    "The application's adapter behaves as the harness adapter does: its calls are atomic in effect, codes and refresh tokens are stored as given",
    "Wall-clock time is what the preloaded clock shim returns; it moves only between recorded events",
    "Bounds: up to 2 (quick) or 3 (thorough) simultaneous deviations from a correct request, up to 3 concurrent requests, 1 to 2 faults",
    "TLC, the TLA+ modules of spec/ and the translation of abstract cases to requests in harness/cases.py, harness/scheds.py are trusted; "
    "the latter is cross-checked: each case's predicted defects must equal those the monitor finds in the concrete request",
]
