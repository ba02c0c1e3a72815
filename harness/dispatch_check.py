"""Streams and design-model runs for grants of the application's own (C27)."""
import lib
from engine import Stream, sample

VIEW = "VIEW View\n"
LISTS = {"one", "secret", "public", "custom", "pair", "riap", "near", "split", "many", "none"}
HOWS = {"client_secret_basic", "client_secret_post", "none", "custom", "wrongb", "wrongp", "wrongc", "unknown", "B", "nothing"}
FLOWS = {"token", "authorize", "consent", "revoke", "auth"}


def consts(**k):
    c = dict(MaxProv=1, MaxReq=1, MaxConc=1, Bug="", Hist=False, Flows=FLOWS, Hows=HOWS, Types={"1", "2", "1'", "3", ""}, GrantLists=LISTS,
             Clients={"all", "t1", "t2", "near", "none"})
    c.update(k)
    return c


SMALL = dict(Hows={"client_secret_basic", "custom", "wrongc", "B"}, Types={"1", "2"}, Flows={"token", "authorize"}, Clients={"all", "t1"}, GrantLists={"pair", "near"})


TINY = dict(SMALL, Hows={"client_secret_basic", "wrongc"}, Clients={"all", "t1"})


def model(prop, tier, work):
    q = tier != "thorough"
    out = []
    runs = [("every request to every list of grants", consts()),
            ("two requests at a time on two providers", consts(MaxProv=2, MaxReq=2, MaxConc=2, **TINY))]
    if not q:
        runs += [("two requests at a time, every flow", consts(MaxReq=2, MaxConc=2, **dict(SMALL, Flows=FLOWS, Hows=HOWS, Clients={"all", "t1", "none"}, GrantLists={"pair", "near", "many"}))),
                 ("three requests at a time", consts(MaxReq=3, MaxConc=3, MaxProv=2, **dict(SMALL, Hows={"client_secret_basic", "wrongc"}, Types={"1"}, Clients={"all"})))]
    for i, (name, c) in enumerate(runs):
        r = lib.tlc_must("Dispatch", lib.cfg_text(constants=c, invariants=("Sound", "Ends"), extra=VIEW), work, "m%d" % i, workers=lib.CORES, mem="12g", timeout=3000)
        out.append((name, r.distinct, r.generated))
    for b in ("first", "prefix", "anymethod", "noregister", "shared", "twice", "swallow", "nologin", "current"):
        r = lib.tlc("Dispatch", lib.cfg_text(constants=consts(Bug=b, MaxProv=2, MaxReq=2, MaxConc=2, **SMALL), invariants=("Sound",), extra=VIEW), work, "bug" + b, workers=lib.CORES)
        if not r.violated:
            raise lib.Broken("the design mutation %s is not rejected: %s" % (b, r.out[-800:]))
        out.append(("design mutation %s: rejected by %s" % (b, r.violated[0]), r.distinct, r.generated))
    return out


def streams(prop, tier, seed, work):
    q = tier != "thorough"
    r = lib.tlc_must("Dispatch", lib.cfg_text(spec="CaseSpec", constants=consts(Hist=True), invariants=("ReportCase",)), work, "cases", workers=1)
    cases = list(enumerate(r.lines("PLAN")))
    out = [Stream("every single request", "drv_dispatch.py", "DispatchTrace", 
                  [c for c in cases if c[1]["d"] == 0] + sample([c for c in cases if c[1]["d"] == 1], 5000 if q else None, seed) + sample([c for c in cases if c[1]["d"] > 1], 1000 if q else None, seed),
                  kind="dispatch", copies=1 if q else 4)]
    likely = {"all", "t1"}
    for k, (prov, req, depth, n) in enumerate(((1, 6, 10, 600), (3, 12, 24, 400), (6, 30, 60, 150))):
        r = lib.tlc_must("Dispatch", lib.cfg_text(spec="SimSpec", constants=consts(MaxProv=prov, MaxReq=req, Hist=True, Clients=likely if k else likely | {"near", "none", "t2"}), invariants=("Report",)), work, "hist%d" % k,
                         args=("-simulate", "num=%d" % (n if q else n * 25), "-depth", str(depth), "-seed", str(seed * 10 + k)), workers=1)
        out.append(Stream("histories of %d requests to up to %d providers" % (req, prov), "drv_dispatch.py", "DispatchTrace", [("h%d-%d" % (k, i), p) for i, p in enumerate(r.lines("PLAN"))],
                          kind="dispatch", copies=2))
    return out


def relevant(prop, viols, streams_):
    return [v for v in viols if v[4] == prop]


ASSUMPTIONS = [
    "Grants, adapter and one way of authentication are the harness's own; requests interleave under asyncio with randomly placed suspensions",
    "Left open: several grants of one type in one provider, the order in which defects are looked at, credentials of several kinds in one request, grants raising other exceptions",
]
