"""Streams and design-model runs for hooks (C14)."""
import lib
from engine import Stream

VIEW = "VIEW View\n"
ALL = dict(Classes={"base", "code", "sub", "refresh"}, HookNames={"a", "b", "x"}, Grants={"c", "cs", "sr", "cr"})


def consts(**k):
    c = dict(MaxProv=2, MaxAdd=2, MaxReq=2, MaxConc=2, Bug="", Hist=False, Flows={"token"}, Phases=False, **ALL)
    c.update(k)
    return c


def model(prop, tier, work):
    q = tier != "thorough"
    out = []
    runs = [("registrations and one token request", consts(MaxReq=1, Grants={"cs", "sr"})),
            ("every flow on one provider", consts(MaxReq=1, MaxProv=1, Flows={"authorize", "token"})),
            ("two requests at a time", consts(Phases=True, Grants={"cs"}, Classes={"code", "sub"})),
            ("registrations between requests", consts(Grants={"cs"}, Classes={"code"}, HookNames={"a", "b"}, MaxConc=1))]
    if not q:
        runs += [("registrations and one request of every flow", consts(MaxReq=1, Flows={"authorize", "token"})),
                 ("two requests at a time, three registrations", consts(Phases=True, MaxAdd=3, Grants={"cs"}, Classes={"code", "sub"}, Flows={"authorize", "token"})),
                 ("registrations during two requests", consts(Grants={"cs"}, Classes={"code", "sub"}, HookNames={"a", "x"}))]
    for i, (name, c) in enumerate(runs):
        r = lib.tlc_must("Hooks", lib.cfg_text(constants=c, invariants=("Sound", "Ends"), extra=VIEW), work, "m%d" % i, workers=lib.CORES, mem="12g", timeout=3000)
        out.append((name, r.distinct, r.generated))
    for b in ("shared", "byclass", "exact", "owner", "dedupe", "firstonly", "swallow", "overwrite", "current"):
        r = lib.tlc("Hooks", lib.cfg_text(constants=consts(Bug=b, Phases=True, Grants={"cs"}, Classes={"code", "sub"}), invariants=("Sound",), extra=VIEW), work, "bug" + b, workers=lib.CORES)
        if not r.violated:
            raise lib.Broken("the design mutation %s is not rejected: %s" % (b, r.out[-800:]))
        out.append(("design mutation %s: rejected by %s" % (b, r.violated[0]), r.distinct, r.generated))
    return out


def streams(prop, tier, seed, work):
    q = tier != "thorough"
    out = []
    for k, (prov, add, req, depth, n) in enumerate(((3, 6, 6, 30, 500), (2, 8, 10, 40, 300), (5, 12, 20, 70, 150))):
        r = lib.tlc_must("Hooks", lib.cfg_text(spec="SimSpec", constants=consts(MaxProv=prov, MaxAdd=add, MaxReq=req, Hist=True, Flows={"authorize", "token"}), invariants=("Report",)), work,
                         "hist%d" % k, args=("-simulate", "num=%d" % (n if q else n * 25), "-depth", str(depth), "-seed", str(seed * 10 + k)), workers=1)
        out.append(Stream("histories of up to %d providers, %d registrations and %d requests" % (prov, add, req), "drv_hooks.py", "HooksTrace", list(enumerate(r.lines("PLAN"))), kind="hooks",
                          copies=2))
    return out


def relevant(prop, viols, streams_):
    return [v for v in viols if v[4] == prop]


ASSUMPTIONS = [
    "Hooks, adapter and a grant derived from the code grant are the harness's own; requests interleave under asyncio with randomly placed suspensions",
    "Left open: checkpoints of grants other than the code grant, the order of hooks, what happens to the other hooks of a checkpoint when one raises, conflicting results, hooks raising other exceptions",
]
