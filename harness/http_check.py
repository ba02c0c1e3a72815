"""Streams and design-model runs for the HTTP layer (C25)."""
import lib
from engine import Stream, sample

VIEW = "VIEW View\n"


def consts(**k):
    c = dict(MaxReq=1, MaxFields=2, MaxOps=1, Chars={"&", "=", "+"}, TwoNames=True, Bug="", Hist=False)
    c.update(k)
    return c


SMALL = dict(MaxReq=2, MaxFields=1, MaxOps=4, Chars={"a"}, TwoNames=False)


def model(prop, tier, work):
    q = tier != "thorough"
    out = []
    r = lib.tlc_must("HttpWire", lib.cfg_text(constants=dict(MaxLen=4 if q else 6, Show=False), invariants=("Laws",)), work, "laws", workers=lib.CORES, mem="8g", timeout=3000)
    out.append(("laws of writing and reading fields", r.distinct, r.generated))
    runs = [("one message with every pair of fields", consts(MaxFields=1, Chars={"a", "&", "=", "+", " "}) if q else consts(Chars={"a", "&", "=", "+", " "})),
            ("two requests, taken from and looked at again", consts(**dict(SMALL, MaxOps=3 if q else 5)))]
    if not q:
        runs.append(("one message with up to three fields", consts(MaxFields=3, Chars={"&", "="}, TwoNames=False)))
    for name, c in runs:
        r = lib.tlc_must("Http", lib.cfg_text(constants=c, invariants=("Sound", "Independent"), extra=VIEW), work, "m%d" % len(out), workers=lib.CORES, mem="10g", timeout=3000)
        out.append((name, r.distinct, r.generated))
    for b in ("plusraw", "splitlast", "first", "queryfirst", "noescape", "badsep", "lastcolon", "shared"):
        c = consts(Bug=b, **SMALL) if b == "shared" else consts(Bug=b, MaxFields=2 if b == "first" else 1, Chars={"&", "=", "+", " "})
        r = lib.tlc("Http", lib.cfg_text(constants=c, invariants=("Sound",), extra=VIEW), work, "bug" + b)
        if not r.violated:
            raise lib.Broken("the design mutation %s is not rejected: %s" % (b, r.out[-800:]))
        out.append(("design mutation %s: rejected by %s" % (b, r.violated[0]), r.distinct, r.generated))
    return out


def cases(work, area, dev):
    r = lib.tlc_must("HttpCases", lib.cfg_text(constants=dict(Area=area, MaxDev=dev), invariants=("Report",)), work, "cases-" + area, mem="6g")
    return list(enumerate(r.lines("CASE")))


def streams(prop, tier, seed, work):
    q = tier != "thorough"
    D, T = "drv_http.py", "HttpTrace"
    r = lib.tlc_must("HttpWire", lib.cfg_text(constants=dict(MaxLen=5, Show=True), invariants=("Report",)), work, "wire", mem="4g")
    ws = [x["w"] for x in r.lines("WIRE")]
    rng = lib.random.Random("wire|%s" % seed)
    if q:
        ws = [w for w in ws if len(w) < 4] + sample([w for w in ws if len(w) > 3], 3000, seed)
    items = [(i, w, rng.choice(ws)) for i, w in enumerate(ws)]
    out = [Stream("every text of a query or form of up to %s symbols" % ("3, and longer ones" if q else "5"), D, T, items, kind="wire", copies=1 if q else 3)]
    for area, name, n, k in (("request", "kinds of requests", 4000, 4), ("auth", "kinds of Authorization headers", 4000, 4),
                             ("add", "kinds of URLs and parameters added", 3000, 4), ("response", "kinds of responses", 1500, 2)):
        cs = cases(work, area, 2 if q else 3)
        out.append(Stream(name, D, T, sample(cs, n if q else 60000, seed), kind=area, copies=2 if q else k))
    r = lib.tlc_must("Http", lib.cfg_text(spec="SimSpec", constants=consts(MaxReq=4, MaxOps=10, Chars={"a", "&", "="}, Hist=True), invariants=("Report",)), work, "hist",
                     args=("-simulate", "num=%d" % (600 if q else 10000), "-depth", "14", "-seed", str(seed)), workers=1)
    out.append(Stream("histories of requests", D, T, list(enumerate(r.lines("PLAN"))), kind="hist"))
    return out


def relevant(prop, viols, streams_):
    return [v for v in viols if v[4] == prop]


ASSUMPTIONS = [
    "Texts are written and read independently of psion and of urllib by harness/drv_http.py",
    "Starlette itself (reading the body, the URL and headers of an ASGI scope, sending a response) is trusted",
    "Left open: stray percent signs, bytes that are not UTF-8, raw non-ASCII characters on the wire, repeated headers, fragments, malformed base64 in Basic headers",
]
