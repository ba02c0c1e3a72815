"""Streams and design-model runs for the encodings (C28)."""
import lib
from engine import Stream

EDGES = {0, 1, 3, 15, 62, 63, 64, 127, 128, 240, 251, 252, 255}


def consts(**k):
    c = dict(MaxLen=3, Octets=EDGES, Show=False, Bug="")
    c.update(k)
    return c


def model(prop, tier, work):
    q = tier != "thorough"
    out = []
    runs = [("octet strings over edge octets", consts(MaxLen=4 if q else 5)), ("all octet strings of two octets" if not q else "all octets", consts(MaxLen=1 if q else 2, Octets=set(range(256))))]
    for i, (name, c) in enumerate(runs):
        r = lib.tlc_must("Codec", lib.cfg_text(constants=c, invariants=("Laws", "Sound")), work, "m%d" % i, workers=lib.CORES, mem="8g", timeout=3000)
        out.append((name, r.distinct, r.generated))
    for b in ("padded", "standard", "strip", "short", "nozero"):
        r = lib.tlc("Codec", lib.cfg_text(constants=consts(Bug=b), invariants=("Sound",)), work, "bug" + b, workers=lib.CORES)
        if not r.violated:
            raise lib.Broken("the mutation %s is not rejected: %s" % (b, r.out[-800:]))
        out.append(("mutation %s: rejected by %s" % (b, r.violated[0]), r.distinct, r.generated))
    return out


def lots(name, items, n):
    return [("%s%d" % (name, k), items[k * n:(k + 1) * n]) for k in range((len(items) + n - 1) // n)]


def streams(prop, tier, seed, work):
    q = tier != "thorough"
    out = []
    for k, (name, c) in enumerate((("octet strings over edge octets", consts(MaxLen=3 if q else 4, Show=True)), ("all octet strings of up to two octets", consts(MaxLen=2, Octets=set(range(256)), Show=True)))):
        r = lib.tlc_must("Codec", lib.cfg_text(constants=c, invariants=("Report",)), work, "gen%d" % k, workers=1, mem="4g")
        items = [x["b"] for x in r.lines("PLAN")]
        if q and k:
            import random
            items = random.Random(seed).sample(items, 12000)
        out.append(Stream(name, "drv_codec.py", "CodecTrace", lots("s%d-" % k, items, 25), kind="codec"))
    out.append(Stream("long octet strings", "drv_codec.py", "CodecTrace", lots("r", ["random"] * (1600 if q else 40000), 8), kind="codec", docs=10, dicts=6))
    return out


def relevant(prop, viols, streams_):
    return [v for v in viols if v[4] == prop]


ASSUMPTIONS = [
    "Documents are compared by the harness with Python's json module; the randomness of tokens is judged by repetition only (see C03 for their distribution)",
    "Left open: text that is no base64url, octets that are no UTF-8, lone surrogates, NaN, update() and setdefault() of FullDict, tokens of size 0",
]
