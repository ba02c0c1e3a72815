"""Drives psion.webtools' encodings (property C28)."""
import json
import os
import random
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import drvlib                                            # noqa: E402
from common import esc                                   # noqa: E402


def points(b):
    """As Points in Codec.tla."""
    return [x if x < 128 else x * 13 if x < 160 else x * 240 if x < 224 else 65536 + x * 3000 for x in b]


def plans(job):
    """An item is [id, octet strings]; a plan is a shuffled lot of calls."""
    for i, items in job["items"]:
        rng = random.Random("%s|codec|%s" % (job["seed"], i))
        ops = []
        for b in items:
            if b == "random":
                b = [rng.choice([0, 255, 62, 63, 128, rng.randrange(256), rng.randrange(256)]) for _ in range(rng.choice([3, 5, 8, 16, 31, 32, 33, 48, 64, 66, 100, 256, 257]))]
                if rng.random() < .3:
                    b = [0] * rng.randint(1, 3) + b
            size = rng.choice([0, 0, len(b), len(b) + rng.randint(1, 9), max(1, len(b) - 1)])
            ops += [["enc", b], ["dec", b], ["num", b, size], ["unnum", b], ["bytes", points(b)], ["text", points(b)]]
        for _ in range(job.get("docs", 3)):
            ops += [["json", rng.random()], ["unjson", rng.random()], ["secret", rng.choice([1, 2, 16, 20, 32, 32, 48, 64, 96, 128, 300])]]
        for n in range(job.get("dicts", 3)):
            ops.append(["new", rng.random()])
        rng.shuffle(ops)
        made = 0
        out = []
        for o in ops:
            out.append(o)
            if o[0] == "new":
                made += 1
            if made and rng.random() < .1:
                out.append(["put", rng.randint(1, made), rng.random()])
        yield {"id": "codec-%s" % (i,), "ops": out}


NAMES = ["alg", "kid", "", "a b", "é", "sub"]


def value(rng, depth=2):
    c = rng.randrange(11 if depth else 8)
    if c < 3:
        return rng.choice(["", "x", "é漢😀", "\u0000\u001f\"\\/", "null", "\u2028", "a" * 50])
    if c < 5:
        return rng.choice([0, 1, -1, 2**53, 2**64 + 1, -2**70, 1.5, 0.1, 1e300, -0.0])
    if c == 5:
        return rng.choice([True, False])
    if c == 6:
        return rng.choice([[], {}, False, ""])
    if c == 7:
        return None
    if c < 9:
        return [value(rng, depth - 1) for _ in range(rng.randint(0, 3))]
    return {rng.choice(NAMES) + str(k): value(rng, depth - 1) for k in range(rng.randint(0, 3))}


def alike(a, b):
    """Equal, of the same types, all the way down."""
    if type(a) is not type(b) and not (isinstance(a, dict) and isinstance(b, dict)):
        return False
    if isinstance(a, dict):
        return set(a) == set(b) and all(alike(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return len(a) == len(b) and all(alike(x, y) for x, y in zip(a, b))
    return a == b and repr(a) == repr(b)


def show(v):
    return "" if v is None else esc(json.dumps(v, sort_keys=True)) or "?"


class Run:
    def __init__(self, plan):
        from psion import webtools
        from common import b64u
        self.w, self.b64u, self.plan, self.ev, self.dicts = webtools, b64u, plan, [], []

    def call(self, e, f):
        try:
            e.update(f())
            e["err"] = ""
        except Exception as x:
            e["err"] = type(x).__name__
        self.ev.append(e)

    @staticmethod
    def octets(x):
        if not isinstance(x, (bytes, bytearray)):
            raise TypeError("not octets")
        return list(x)

    def do_enc(self, b):
        self.call(dict(op="enc", b=b, t=[]), lambda: dict(t=self.octets(self.w.base64url_encode(bytes(b)))))

    def do_dec(self, b):
        t = self.b64u(bytes(b)).encode()
        self.call(dict(op="dec", t=list(t), b=[]), lambda: dict(b=self.octets(self.w.base64url_decode(t))))

    def do_num(self, b, size):
        n = int.from_bytes(bytes(b), "big")
        d = list(n.to_bytes((n.bit_length() + 7) // 8, "big"))
        self.call(dict(op="num", d=d, size=size, t=[]), lambda: dict(t=self.octets(self.w.int_to_b64(n, size) if size else self.w.int_to_b64(n))))

    def do_unnum(self, b):
        t = self.b64u(bytes(b) or b"\0")

        def f():
            n = self.w.b64_to_int(t if len(b) % 2 else t.encode())
            if type(n) is not int or n < 0:
                raise TypeError("not a number")
            return dict(d=list(n.to_bytes((n.bit_length() + 7) // 8, "big")))
        self.call(dict(op="unnum", t=list(t.encode()), d=[]), f)

    def do_bytes(self, cs):
        self.call(dict(op="bytes", t=cs, b=[]), lambda: dict(b=self.octets(self.w.to_bytes("".join(map(chr, cs))))))

    def do_text(self, cs):
        b = "".join(map(chr, cs)).encode("utf-8")

        def f():
            s = self.w.to_string(b)
            if type(s) is not str:
                raise TypeError("not text")
            return dict(t=[ord(c) for c in s])
        self.call(dict(op="text", t=[], b=list(b)), f)

    def doc(self, seed):
        rng = random.Random(seed)
        return rng, {rng.choice(NAMES) + str(k): value(rng) for k in range(rng.randint(0, 5))}

    def do_json(self, seed):
        rng, d = self.doc(seed)

        def f():
            s = self.w.json_dumps(d)
            return dict(same=isinstance(s, str) and alike(json.loads(s), d) and alike(self.w.json_loads(s), d))
        self.call(dict(op="json", same=False), f)

    def do_unjson(self, seed):
        rng, d = self.doc(seed)
        s = json.dumps(d, ensure_ascii=rng.random() < .5, indent=rng.choice([None, None, 1]), separators=rng.choice([None, (",", ":")]))
        self.call(dict(op="unjson", same=False), lambda: dict(same=alike(self.w.json_loads(s.encode() if rng.random() < .5 else s), d)))

    def content(self, d):
        return [dict(k=esc(k), v=show(v)) for k, v in d.items()]

    def do_new(self, seed):
        rng = random.Random(seed)
        src = {k: value(rng) for k in rng.sample(NAMES, rng.randint(0, 4))}
        kw = {k: value(rng) for k in rng.sample(["alg", "kid", "sub", "n"], rng.randint(0, 3))}
        style = rng.choice(["dict", "both", "kw", "none"])
        es = ([] if style in ("kw", "none") else list(src.items())) + ([] if style in ("dict", "none") else list(kw.items()))
        before = show(src)

        def f():
            x = self.w.FullDict(*([src] if style in ("dict", "both") else [None] if style == "none" else []), **(kw if style in ("both", "kw") else {}))
            self.dicts.append(x)
            got = self.content(x)
            ok = show(src) == before
            src["later"] = 1            # what becomes of its source is no matter of the dictionary
            src.pop("kid", None)
            for v in src.values():
                if isinstance(v, list):
                    v.append("later")
                elif isinstance(v, dict):
                    v["later"] = 1
            return dict(got=got, src=ok and self.content(x) == got)
        n = len(self.dicts)
        self.call(dict(op="new", es=[dict(k=esc(k), v=show(v)) for k, v in es], got=[], src=False), f)
        if len(self.dicts) == n:
            self.dicts.append({})

    def do_put(self, n, seed):
        rng = random.Random(seed)
        k, v = rng.choice(NAMES), rng.choice([None, None, value(rng)])

        def f():
            others = [self.content(x) for i, x in enumerate(self.dicts) if i != n - 1]
            self.dicts[n - 1][k] = v
            return dict(got=self.content(self.dicts[n - 1]), src=others == [self.content(x) for i, x in enumerate(self.dicts) if i != n - 1])
        self.call(dict(op="put", n=n, k=esc(k), v=show(v), got=[], src=False), f)

    def do_secret(self, size):
        def f():
            s = self.w.secret_token(size)
            if type(s) is not str:
                raise TypeError("not text")
            return dict(t=[ord(c) for c in s])
        self.call(dict(op="secret", size=size, t=[]), f)


def execute(p):
    r = Run(p)
    for o in p["ops"]:
        getattr(r, "do_" + o[0])(*o[1:])
    return {"id": p["id"], "ev": r.ev}


def outcome(e):
    return e["op"] + (" raised" if e["err"] else "")


if __name__ == "__main__":
    drvlib.main(plans, execute, outcome)
