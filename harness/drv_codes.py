"""Statistics of authorization codes: unrepeated, independent of clock, data and
seedable generators, and of at least 128 bits (property C03)."""
import asyncio
import json
import math
import os
import random
import subprocess
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from scheds import SchedMaker   # noqa: E402


KINDS = 8


def kinds(a, b, scopes):
    """Requests of KINDS different shapes."""
    def but(q, **k):
        out = [[n, k[n]] if n in k else [n, v] for n, v in q["q"]]
        return dict(q, q=[x for x in out if x[1] is not None])
    got = [a, b, but(a, scope=" ".join(scopes)), but(a, state=None), but(a, nonce=None, scope=scopes[0]),
           but(a, scope=" ".join(scopes[:3]), state="s" * 200), but(a, code_challenge="c" * 128, code_challenge_method="plain"),
           but(b, state=None, nonce=None)]
    assert len(got) == KINDS
    return got


def issue(seed, n):
    import world
    m = SchedMaker(seed)
    p, _, _ = m.base("autA+autB", 0)
    p = dict(p, id="codes", steps=[], adapter=dict(p["adapter"], gates="none"), reqs=dict(p["reqs"]))
    shapes = kinds(p["reqs"]["r1"], p["reqs"]["r2"], p["clients"][0]["scopes"])
    for i in range(n):
        p["reqs"]["c%d" % i] = shapes[i % len(shapes)]
    w = world.World(p)

    async def go():
        for i in range(n):
            random.seed(7)
            await w.start("c%d" % i)
            while not w.reqs["c%d" % i].done:
                await asyncio.sleep(0)
        return [w.reqs["c%d" % i].resp.get("code") or "" for i in range(n)]
    return asyncio.new_event_loop().run_until_complete(go())


def bits(codes):
    """Sum of the entropies of the positions, leaving out positions that follow
    from another one by a shift."""
    n = min(map(len, codes))
    cols = [[ord(c[i]) for c in codes] for i in range(n)]
    N = len(codes)

    def top(xs):
        cnt = {}
        for x in xs:
            cnt[x] = cnt.get(x, 0) + 1
        return cnt
    kept = []
    total = 0.0
    for c in cols:
        if any(max(top(a - b for a, b in zip(c, k)).values()) > .3 * N for k in kept):
            continue
        h = -sum(v / N * math.log2(v / N) for v in top(c).values())
        if h > .01:
            kept.append(c)
            total += h
    return total


def main():
    if len(sys.argv) == 4:
        print(json.dumps(issue(sys.argv[2], int(sys.argv[3]))))
        return
    job = json.load(open(sys.argv[1]))
    sets = []
    for _ in range(2):
        o = subprocess.run([sys.executable, "-W", "ignore", os.path.abspath(__file__), "-", str(job["seed"]), str(job["n"])],
                           stdout=subprocess.PIPE, check=True).stdout
        sets.append(json.loads(o))
    a, b = sets
    flat = a + b
    ev = dict(e="stats", repeats=len(flat) - len(set(flat)), reseeded=len(set(a) & set(b)),
              bits=min(int(bits(g)) if min(map(len, g)) else 0 for g in [[c for s in sets for c in s[k::KINDS]] for k in range(KINDS)]), codes=len(flat))
    p, _, _ = SchedMaker(job["seed"]).base("autA+autB", 0)
    import world
    w = object.__new__(world.World)
    w.p, w.reqs, w.ev = dict(p, id="codes"), {}, [ev]
    t = world.World.trace(w)
    json.dump(dict(t, id=job.get("prefix", "") + t["id"]), open(job["out"], "w"))
    open(job["out"], "a").write("\n")
    print(json.dumps({"ran": 2 * job["n"], "scenarios": 1, "answers": {"bits": ev["bits"], "codes": len(flat)}}))


if __name__ == "__main__":
    j = sys.argv
    if len(j) == 2:
        d = json.load(open(j[1]))
        if d.get("dump"):
            json.dump([dict(id=x, n=d["n"]) for x in d["dump"]], open(d["out"], "w"))
            sys.exit(0)
        if d.get("kind") == "plans":
            d["n"] = d["items"][0]["n"]
            json.dump(d, open(j[1], "w"))
    main()
