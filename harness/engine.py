"""Runs the streams of a check: scenarios made from the specification are
driven into psion, the recorded traces are validated by TLC."""
import json
import os
import random

import lib


class Stream:
    """items are handed to the driver in slices; module validates its traces."""

    def __init__(self, name, driver, module, items, tz=None, **job):
        self.name, self.driver, self.module, self.items, self.tz, self.job = name, driver, module, items, tz, job


def sample(items, n, seed):
    items = list(items)
    if n is None or len(items) <= n:
        return items
    return random.Random("sample|%s" % seed).sample(items, n)


class Result:
    def __init__(self):
        self.scenarios = self.states = self.ran = 0
        self.viols = []             # (stream, slice, scenario id, event, property, clause)
        self.streams = {}
        self.samples = []


def run(streams, seed, work, workers=None):
    workers = workers or lib.CORES
    res = Result()
    todo = []
    for m in dict.fromkeys(s.module for s in streams):
        for i in range(workers):
            todo.append((m, i))

    def one(m, i):
        path = os.path.join(work, "trace-%s-%d.ndjson" % (m, i))
        info = []
        first = None
        with open(path, "w") as out:
            for k, s in enumerate(streams):
                part = s.items[i::workers]
                if s.module != m or not part:
                    continue
                p = os.path.join(work, "part-%d-%d.ndjson" % (k, i))
                d = lib.drive(s.driver, dict(s.job, items=part, seed=seed, out=p, prefix="%d:" % k), work,
                              "job-%d-%d" % (k, i), tz=s.tz)
                info.append((k, d))
                with open(p) as f:
                    for l in f:
                        if first is None and len(l) < 20000:
                            first = l
                        out.write(l)
                os.remove(p)
        n, st, v = lib.validate(path, m, work, "val-%s-%d" % (m, i)) if info else (0, 0, [])
        os.remove(path)
        return i, info, n, st, v, first
    for i, info, n, st, v, first in lib.pool(one, todo, workers):
        res.scenarios += n
        res.states += st
        if first:
            res.samples.append(json.loads(first))
        for k, d in info:
            t = res.streams.setdefault(streams[k].name, {"made": len(streams[k].items), "run": 0, "validated": 0, "outcomes": {}})
            t["run"] += d.get("ran", d.get("scenarios", 0))
            t["validated"] += d.get("scenarios", 0)
            for a, c in (d.get("answers") or {}).items():
                t["outcomes"][a] = t["outcomes"].get(a, 0) + c
            res.ran += d.get("ran", d.get("scenarios", 0))
            for sid, exc, text in d.get("odd") or ():
                res.viols.append((k, i, sid, 0, "ANY", "unreadable behaviour: %s" % exc))
        for x in v:
            k, _, sid = x["s"].partition(":")
            for p, c in x["v"]:
                res.viols.append((int(k), i, sid, x["l"], p, c))
    return res


def plan_of(stream, i, workers, sid, seed, work):
    """The concrete scenario with the given id."""
    p = os.path.join(work, "dump.json")
    lib.drive(stream.driver, dict(stream.job, items=stream.items[i::workers], seed=seed, out=p, dump=[sid]), work, "dump", tz=stream.tz)
    got = json.load(open(p))
    return got[0] if got else None


def rerun(driver, module, plan, seed, work, tz=None, extra=None):
    p = os.path.join(work, "rerun.ndjson")
    d = lib.drive(driver, dict(extra or {}, kind="plans", items=[plan], seed=seed, out=p), work, "rerun", tz=tz)
    odd = d.get("odd")
    if odd:
        return odd, [(0, "ANY", "unreadable behaviour: %s" % x[1]) for x in odd]
    trace = json.loads(open(p).readline())
    n, st, v = lib.validate(p, module, work, "rerunval")
    return trace, [(x["l"], a, b) for x in v for a, b in x["v"]]
