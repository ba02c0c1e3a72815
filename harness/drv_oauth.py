"""Makes scenarios, runs them against psion, writes the recorded traces.

job: {kind: cases|scheds|hist|crowd|fuzz|plans, items, seed, ..., out, dump}
"""
import asyncio
import json
import os
import signal
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import cases      # noqa: E402
import scheds     # noqa: E402


def plans(job, run=None):
    k, seed = job["kind"], job["seed"]
    if k == "plans":
        yield from job["items"]
    elif k == "cases":
        m = cases.Maker(seed, job["dims"])
        for e in range(job.get("copies", 1)):
            for c in job["items"]:
                yield m.plan(c, e)
    elif k == "scheds":
        m = scheds.SchedMaker(seed)
        seen = {}
        for s in job["items"]:
            for var in job.get("variants", [0]):
                p = m.plan(s, var, job.get("gates", "pre"))
                if job.get("solo") and run is not None:
                    key = (s["c"], var)
                    if key not in seen:
                        seen[key] = {}
                        for r, sp in m.solos(*key):
                            t = run(sp)
                            yield ("trace", sp, t)
                            if t["ev"]:
                                seen[key][r] = next((e["digest"] for e in t["ev"] if e["e"] == "end" and e["kind"] == "resp"), "")
                    faulty = {"r%d" % s["f"][0]} if s["f"] else set()
                    for r, dg in seen[key].items():
                        if r not in faulty:
                            p["reqs"][r] = dict(p["reqs"][r], solo=dg)
                yield p
    elif k == "hist":
        for n, h in job["items"]:
            yield scheds.history_plan(h, seed, n, job.get("gates", "pre"))
    elif k == "crowd":
        for c in job["items"]:
            yield scheds.crowd_plan(c, seed)
    elif k == "logins":
        for c in job["items"]:
            yield scheds.logins_plan(c, seed)
    elif k == "fuzz":
        import fuzz
        yield from fuzz.plans(job)
    else:
        raise SystemExit("unknown job " + k)


class Stuck(Exception):
    pass


def main():
    job = json.load(open(sys.argv[1]))
    import world

    def alarm(*a):
        raise Stuck("no progress")
    signal.signal(signal.SIGALRM, alarm)
    loop = asyncio.new_event_loop()

    def run(p):
        signal.setitimer(signal.ITIMER_REAL, 20)
        try:
            return loop.run_until_complete(world.World(p).run())
        except Exception as exc:        # the provider could not even be built, or got stuck
            return world.broken(p, exc)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
    if job.get("dump"):
        want = set(job["dump"])
        out = []
        for p in plans(job, run if job.get("solo") else None):
            p = p[1] if isinstance(p, tuple) else p
            if p["id"] in want:
                out.append(p)
        json.dump(out, open(job["out"], "w"))
        return
    n = ev = ran = 0
    kinds = {}
    seen = set()
    with open(job["out"], "w") as f:
        for p in plans(job, run):
            t = p[2] if isinstance(p, tuple) else run(p)
            ran += 1
            if job["kind"] == "scheds":
                # schedules that amount to the same run are validated once
                k = hash(json.dumps(dict(t, id="")))
                if k in seen:
                    continue
                seen.add(k)
            f.write(json.dumps(dict(t, id=job.get("prefix", "") + t["id"])) + "\n")
            n += 1
            ev += len(t["ev"])
            for e in t["ev"]:
                if e["e"] == "end":
                    k = e["kind"] if e["kind"] != "resp" else (
                        "refused" if e["body"]["error"] or (e["hasloc"] and not e["hascode"]) else "granted")
                    kinds[k] = kinds.get(k, 0) + 1
    print(json.dumps({"ran": ran, "scenarios": n, "events": ev, "answers": kinds}))


if __name__ == "__main__":
    main()
