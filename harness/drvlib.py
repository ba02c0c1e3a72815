"""The frame of a driver: plans in, traces out."""
import json
import signal
import sys


class Stuck(BaseException):
    pass


def main(plans, execute, outcome, limit=20):
    """plans(job) yields plans; execute(plan) gives a trace; outcome(event) names what happened."""
    job = json.load(open(sys.argv[1]))

    def alarm(*a):
        raise Stuck("no progress")
    signal.signal(signal.SIGALRM, alarm)

    def todo():
        if job["kind"] == "plans":
            yield from job["items"]
        else:
            yield from plans(job)
    if job.get("dump"):
        want = set(job["dump"])
        json.dump([p for p in todo() if p["id"] in want], open(job["out"], "w"))
        return
    n = ev = 0
    kinds = {}
    odd = []
    with open(job["out"], "w") as f:
        for p in todo():
            signal.setitimer(signal.ITIMER_REAL, limit)
            try:
                t = execute(p)
            except (Exception, Stuck) as exc:       # what the code did is beyond the harness
                odd.append([p["id"], type(exc).__name__, str(exc)[:200]])
                if len(odd) >= 20:
                    break
                continue
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
            f.write(json.dumps(dict(t, id=job.get("prefix", "") + t["id"])) + "\n")
            n += 1
            ev += len(t["ev"])
            for e in t["ev"]:
                k = outcome(e)
                kinds[k] = kinds.get(k, 0) + 1
    print(json.dumps({"ran": n, "scenarios": n, "events": ev, "answers": kinds, "odd": odd}))
