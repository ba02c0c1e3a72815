#!/usr/bin/env python3
"""check.py <property> [quick|thorough] - decides one property on /repo's tree."""
import importlib
import json
import os
import shutil
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(HERE, "harness"))
import engine   # noqa: E402
import lib      # noqa: E402

DOMAIN = {}
for _i in (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 26, 29):
    DOMAIN["C%02d" % _i] = "oauth_check"
DOMAIN.update({"C14": "hooks_check", "C16": "jose_check", "C17": "jose_check", "C18": "jose_check", "C23": "jose_check",
               "C24": "jose_check", "C19": "claims_check", "C20": "claims_check", "C21": "jwk_check", "C22": "jwk_check",
               "C25": "http_check", "C27": "dispatch_check", "C28": "codec_check"})


def known(prop):
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("KNOWN-FINDING: property=%s " % prop):
                out.append(json.loads(l.split(" ", 2)[2]))
    return out


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    d = importlib.import_module(DOMAIN[prop])
    work = tempfile.mkdtemp(prefix="vp-%s-" % prop)
    try:
        lib.shim()
        rc = decide(prop, tier, seed, d, work, t0)
    except lib.Broken as exc:
        print("CHECK-BROKEN property=%s %s" % (prop, exc))
        rc = 2
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)


def decide(prop, tier, seed, d, work, t0):
    models = d.model(prop, tier, work)
    t1 = time.time()
    streams = d.streams(prop, tier, seed, work)
    t2 = time.time()
    res = engine.run(streams, seed, work)
    t3 = time.time()
    if os.environ.get("VP_VERBOSE"):
        print("model %.1fs, generation %.1fs, replay and validation %.1fs" % (t1 - t0, t2 - t1, t3 - t2))
        for k, v in res.streams.items():
            print("  ", k, v)
    wrong = [v for v in res.viols if v[4] == "MODEL"]
    if wrong and len(wrong) == len(res.viols):      # otherwise a consequence of what the code does wrong
        raise lib.Broken("the specification predicts otherwise than the harness makes: %s" % (wrong[:3],))
    mine = d.relevant(prop, res.viols, streams)
    odd = [v for v in res.viols if v[4] == "ANY"]
    if not mine:        # the code did what has no meaning in the specification
        mine = odd
    if os.environ.get("VP_VERBOSE"):
        cnt = {}
        for v in res.viols:
            cnt[v[4:]] = cnt.get(v[4:], 0) + 1
        for k, c in sorted(cnt.items()):
            print("  ", c, k)
    reported = report(prop, tier, seed, mine, streams, work)
    cov = {
        "states": sum(m[1] for m in models) + res.states,
        "transitions": sum(m[2] for m in models) + res.states - res.scenarios,
        "traces_validated_against_impl": res.scenarios,
        "scenarios_run": res.ran,
        "model_runs": [{"run": m[0], "distinct_states": m[1], "states_generated": m[2]} for m in models],
        "streams": res.streams,
        "samples": res.samples[:2],
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
          "assumptions": d.ASSUMPTIONS, "wall_s": round(time.time() - t0, 2), "violations": len(reported)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for p in reported:
        print("VIOLATION property=%s replay=%s" % (prop, p))
    print("%s %s: %d model states, %d scenarios run, %d traces validated, %.1fs: %s" % (
        prop, tier, sum(m[1] for m in models), res.ran, res.scenarios, time.time() - t0, "BROKEN" if reported else "held"))
    return 1 if reported else 0


def report(prop, tier, seed, mine, streams, work):
    """One replay file per broken clause."""
    out = []
    accepted = known(prop)
    byclause = {}
    for v in mine:
        byclause.setdefault(v[5], []).append(v)
    for clause, vs in sorted(byclause.items()):
        if len(out) >= 5:
            break
        hit = [k for k in accepted if k["clause"] == clause]
        if hit and all(any(v[2] in k["scenarios"] for k in hit) for v in vs):
            print("KNOWN-FINDING: property=%s %s" % (prop, hit[0]["what"]))
            continue
        for v in vs[:3]:
            s = streams[v[0]]
            plan = trace = None
            again = []
            for i in range(lib.CORES):
                try:
                    plan = engine.plan_of(s, v[1], lib.CORES, v[2], seed, work)
                except lib.Broken:
                    pass
                break
            if plan is not None:
                try:
                    trace, again = engine.rerun(s.driver, s.module, plan, seed, work, s.tz, s.job)
                except lib.Broken as exc:
                    again = [(0, "", str(exc))]
            same = any(a[2] == clause for a in again)
            if not same and ("Stuck" in clause or "unreadable" in clause or "no answer" in clause):
                continue        # the machine was slow
            d = os.path.join(HERE, "out", "replay")
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, "%s-%s-%d.json" % (prop, tier, len(out) + 1))
            with open(path, "w") as f:
                json.dump({"property": prop, "clause": clause, "scenario": v[2], "event": v[3], "stream": s.name, "driver": s.driver,
                           "module": s.module, "tz": s.tz, "seed": seed, "reproduced": same, "occurrences": len(vs), "job": s.job,
                           "plan": plan, "trace": trace}, f, indent=1)
            print("property %s broken: %s (scenario %s, event %d; %d occurrences)" % (prop, clause, v[2], v[3], len(vs)))
            out.append(path)
            break
    return out


if __name__ == "__main__":
    main()
