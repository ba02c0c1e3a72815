"""Running TLC and the drivers."""
import concurrent.futures as cf
import json
import os
import random
import re
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
PY = "/opt/venv/bin/python"
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CORES = os.cpu_count() or 4
REPO = os.environ.get("VP_REPO", "/repo")     # elsewhere only while developing the checks
SHIM = os.path.join(VERIF, "build", "clock.so")


class Broken(Exception):
    """The machinery failed; says nothing about the property."""


def shim():
    if not os.path.exists(SHIM):
        os.makedirs(os.path.dirname(SHIM), exist_ok=True)
        tmp = SHIM + ".%d" % os.getpid()
        subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-o", tmp, os.path.join(HARNESS, "clock.c"), "-ldl"], check=True)
        os.replace(tmp, SHIM)


def cfg_text(spec="Spec", constants=None, invariants=(), properties=(), extra=""):
    out = ["SPECIFICATION " + spec]
    if constants:
        out.append("CONSTANTS")
        for k, v in constants.items():
            out.append("  %s = %s" % (k, tla(v)))
    if invariants:
        out.append("INVARIANTS " + " ".join(invariants))
    if properties:
        out.append("PROPERTIES " + " ".join(properties))
    out.append("CHECK_DEADLOCK FALSE")
    return "\n".join(out) + "\n" + extra


def tla(v):
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return '"%s"' % v
    if isinstance(v, (set, frozenset)):
        return "{%s}" % ", ".join(sorted(tla(x) for x in v))
    if isinstance(v, (list, tuple)):
        return "<<%s>>" % ", ".join(tla(x) for x in v)
    raise TypeError(v)


class Tlc:
    def __init__(self, out, rc):
        self.out, self.rc = out, rc
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        self.generated, self.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        if not m:
            m = re.findall(r"The number of states generated: (\d+)", out)
            if m:
                self.generated = self.distinct = int(m[-1])
        self.violated = re.findall(r"(?:Invariant|Action property|Temporal property|Temporal properties) ?(\w*).*? (?:is|was|were) violated", out)
        self.ok = "No error has been found" in out or (rc == 0 and "Error:" not in out)

    def lines(self, tag):
        pre = '"%s ' % tag
        for l in self.out.splitlines():
            if l.startswith(pre):
                yield json.loads(json.loads(l)[len(tag) + 1:])


def tlc(module, cfg, work, name, env=None, workers=1, timeout=800, args=(), mem="2g", c2=None):
    d = os.path.join(work, name)
    os.makedirs(d, exist_ok=True)
    cf_ = os.path.join(d, "M.cfg")
    with open(cf_, "w") as f:
        f.write(cfg)
    gc = "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC"
    if not c2:      # short runs: the optimising compiler costs more than it gains
        gc += " -XX:TieredStopAtLevel=1"
    cmd = ["java", *gc.split(), "-Xss16m", "-Xmx" + mem, "-Djava.io.tmpdir=" + d, "-cp", JAR, "tlc2.TLC", "-workers", str(workers),
           "-metadir", os.path.join(d, "md"), "-noGenerateSpecTE", "-config", cf_, *args, os.path.join(SPEC, module + ".tla")]
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired as exc:
        raise Broken("TLC on %s exceeded %ss" % (module, timeout)) from exc
    out = p.stdout.decode("utf-8", "replace")
    shutil.rmtree(os.path.join(d, "md"), ignore_errors=True)
    return Tlc(out, p.returncode)


def tlc_must(module, cfg, work, name, **k):
    r = tlc(module, cfg, work, name, **k)
    if not r.ok:
        raise Broken("TLC on %s (%s): %s" % (module, name, r.out[-1500:]))
    return r


def drive(driver, job, work, name, timeout=600, tz=None, again=True):
    """Runs a driver on a job; the trace is at job['out']."""
    jf = os.path.join(work, name + ".job.json")
    with open(jf, "w") as f:
        json.dump(job, f)
    env = dict(os.environ, LD_PRELOAD=SHIM, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED=str(job.get("seed", 0) % 1000),
               PYTHONPATH=os.path.join(REPO, "src"), TZ=tz or "UTC")
    try:
        p = subprocess.run([PY, "-W", "ignore", os.path.join(HARNESS, driver), jf], env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, timeout=timeout, cwd=work)
    except subprocess.TimeoutExpired as exc:
        raise Broken("driver %s exceeded %ss" % (driver, timeout)) from exc
    if p.returncode < 0 and again:      # killed from outside, perhaps
        return drive(driver, job, work, name, timeout, tz, False)
    if p.returncode != 0:
        raise Broken("driver %s failed (%d): %s" % (driver, p.returncode, p.stderr.decode("utf-8", "replace")[-1500:]))
    try:
        return json.loads(p.stdout.decode().strip().splitlines()[-1])
    except Exception:
        return {}


def count_events(path):
    n = s = 0
    with open(path) as f:
        for l in f:
            s += 1
            n += len(json.loads(l)["ev"])
    return s, n


def validate(trace, module, work, name, timeout=800):
    """Trace validation with TLC: (scenarios, states, violations)."""
    s, n = count_events(trace)
    if s == 0:
        return 0, 0, []
    r = tlc(module, open(os.path.join(SPEC, module + ".cfg")).read(), work, name, env={"VP_TRACE": trace}, timeout=timeout,
            mem="3g", c2=n > 60000)
    at = re.findall(r"^/\\ s = (\d+)$", r.out, re.M) if not r.ok else None
    if at:      # an event outside the vocabulary of the specification
        lines = open(trace).read().splitlines()
        bad = json.loads(lines[int(at[-1]) - 1])["id"]
        v = list(r.lines("VIOL"))
        v.append({"s": bad, "l": int(re.findall(r"^/\\ l = (\d+)$", r.out, re.M)[-1]), "v": [["ANY", "unreadable behaviour: event"]]})
        return s, r.generated, v
    if not r.ok or r.generated != n + s:
        raise Broken("trace validation of %s: %d states for %d events and %d scenarios; %s" % (
            trace, r.generated, n, s, r.out[-2500:]))
    return s, r.generated, list(r.lines("VIOL"))


def split(items, n):
    n = max(1, min(n, len(items)))
    return [items[i::n] for i in range(n)]


def pool(fn, items, workers=None):
    with cf.ThreadPoolExecutor(workers or CORES) as ex:
        return [f.result() for f in [ex.submit(fn, *i) for i in items]]
