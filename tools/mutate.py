#!/usr/bin/env python3
"""mutate.py list|run OUT [--only REGEX] [--sample N] [--seed S]

Systematic small changes to psion, to measure the checks.  Each mutant is made
in a scratch copy of /repo; those the repository's tests notice are dropped;
the rest is given to the checks that concern the changed file, until one of
them reports a violation (of any property).  Survivors are for reading: most
are equivalent or concern what no property constrains.
"""
import ast
import importlib
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path[:0] = [HERE, os.path.join(HERE, "harness")]
import check    # noqa: E402
import engine   # noqa: E402
import lib      # noqa: E402

OAUTH = ["C10", "C01", "C15", "C13", "C05", "C26", "C27", "C29", "C14", "C03"]
CHECKS = [
    (r"oauth2/(grants|endpoints|authentication|adapter|mixins|config|exceptions|models/scopes)", OAUTH),
    (r"oauth2/models/http|oauth2/providers/starlette", ["C25", "C10"]),
    (r"oauth2/providers/base", ["C14", "C27", "C10", "C15"]),
    (r"webtools", ["C25", "C28", "C21", "C13", "C24", "C10"]),
    (r"oidc/", ["C13", "C20", "C14", "C15"]),
    (r"jose/jwt", ["C20", "C19", "C23", "C17", "C16"]),
    (r"jose/jws", ["C23", "C16", "C17", "C18", "C24"]),
    (r"jose/jwa/jws", ["C24", "C16", "C17", "C23", "C18"]),
    (r"jose/jwk", ["C21", "C22", "C18", "C23"]),
    (r"jose/jwa/jwk", ["C21", "C24", "C18", "C16", "C22"]),
    (r"jose/exceptions", ["C23", "C16"]),
]


def edits(src):
    """(start, end, text, what) over the source text."""
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    offs = [0]
    for l in lines:
        offs.append(offs[-1] + len(l.encode()))
    raw = src.encode()

    def pos(n):
        return offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset

    def text(n):
        a, b = pos(n)
        return raw[a:b].decode()
    out = []
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for a in n.args.args + n.args.kwonlyargs + [x for x in (n.args.vararg, n.args.kwarg) if x]:
                if a.annotation is not None:
                    skip.update(map(id, ast.walk(a.annotation)))
            if n.returns is not None:
                skip.update(map(id, ast.walk(n.returns)))
        if isinstance(n, ast.AnnAssign):
            skip.update(map(id, ast.walk(n.annotation)))
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant) and isinstance(n.value.value, str):
            skip.update(map(id, ast.walk(n)))
        if isinstance(n, ast.Raise) and isinstance(n.exc, ast.Call):      # messages
            for a in list(n.exc.args) + [k.value for k in n.exc.keywords if k.arg in ("description", None)]:
                skip.update(map(id, ast.walk(a)))
        if isinstance(n, ast.Call):
            for k in n.keywords:
                if k.arg in ("description", "error_description"):
                    skip.update(map(id, ast.walk(k.value)))
        if isinstance(n, ast.JoinedStr):
            for v in n.values:
                skip.update(map(id, ast.walk(v)))

    def put(n, t, what):
        a, b = pos(n)
        out.append((a, b, t, "%d: %s" % (n.lineno, what)))
    CMP = {ast.Lt: ["<=", ">"], ast.LtE: ["<", ">"], ast.Gt: [">=", "<"], ast.GtE: [">", "<"], ast.Eq: ["!="], ast.NotEq: ["=="],
           ast.In: ["not in"], ast.NotIn: ["in"], ast.Is: ["is not"], ast.IsNot: ["is"]}
    for n in ast.walk(tree):
        if id(n) in skip:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for o in CMP[type(n.ops[0])]:
                put(n, "%s %s %s" % (text(n.left), o, text(n.comparators[0])), "compare %s -> %s" % (text(n), o))
        if isinstance(n, ast.BoolOp):
            o = " or " if isinstance(n.op, ast.And) else " and "
            put(n, "(" + o.join("(%s)" % text(v) for v in n.values) + ")", "boolop %s ->%s" % (text(n)[:60], o))
            for i in range(len(n.values)):
                s = " and " if isinstance(n.op, ast.And) else " or "
                rest = [v for j, v in enumerate(n.values) if j != i]
                put(n, "(" + s.join("(%s)" % text(v) for v in rest) + ")", "drop %s" % text(n.values[i])[:60])
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            put(n, "(%s)" % text(n.operand), "drop not of %s" % text(n.operand)[:60])
        if isinstance(n, (ast.If, ast.IfExp, ast.While)):
            put(n.test, "(True or (%s))" % text(n.test) if not any(isinstance(x, ast.NamedExpr) for x in ast.walk(n.test)) else
                "((%s) or True)" % text(n.test), "if %s -> True" % text(n.test)[:60])
            put(n.test, "((%s) and False)" % text(n.test), "if %s -> False" % text(n.test)[:60])
        if isinstance(n, ast.Constant):
            v = n.value
            if isinstance(v, bool):
                put(n, str(not v), "%s -> %s" % (v, not v))
            elif isinstance(v, int):
                put(n, str(v + 1), "%s -> %s" % (v, v + 1))
                put(n, "(%d)" % (v - 1), "%s -> %s" % (v, v - 1))
            elif isinstance(v, str) and len(v) < 60:
                put(n, repr(v + "x"), "%r -> +x" % v)
                if v:
                    put(n, '""', "%r -> empty" % v)
            elif isinstance(v, bytes):
                put(n, repr(v + b"x"), "%r -> +x" % v)
        if isinstance(n, ast.Raise):
            put(n, "pass", "drop %s" % text(n)[:60].replace("\n", " "))
        if isinstance(n, ast.Expr) and not isinstance(n.value, (ast.Constant, ast.Yield)):
            put(n, "pass", "drop %s" % text(n)[:60].replace("\n", " "))
        if isinstance(n, ast.Return) and n.value is not None and not (isinstance(n.value, ast.Constant) and n.value.value is None):
            put(n, "return None", "return None for %s" % text(n.value)[:50].replace("\n", " "))
        if isinstance(n, ast.Assign) and not isinstance(n.targets[0], ast.Name):
            put(n, "pass", "drop %s" % text(n)[:60].replace("\n", " "))
        if isinstance(n, (ast.List, ast.Tuple, ast.Set)) and isinstance(getattr(n, "ctx", ast.Load()), ast.Load) and len(n.elts) > 1:
            b = {ast.List: "[]", ast.Tuple: "()", ast.Set: "{}"}[type(n)]
            for i, e in enumerate(n.elts):
                rest = [text(x) for j, x in enumerate(n.elts) if j != i]
                put(n, b[0] + ", ".join(rest) + ("," if b == "()" and len(rest) == 1 else "") + b[1], "drop element %s" % text(e)[:40])
        if isinstance(n, ast.Dict) and len(n.keys) > 0 and all(k is not None for k in n.keys):
            for i in range(len(n.keys)):
                rest = ["%s: %s" % (text(k), text(v)) for j, (k, v) in enumerate(zip(n.keys, n.values)) if j != i]
                put(n, "{" + ", ".join(rest) + "}", "drop entry %s" % text(n.keys[i])[:40])
        if isinstance(n, ast.Call):
            for i, k in enumerate(n.keywords):
                if k.arg and k.arg != "description":
                    args = [text(a) for a in n.args] + [("%s=%s" % (x.arg, text(x.value)) if x.arg else "**" + text(x.value))
                                                        for j, x in enumerate(n.keywords) if j != i]
                    put(n, "%s(%s)" % (text(n.func), ", ".join(args)), "drop argument %s" % k.arg)
            if isinstance(n.func, ast.Name) and n.func.id in ("any", "all"):
                put(n.func, "all" if n.func.id == "any" else "any", "%s swapped" % n.func.id)
        if isinstance(n, ast.BinOp):
            o = {ast.Add: "-", ast.Sub: "+", ast.Mult: "//", ast.FloorDiv: "*", ast.Div: "*"}.get(type(n.op))
            if o:
                put(n, "(%s) %s (%s)" % (text(n.left), o, text(n.right)), "binop %s -> %s" % (text(n)[:50], o))
        if isinstance(n, ast.Await):
            pass
    return raw, out


def mutants():
    src = os.path.join("/repo", "src", "psion")
    for d, _, fs in sorted(os.walk(src)):
        for f in sorted(fs):
            if not f.endswith(".py"):
                continue
            p = os.path.join(d, f)
            rel = os.path.relpath(p, src)
            raw, es = edits(open(p).read())
            for a, b, t, what in es:
                new = raw[:a] + t.encode() + raw[b:]
                try:
                    compile(new, p, "exec")
                except (SyntaxError, ValueError):
                    continue
                yield rel, what, new


def judge(streams, prop, part, seed, work):
    """The first clause of any property that a fraction of the check's scenarios finds broken."""
    ss = [engine.Stream(x.name, x.driver, x.module, engine.sample(x.items, max(1, len(x.items) // part), seed), x.tz, **x.job)
          for x in streams[prop]]
    res = engine.run(ss, 1, work, workers=1)
    v = [x for x in res.viols if x[4] != "MODEL"]
    return "%s %s" % v[0][4:6] if v else ""


def worker(args):
    k, ms, streams, part, out = args
    copy = tempfile.mkdtemp(prefix="vp-mut%d-" % k)
    subprocess.run("cp -a /repo/. %s/" % copy, shell=True, check=True)
    lib.REPO = copy
    try:
        for rel, what, new in ms:
            subprocess.run(["git", "-C", copy, "checkout", "-q", "--", "."], check=True)
            with open(os.path.join(copy, "src", "psion", rel), "wb") as f:
                f.write(new)
            r = dict(file=rel, what=what, by="")
            try:
                t = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider",
                                    "--deselect", "tests/jose/test_jwk.py::TestJsonWebKey::test_instantiate", "tests"], cwd=copy,
                                   env=dict(os.environ, PYTHONPATH=os.path.join(copy, "src"), PYTHONDONTWRITEBYTECODE="1"),
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120).returncode
            except subprocess.TimeoutExpired:
                t = 1
            if t:
                r["by"] = "tests"
            else:
                for p in checks_of(rel):
                    work = tempfile.mkdtemp(prefix="vp-mutw-")
                    try:
                        c = judge(streams, p, part, 1, work)
                    except lib.Broken as exc:
                        r.setdefault("broken", []).append(p + ":" + str(exc)[-300:])
                        continue
                    finally:
                        shutil.rmtree(work, ignore_errors=True)
                    if c:
                        r["by"], r["clause"] = p, c
                        break
            with open(out, "a") as f:
                f.write(json.dumps(r) + "\n")
    finally:
        shutil.rmtree(copy, ignore_errors=True)


def checks_of(rel):
    return next((c for k, c in CHECKS if re.search(k, rel)), OAUTH)


def main():
    import argparse
    import multiprocessing
    ap = argparse.ArgumentParser()
    ap.add_argument("mode")
    ap.add_argument("out")
    ap.add_argument("--only", default="")
    ap.add_argument("--sample", type=int, default=0)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--part", type=int, default=6, help="which fraction of the scenarios")
    ap.add_argument("--again", default="", help="only the survivors listed in this file")
    ap.add_argument("--procs", type=int, default=8)
    o = ap.parse_args()
    ms = [m for m in mutants() if re.search(o.only, m[0])]
    if o.again:
        want = {(x["file"], x["what"]) for x in map(json.loads, open(o.again)) if not x["by"]}
        ms = [m for m in ms if (m[0], m[1]) in want]
    if o.sample:
        ms = random.Random(o.seed).sample(ms, min(o.sample, len(ms)))
    if os.path.exists(o.out):
        done = {(x["file"], x["what"]) for x in map(json.loads, open(o.out))}
        ms = [m for m in ms if (m[0], m[1]) not in done]
    if o.mode == "list":
        for rel, what, _ in ms:
            print(rel, what.replace("\n", " "))
        return
    lib.shim()
    streams = {}
    for p in dict.fromkeys(p for m in ms for p in checks_of(m[0])):
        work = tempfile.mkdtemp(prefix="vp-muts-")
        streams[p] = importlib.import_module(check.DOMAIN[p]).streams(p, "quick", 1, work)
        shutil.rmtree(work, ignore_errors=True)
    random.Random(3).shuffle(ms)
    with multiprocessing.Pool(o.procs) as pool:
        pool.map(worker, [(k, ms[k::o.procs * 4], streams, o.part, o.out) for k in range(o.procs * 4)], chunksize=1)


if __name__ == "__main__":
    main()
