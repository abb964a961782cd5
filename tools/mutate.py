"""Mutation testing of the checks (development tool; nothing in MANIFEST.json
uses it).  mutate.py list FILE... | run FILE [--seed S] [--sample N] [--jobs J]
Every mutant that passes the repository's tests is given to the checks of the
properties the file bears on; those no check reports are printed."""
import ast
import hashlib
import json
import os
import pickle
import random
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor
from queue import Queue

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
WORK = "/tmp/mut"
CHECKS = {
    "maxlike/tensor/tensor.py": "C01 C02 C03 C27 C04 C05 C06 C07 C08 C09 C10 C11",
    "maxlike/func/func_base.py": "C05 C06 C07 C08 C22 C24 C10 C04 C28",
    "maxlike/func/func_op.py": "C05 C06 C07 C08 C04 C10 C28",
    "maxlike/func/func.py": "C05 C06 C07 C08 C04 C10 C28",
    "maxlike/func/func_proba.py": "C05 C06 C07 C08",
    "maxlike/func/sigmoid.py": "C05 C06 C07 C08 C28",
    "maxlike/func/matrix.py": "C23 C22 C05 C06 C07 C08 C28",
    "maxlike/func/tennis.py": "C24 C05 C06 C07 C08",
    "maxlike/func/copula.py": "C21 C04 C28",
    "maxlike/maxlike.py": "C09 C10 C15 C04 C28",
    "maxlike/maxlike_base.py": "C12 C13 C14 C16 C11 C17 C15 C04 C28",
    "maxlike/preprocessing.py": "C18 C19 C20 C04 C28",
    "maxlike/skellam.py": "C25 C26",
}


def mutants(src):
    tree = ast.parse(src)
    lines = src.split("\n")
    starts = [0]
    for l in lines:
        starts.append(starts[-1] + len(l.encode()) + 1)
    raw = src.encode()

    def pos(n):
        return starts[n.lineno - 1] + n.col_offset, starts[n.end_lineno - 1] + n.end_col_offset

    def seg(n):
        a, b = pos(n)
        return raw[a:b].decode()
    out = []

    def rep(n, text, why):
        a, b = pos(n)
        new = (raw[:a] + text.encode() + raw[b:]).decode()
        out.append((n.lineno, why, new))
    SW = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.Pow: "*", ast.BitAnd: "|", ast.BitOr: "&"}
    CM = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.In: "not in",
          ast.NotIn: "in", ast.Is: "is not", ast.IsNot: "is"}
    docs = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) \
                and isinstance(n.body[0].value, ast.Constant):
            docs.add(n.body[0])
            docs.add(n.body[0].value)
    for n in ast.walk(tree):
        if n in docs:
            continue
        if isinstance(n, ast.BinOp) and type(n.op) in SW:
            rep(n, "((%s) %s (%s))" % (seg(n.left), SW[type(n.op)], seg(n.right)), "binop")
            rep(n, "(%s)" % seg(n.left), "left only")
            rep(n, "(%s)" % seg(n.right), "right only")
        elif isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CM:
            rep(n, "((%s) %s (%s))" % (seg(n.left), CM[type(n.ops[0])], seg(n.comparators[0])), "compare")
        elif isinstance(n, ast.BoolOp):
            o = " or " if isinstance(n.op, ast.And) else " and "
            rep(n, "(" + o.join("(%s)" % seg(v) for v in n.values) + ")", "boolop")
            for k in range(len(n.values)):
                rep(n, "(%s)" % seg(n.values[k]), "boolop drop")
        elif isinstance(n, ast.UnaryOp):
            rep(n, "(%s)" % seg(n.operand), "unary dropped")
        elif isinstance(n, ast.Constant):
            v = n.value
            if v is True or v is False:
                rep(n, str(not v), "bool")
            elif isinstance(v, int):
                rep(n, "(%d)" % (v + 1), "const+1")
                if v > 0:
                    rep(n, "(%d)" % (v - 1), "const-1")
            elif isinstance(v, float):
                rep(n, repr(v * 2), "const*2")
                rep(n, repr(v * 1.01), "const*1.01")
        elif isinstance(n, ast.IfExp):
            rep(n, "(%s)" % seg(n.body), "ifexp body")
            rep(n, "(%s)" % seg(n.orelse), "ifexp else")
        elif isinstance(n, ast.Call):
            if len(n.args) == 2 and not n.keywords and not any(isinstance(a, ast.Starred) for a in n.args):
                rep(n, "%s(%s, %s)" % (seg(n.func), seg(n.args[1]), seg(n.args[0])), "swap args")
            if not n.args and not n.keywords and isinstance(n.func, ast.Attribute):
                rep(n, "(%s)" % seg(n.func.value), "method dropped")
            if len(n.args) == 1 and not n.keywords and not isinstance(n.args[0], (ast.Starred, ast.GeneratorExp)):
                rep(n, "(%s)" % seg(n.args[0]), "function dropped")
            for k in n.keywords:
                if k.arg:
                    args = [seg(a) for a in n.args] + ["%s=%s" % (q.arg, seg(q.value)) if q.arg else "**" + seg(q.value)
                                                       for q in n.keywords if q is not k]
                    rep(n, "%s(%s)" % (seg(n.func), ", ".join(args)), "keyword dropped")
        elif isinstance(n, (ast.ListComp, ast.GeneratorExp, ast.SetComp)):
            for g in n.generators:
                for c in g.ifs:
                    rep(c, "True", "filter dropped")
        elif isinstance(n, ast.AugAssign) and type(n.op) in SW:
            rep(n, "%s %s= %s" % (seg(n.target), SW[type(n.op)], seg(n.value)), "augassign")
            rep(n, "%s = %s" % (seg(n.target), seg(n.value)), "augassign to assign")
            rep(n, "pass", "statement dropped")
        elif isinstance(n, ast.If):
            rep(n.test, "True", "if True")
            rep(n.test, "False", "if False")
        elif isinstance(n, ast.While):
            rep(n.test, "False", "while False")
        elif isinstance(n, (ast.Assign, ast.Expr, ast.Raise, ast.Break, ast.Continue, ast.Assert)):
            rep(n, "pass", "statement dropped")
        elif isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load):
            rep(n, "(%s)" % seg(n.value), "index dropped")
    seen, res = set(), []
    for l, why, new in out:
        if new in seen or new == src:
            continue
        try:
            compile(new, "m", "exec")
        except Exception:
            continue
        seen.add(new)
        res.append((l, why, new))
    return res


RUNNER = r"""
import sys, os, pickle, hashlib
sys.path.insert(0, %r)
import core
real = core.Check.tlc
def tlc(self, module, consts, **kw):
    if "InFile" in consts or os.environ.get("MUT_NOCACHE"):
        return real(self, module, consts, **kw)
    key = hashlib.sha1(repr((module, sorted((k, repr(v)) for k, v in consts.items()), kw.get("spec"))).encode()).hexdigest()
    p = os.path.join("/tmp/mut/cache", key)
    if os.path.exists(p):
        self.runs.append({"module": module})
        return pickle.load(open(p, "rb"))
    r = real(self, module, consts, **kw)
    os.makedirs("/tmp/mut/cache", exist_ok=True)
    pickle.dump(r, open(p + ".%%d" %% os.getpid(), "wb"))
    os.replace(p + ".%%d" %% os.getpid(), p)
    return r
core.Check.tlc = tlc
import runpy
sys.argv = ["run.py", sys.argv[1]]
sys.path.insert(0, %r)
runpy.run_path(os.path.join(%r, "run.py"), run_name="__main__")
""" % ((os.path.join(ROOT, "harness"),) * 3)


def run(file, seed, sample, jobs):
    src = open(os.path.join("/repo", file)).read()
    ms = mutants(src)
    rnd = random.Random(seed)
    rnd.shuffle(ms)
    ms = ms[:sample]
    q = Queue()
    os.makedirs(WORK, exist_ok=True)
    runner = os.path.join(WORK, "runner.py")
    open(runner, "w").write(RUNNER)
    for k in range(jobs):
        w = os.path.join(WORK, "w%d-%d" % (os.getpid(), k))
        shutil.copytree("/repo", w, symlinks=True)
        q.put(w)
    log = open(os.path.join(WORK, "log-%s-%d.jsonl" % (os.path.basename(file), seed)), "a")

    def one(m):
        line, why, new = m
        w = q.get()
        try:
            open(os.path.join(w, file), "w").write(new)
            env = dict(os.environ, PYTHONPATH=w, PYTHONDONTWRITEBYTECODE="1", OPENBLAS_NUM_THREADS="1",
                       MAXLIKE_REPO=w, VERIF_SEED="1", VERIF_TIER="quick")
            try:
                t = subprocess.run([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--timeout=60", "-W", "ignore",
                                    "-o", "python_files=test_*.py *_test.py tests.py", "tests"],
                                   cwd=w, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=200)
                ok = t.returncode == 0
            except subprocess.TimeoutExpired:
                ok = False
            if not ok:
                return "tests", line, why, None
            notes = []
            for c in CHECKS[file].split():
                try:
                    t = subprocess.run([PY, runner, c], env=env, cwd=ROOT, stdout=subprocess.PIPE,
                                       stderr=subprocess.STDOUT, timeout=900)
                except subprocess.TimeoutExpired:
                    notes.append(c + " timed out")
                    continue
                text = t.stdout.decode(errors="replace")
                if t.returncode == 1 and "VIOLATION property=" in text:
                    return "caught " + c, line, why, notes
                if t.returncode != 0:
                    notes.append(c + " rc=%d " % t.returncode + text[-300:])
            return "survived", line, why, notes
        finally:
            open(os.path.join(w, file), "w").write(src)
            q.put(w)
    tally = {}
    with ThreadPoolExecutor(jobs) as ex:
        for m, r in zip(ms, ex.map(one, ms)):
            tally[r[0]] = tally.get(r[0], 0) + 1
            if r[0] == "survived" or r[3]:
                a, b = src.split("\n"), m[2].split("\n")
                d = [(x.strip(), y.strip()) for x, y in zip(a, b) if x != y]
                print("%s:%d [%s] %s\n    - %s\n    + %s %s" % (file, r[1], r[2], r[0], d[0][0], d[0][1], r[3] or ""), flush=True)
            log.write(json.dumps({"file": file, "line": r[1], "why": r[2], "res": r[0], "notes": r[3]}) + "\n")
            log.flush()
    print(file, len(ms), tally)
    for k in range(jobs):
        shutil.rmtree(q.get())


if __name__ == "__main__":
    if sys.argv[1] == "list":
        for f in sys.argv[2:] or CHECKS:
            print(f, len(mutants(open("/repo/" + f).read())))
    else:
        import argparse
        ap = argparse.ArgumentParser()
        ap.add_argument("cmd")
        ap.add_argument("file")
        ap.add_argument("--seed", type=int, default=1)
        ap.add_argument("--sample", type=int, default=40)
        ap.add_argument("--jobs", type=int, default=4)
        a = ap.parse_args()
        run(a.file, a.seed, a.sample, a.jobs)
