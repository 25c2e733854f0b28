#!/usr/bin/env python3
"""Mutation campaign (development aid, no part of any check).

  mutate.py cover OUT            run all checks, record which lines they run
  mutate.py list FILE [N] [SEED] list mutants of algotom/FILE
  mutate.py run COVER LOG [-j N] [-n PER_FILE] [--seed S] FILES...

Each mutant is one small change of one expression or statement; the checks
that execute the changed line are run on a scratch copy, cheapest first, until
one reports a violation.  Survivors are listed for a human to look at.
"""
import ast
import concurrent.futures as cf
import glob
import json
import os
import random
import re
import shutil
import subprocess
import sys
import time

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


def cover(out, pids=()):
    os.makedirs(out, exist_ok=True)
    cost = {}
    if pids:
        cost = json.load(open(os.path.join(out, "cover.json")))["cost"]
    pids = pids or [c["property"] for c in json.load(open(os.path.join(
        here, "MANIFEST.json")))["checks"]]
    for p in pids:
        t = time.time()
        subprocess.call(["python3", "run.py", p], cwd=here,
                        env=dict(os.environ, VERIF_COV=out),
                        stdout=subprocess.DEVNULL)
        cost[p] = time.time() - t
        print(p, round(cost[p], 1), flush=True)
    lines = {}
    for f in glob.glob(os.path.join(out, "*.txt")):
        p = os.path.basename(f).split("_")[0]
        for x in open(f):
            lines.setdefault(x.strip(), set()).add(p)
    json.dump({"cost": cost, "lines": {k: sorted(v) for k, v in
                                       lines.items()}},
              open(os.path.join(out, "cover.json"), "w"))


CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=",
       ast.NotEq: "=="}
CMPT = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=",
        ast.Eq: "==", ast.NotEq: "!="}
SWAP = {"min": "max", "max": "min", "floor": "ceil", "ceil": "floor",
        "argmin": "argmax", "argmax": "argmin", "mean": "median",
        "median": "mean", "zeros": "ones", "ones": "zeros", "sin": "cos",
        "cos": "sin", "fliplr": "flipud", "flipud": "fliplr", "sort":
        "asarray", "abs": "asarray", "nanmax": "nanmin", "round": "floor",
        "minimum": "maximum", "maximum": "minimum", "append": "insert",
        "float32": "float16", "int16": "int8", "copy": "asarray"}


class Find(ast.NodeVisitor):
    def __init__(self, src):
        self.src = src.split("\n")
        self.out = []
        self.fn = []

    def seg(self, n):
        return n.lineno, n.col_offset, n.end_lineno, n.end_col_offset

    def add(self, n, new, kind):
        if n.lineno == n.end_lineno and self.fn:
            self.out.append((self.seg(n), new, kind, self.fn[-1]))

    def text(self, n):
        return self.src[n.lineno - 1][n.col_offset:n.end_col_offset] \
            if n.lineno == n.end_lineno else None

    def visit_FunctionDef(self, n):
        self.fn.append(n.name)
        for d in n.args.defaults:
            if isinstance(d, ast.Constant):
                self.const(d)
        for b in n.body:
            self.visit(b)
        self.fn.pop()

    def visit_Raise(self, n):
        pass

    def visit_Expr(self, n):
        if isinstance(n.value, ast.Constant):
            return
        if isinstance(n.value, ast.Call):
            self.add(n, "pass", "drop")
        self.generic_visit(n)

    def visit_AugAssign(self, n):
        self.add(n, "pass", "drop")
        self.generic_visit(n)

    def visit_Assign(self, n):
        t = n.targets[0]
        if isinstance(t, ast.Subscript) or (isinstance(t, ast.Name) and any(
                isinstance(x, ast.Name) and x.id == t.id for x in
                ast.walk(n.value))):
            self.add(n, "pass", "drop")
        self.generic_visit(n)

    def visit_If(self, n):
        s = self.text(n.test)
        if s:
            only_raise = all(isinstance(b, (ast.Raise, ast.Assign))
                             for b in n.body) and any(isinstance(
                                 b, ast.Raise) for b in n.body)
            self.add(n.test, "True" if not only_raise else "False", "if")
            if not only_raise:
                self.add(n.test, "False", "if")
        self.generic_visit(n)

    def visit_Compare(self, n):
        if len(n.ops) == 1 and type(n.ops[0]) in CMP:
            le, ri = self.text(n.left), self.text(n.comparators[0])
            if le and ri:
                self.add(n, "%s %s %s" % (le, CMP[type(n.ops[0])], ri),
                         "cmp")
        self.generic_visit(n)

    def visit_BoolOp(self, n):
        ts = [self.text(v) for v in n.values]
        if all(ts):
            op = " or " if isinstance(n.op, ast.And) else " and "
            self.add(n, op.join("(%s)" % t for t in ts), "bool")
        self.generic_visit(n)

    def visit_UnaryOp(self, n):
        s = self.text(n.operand)
        if isinstance(n.op, ast.USub) and s and not isinstance(
                n.operand, ast.Constant):
            self.add(n, s, "neg")
        self.generic_visit(n)

    def visit_BinOp(self, n):
        le, ri = self.text(n.left), self.text(n.right)
        if le and ri and self.text(n):
            op = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*",
                  ast.FloorDiv: "/", ast.Mod: "*", ast.Pow: "*"}.get(
                      type(n.op))
            if op:
                self.add(n, "((%s) %s (%s))" % (le, op, ri), "op")
            if isinstance(n.op, (ast.Add, ast.Sub)):
                self.add(n, "(%s)" % le, "term")
            if isinstance(n.op, ast.FloorDiv):
                self.add(n, "(-((-(%s)) // (%s)))" % (le, ri), "ceil")
        self.generic_visit(n)

    def const(self, n):
        v = n.value
        if isinstance(v, bool):
            self.add(n, str(not v), "flag")
        elif isinstance(v, int):
            self.add(n, str(v + 1), "int")
            if v > 0:
                self.add(n, str(v - 1), "int")
        elif isinstance(v, float):
            self.add(n, repr(v * 1.25) if v else "0.1", "float")
        elif isinstance(v, str) and re.match(r"^[a-z]+$", v):
            self.add(n, repr(v + "_"), "str")

    def visit_Constant(self, n):
        self.const(n)

    def visit_JoinedStr(self, n):
        pass

    def visit_Call(self, n):
        f = n.func
        if isinstance(f, ast.Attribute) and f.attr in SWAP:
            b = self.text(f.value)
            if b and f.lineno == f.end_lineno:
                self.add(f, b + "." + SWAP[f.attr], "call")
        elif isinstance(f, ast.Name) and f.id in SWAP:
            self.add(f, SWAP[f.id], "call")
        if n.lineno == n.end_lineno:
            s = self.text(n)
            for kw in n.keywords:
                if kw.arg and kw.lineno == kw.end_lineno:
                    t = self.src[kw.lineno - 1][kw.col_offset:
                                                kw.end_col_offset]
                    new = re.sub(r",\s*" + re.escape(t), "", s, count=1)
                    if new != s:
                        self.add(n, new, "kw")
        self.generic_visit(n)


def mutants(rel):
    src = open(os.path.join(REPO, "algotom", rel)).read()
    f = Find(src)
    f.visit(ast.parse(src))
    lines = src.split("\n")
    out = []
    for (l0, c0, _, c1), new, kind, fn in f.out:
        old = lines[l0 - 1]
        # byte columns: sources are ASCII
        line = old[:c0] + new + old[c1:]
        if line == old:
            continue
        t = lines[:]
        t[l0 - 1] = line
        try:
            ast.parse("\n".join(t))
        except SyntaxError:
            continue
        out.append((rel, l0, old.strip(), line.strip(), kind, fn, line))
    seen, res = set(), []
    for m in out:
        if (m[1], m[6]) not in seen:
            seen.add((m[1], m[6]))
            res.append(m)
    return res


def jit_ranges(rel):
    src = open(os.path.join(REPO, "algotom", rel)).read()
    out = {}
    for n in ast.walk(ast.parse(src)):
        if isinstance(n, ast.FunctionDef) and any(
                "jit" in ast.unparse(d) for d in n.decorator_list):
            out[n.name] = (n.lineno, n.end_lineno)
    return src, out


def checks_for(cov, rel, line, fn, cache={}):
    got = set(cov["lines"].get("%s:%d" % (rel, line), ()))
    if rel not in cache:
        cache[rel] = jit_ranges(rel)
    src, jit = cache[rel]
    if fn in jit:
        for no, text in enumerate(src.split("\n"), 1):
            if re.search(r"\b%s\b" % fn, text):
                got |= set(cov["lines"].get("%s:%d" % (rel, no), ()))
        got |= {"P43", "P42"}
    if not got:
        # an argument line of a multi-line statement, or a default value
        for d in range(1, 12):
            got |= set(cov["lines"].get("%s:%d" % (rel, line - d), ()))
            if got:
                break
    return sorted(got, key=lambda p: (p in ("P41", "P42", "P44", "P45"),
                                      cov["cost"][p]))


class Pool:
    def __init__(self, n):
        self.dirs = []
        for k in range(n):
            w = "/tmp/mutants/w%d" % k
            shutil.rmtree(w, ignore_errors=True)
            os.makedirs(w)
            subprocess.check_call(["cp", "-a", REPO, w + "/repo"])
            os.makedirs(w + "/verif")
            for x in ("mc", "run.py", "known_findings.txt"):
                subprocess.check_call(["cp", "-a", os.path.join(here, x),
                                       w + "/verif/"])
            self.dirs.append(w)


def one(w, m, pids):
    rel, l0, old, new, kind, fn, line = m
    path = os.path.join(w, "repo/algotom", rel)
    orig = os.path.join(REPO, "algotom", rel)
    src = open(orig).read().split("\n")
    src[l0 - 1] = line
    with open(path, "w") as fo:
        fo.write("\n".join(src))
    killed, tried = None, []
    try:
        for p in pids:
            tried.append(p)
            env = dict(os.environ, VERIF_REPO=w + "/repo",
                       VERIF_NUMBA_CACHE=w + "/numba", VERIF_MAX="1")
            try:
                r = subprocess.run(["python3", "run.py", p], cwd=w +
                                   "/verif", env=env, capture_output=True,
                                   text=True, timeout=400)
                rc, txt = r.returncode, r.stdout
            except subprocess.TimeoutExpired:
                rc, txt = 9, ""
            if rc == 1 and "VIOLATION" in txt:
                killed = p
                break
            if rc != 0:
                killed = "%s:rc%d" % (p, rc)
                break
    finally:
        shutil.copy2(orig, path)
    return killed, tried


def anchored(covf, log, j, n, seed, only):
    """Mutants inside the functions a property is anchored to, tried on the
    check of that property first, then on the others."""
    cov = json.load(open(covf))
    todo, cache = [], {}
    for x in open(os.path.join(here, "properties.jsonl")):
        d = json.loads(x)
        pid = d["id"]
        if only and pid not in only:
            continue
        names = {}
        for m in d["anchors"]["mechanism"]:
            names.setdefault(m["where"].replace("algotom/", "", 1),
                             set()).add(m["name"].split(".")[-1])
        cand = []
        for rel, fns in names.items():
            if not rel.endswith(".py"):
                continue
            if rel not in cache:
                src = open(os.path.join(REPO, "algotom", rel)).read()
                body = {f.name: f for f in ast.walk(ast.parse(src))
                        if isinstance(f, ast.FunctionDef)}
                cache[rel] = (mutants(rel), body)
            ms, body = cache[rel]
            all_ = set(fns)
            for _ in range(2):
                for f in list(all_):
                    if f in body:
                        all_ |= {c.id for c in ast.walk(body[f])
                                 if isinstance(c, ast.Name) and c.id in body}
            cand += [m for m in ms if m[5] in all_]
        random.Random("%s%d" % (pid, seed)).shuffle(cand)
        k = 0
        for m in cand:
            cs = checks_for(cov, m[0], m[1], m[5])
            if pid in cs:
                todo.append((pid, m, [pid] + [c for c in cs if c != pid]))
                k += 1
                if k == n:
                    break
    done = set()
    if os.path.exists(log):
        for x in open(log):
            d = json.loads(x)
            done.add((d["p"], d["m"][0], d["m"][1], d["m"][3]))
    todo = [t for t in todo if (t[0], t[1][0], t[1][1], t[1][3]) not in done]
    random.Random(seed).shuffle(todo)
    pool = Pool(j)
    free = list(pool.dirs)
    print(len(todo), "mutants", flush=True)

    def job(t):
        pid, m, pids = t
        w = free.pop()
        try:
            t0 = time.time()
            killed, tried = one(w, m, pids)
            with open(log, "a") as fo:
                fo.write(json.dumps({"p": pid, "m": m, "killed": killed,
                                     "own": killed == pid, "tried": tried,
                                     "t": round(time.time() - t0)}) + "\n")
        finally:
            free.append(w)
    with cf.ThreadPoolExecutor(j) as ex:
        list(ex.map(job, todo))
    shutil.rmtree("/tmp/mutants", ignore_errors=True)


def main():
    a = sys.argv[1:]
    if a[0] == "cover":
        return cover(a[1], a[2:])
    if a[0] == "list":
        for m in mutants(a[1]):
            print(m[1], m[4], m[5], "|", m[2], "=>", m[3])
        return
    if a[0] == "anch":
        return anchored(a[1], a[2], int(a[3]), int(a[4]), int(a[5]), a[6:])
    covf, log = a[1], a[2]
    rest, j, n, seed, only = a[3:], 3, 40, 1, None
    files = []
    while rest:
        x = rest.pop(0)
        if x == "-j":
            j = int(rest.pop(0))
        elif x == "-n":
            n = int(rest.pop(0))
        elif x == "--seed":
            seed = int(rest.pop(0))
        elif x == "--fn":
            only = rest.pop(0)
        else:
            files.append(x)
    cov = json.load(open(covf))
    todo = []
    for rel in files:
        ms = mutants(rel)
        if only:
            ms = [m for m in ms if re.search(only, m[5])]
        random.Random(seed).shuffle(ms)
        todo += ms[:n]
    done = set()
    if os.path.exists(log):
        for x in open(log):
            d = json.loads(x)
            done.add((d["m"][0], d["m"][1], d["m"][3]))
    todo = [m for m in todo if (m[0], m[1], m[3]) not in done]
    random.Random(seed).shuffle(todo)
    pool = Pool(j)
    free = list(pool.dirs)
    print(len(todo), "mutants")

    def job(m):
        w = free.pop()
        try:
            pids = checks_for(cov, m[0], m[1], m[5])
            t = time.time()
            killed, tried = one(w, m, pids)
            with open(log, "a") as fo:
                fo.write(json.dumps({"m": m, "killed": killed, "tried":
                                     tried, "t": round(time.time() - t)}) +
                         "\n")
        finally:
            free.append(w)
    with cf.ThreadPoolExecutor(j) as ex:
        list(ex.map(job, todo))
    shutil.rmtree("/tmp/mutants", ignore_errors=True)


main()
