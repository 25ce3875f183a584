#!/usr/bin/env python3
"""Development tool: mechanical mutants of a source file of /repo against the checks (specification side cached).

tools/mutate.py FILE CHECK[,CHECK..] [--sample N] [--jobs N] [--func REGEX] --out LOG
Prints surviving mutants (no check objects); nothing here is used by the registered checks.
"""
import argparse
import ast
import concurrent.futures as cf
import copy
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile

sys.dont_write_bytecode = True
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
CMP2 = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.GtE, ast.NotEq: ast.Lt}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Add, ast.Div: ast.Mult}


def points(tree):
    """(description, function(tree copy's node list) applying the mutation)"""
    nodes = list(ast.walk(tree))
    out = []

    def at(i, what, f):
        out.append((getattr(nodes[i], 'lineno', 0), what, i, f))
    for i, n in enumerate(nodes):
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for table in (CMP, CMP2):
                t = table.get(type(n.ops[0]))
                if t:
                    at(i, 'cmp %s' % t.__name__, lambda m, t=t: setattr(m, 'ops', [t()]))
        if isinstance(n, ast.BoolOp):
            at(i, 'and/or', lambda m: setattr(m, 'op', ast.Or() if isinstance(m.op, ast.And) else ast.And()))
            for k in range(len(n.values)):
                at(i, 'drop operand %d' % k, lambda m, k=k: m.values.pop(k) if len(m.values) > 2 else m.values.__setitem__(k, ast.Constant(isinstance(m.op, ast.And))))
        if isinstance(n, ast.BinOp) and type(n.op) in BIN:
            at(i, 'arith', lambda m: setattr(m, 'op', BIN[type(m.op)]()))
        if isinstance(n, ast.AugAssign) and type(n.op) in BIN:
            at(i, 'augarith', lambda m: setattr(m, 'op', BIN[type(m.op)]()))
        if isinstance(n, ast.Constant) and type(n.value) is int:
            at(i, 'int+1', lambda m: setattr(m, 'value', m.value + 1))
            at(i, 'int-1', lambda m: setattr(m, 'value', m.value - 1))
        if isinstance(n, ast.Constant) and type(n.value) is bool:
            at(i, 'bool', lambda m: setattr(m, 'value', not m.value))
        if isinstance(n, ast.Constant) and n.value is None:
            pass
        if isinstance(n, (ast.If, ast.IfExp, ast.While)):
            at(i, 'negate', lambda m: setattr(m, 'test', ast.UnaryOp(ast.Not(), m.test)))
            at(i, 'always', lambda m: setattr(m, 'test', ast.Constant(True)) if not isinstance(m, ast.While) else None)
            at(i, 'never', lambda m: setattr(m, 'test', ast.Constant(False)))
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            at(i, 'drop not', lambda m: setattr(m, 'op', ast.UAdd()) or setattr(m, 'operand', ast.Call(ast.Name('bool'), [m.operand], [])))
        if isinstance(n, ast.comprehension) and n.ifs:
            at(i, 'drop filter', lambda m: m.ifs.clear())
        if isinstance(n, ast.Slice):
            for b in ('lower', 'upper'):
                if getattr(n, b) is not None:
                    at(i, 'drop ' + b, lambda m, b=b: setattr(m, b, None))
        if isinstance(n, ast.Call):
            for k in range(len(n.keywords)):
                at(i, 'drop keyword %s' % n.keywords[k].arg, lambda m, k=k: m.keywords.pop(k))
            if len(n.args) >= 2:
                at(i, 'swap args', lambda m: m.args.__setitem__(slice(0, 2), [m.args[1], m.args[0]]))
            if isinstance(n.func, ast.Name) and n.func.id in ('sorted', 'list', 'tuple', 'set', 'reversed', 'any', 'all', 'min', 'max'):
                alt = {'sorted': 'list', 'any': 'all', 'all': 'any', 'min': 'max', 'max': 'min', 'reversed': 'list', 'set': 'list'}.get(n.func.id)
                if alt:
                    at(i, '%s->%s' % (n.func.id, alt), lambda m, alt=alt: setattr(m.func, 'id', alt))
            if isinstance(n.func, ast.Attribute) and n.func.attr in ('lower', 'strip', 'rstrip', 'lstrip', 'copy', 'casefold'):
                at(i, 'drop .' + n.func.attr, lambda m: (setattr(m, 'args', []), setattr(m, 'keywords', []), setattr(m, 'func', ast.Lambda(ast.arguments([], [], None, [], [], None, []), m.func.value))))
        for field in ('body', 'orelse', 'finalbody'):
            body = getattr(n, field, None)
            if isinstance(body, list):
                for k, s in enumerate(body):
                    if isinstance(s, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise, ast.Break, ast.Continue, ast.Return, ast.Assert, ast.Delete)) and not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                        if isinstance(n, (ast.Module, ast.ClassDef)):
                            continue
                        out.append((s.lineno, 'delete %s' % type(s).__name__, i, lambda m, field=field, k=k: getattr(m, field).__setitem__(k, ast.Pass())))
    return out


def make(tree, p):
    t = copy.deepcopy(tree)
    p[3](list(ast.walk(t))[p[2]])
    ast.fix_missing_locations(t)
    return ast.unparse(t)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('file')
    ap.add_argument('checks')
    ap.add_argument('--sample', type=int, default=0)
    ap.add_argument('--jobs', type=int, default=3)
    ap.add_argument('--seed', type=int, default=0)
    ap.add_argument('--lines')
    ap.add_argument('--out')
    a = ap.parse_args()
    checks = a.checks.split(',')
    src = open(os.path.join('/repo', a.file)).read()
    tree = ast.parse(src)
    base = ast.unparse(tree)
    ps, seen = [], {base}
    for p in points(tree):
        if a.lines:
            lo, hi = map(int, a.lines.split('-'))
            if not lo <= p[0] <= hi:
                continue
        try:
            m = make(tree, p)
        except Exception:
            continue
        if m in seen:
            continue
        seen.add(m)
        ps.append((p, m))
    if a.sample and len(ps) > a.sample:
        ps = random.Random(a.seed).sample(ps, a.sample)
        ps.sort(key=lambda x: x[0][0])
    tmp = tempfile.mkdtemp(prefix='mutate')
    cache = os.path.join(tmp, 'cache')
    os.makedirs(cache)
    log = open(a.out, 'w') if a.out else sys.stdout
    lines = src.split('\n')
    print('%d mutants of %s' % (len(ps), a.file), file=log, flush=True)

    def one(k):
        p, m = ps[k]
        w = os.path.join(tmp, 'w%d' % k)
        shutil.copytree('/repo', w, ignore=shutil.ignore_patterns('.git', '__pycache__'))
        with open(os.path.join(w, a.file), 'w') as f:
            f.write(m)
        verdict = 'SURVIVED'
        for c in checks:
            r = subprocess.run([sys.executable, os.path.join(ROOT, 'tools', 'mutate_one.py'), c, cache], env=dict(os.environ, VERIF_REPO=w, VERIF_TIER='quick'), capture_output=True, text=True)
            if r.returncode == 1:
                verdict = 'killed ' + c
                break
            if r.returncode != 0:
                verdict = 'NOANSWER %s %s' % (c, r.stdout[-300:].replace('\n', ' | '))
        if not verdict.startswith('killed'):
            t = subprocess.run(['bash', '-c', 'cd %s && PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -m unittest babylondigger.tests.test_datamodel babylondigger.tests.test_lemma 2>&1 | tail -1' % w], capture_output=True, text=True)
            verdict += ' [unit: %s]' % t.stdout.strip()[:40]
        shutil.rmtree(w, ignore_errors=True)
        return k, verdict

    for c in checks:        # fill the cache
        subprocess.run([sys.executable, os.path.join(ROOT, 'tools', 'mutate_one.py'), c, cache], env=dict(os.environ, VERIF_REPO='/repo', VERIF_TIER='quick'), check=True, stdout=subprocess.DEVNULL)
    n = 0
    with cf.ThreadPoolExecutor(a.jobs) as ex:
        for k, v in ex.map(one, range(len(ps))):
            p = ps[k][0]
            n += v.startswith('killed')
            if not v.startswith('killed'):
                print('%s:%d %s  %s\n    %s' % (a.file, p[0], p[1], v, lines[p[0] - 1].strip()), file=log, flush=True)
    print('killed %d of %d' % (n, len(ps)), file=log, flush=True)
    shutil.rmtree(tmp, ignore_errors=True)


main()
