"""Driver for data sets (C14)."""
import json
import os
import random
import subprocess
import sys
import tempfile
import time
from unittest import mock

from babylondigger.evaluation.dataset import CoNLLUDataSet, ShuffledDataset
from babylondigger.evaluation.conllu_io import CoNLLUReader

from common import attempt


class Source(object):
    """re-iterable source that is not a list"""
    def __init__(self, items):
        self.items = items

    def __iter__(self):
        return iter(self.items)


def scenarios(tier, rng, gens):
    many = tier != 'quick'
    for i in range(160 if not many else 3000):
        n = rng.choice([0, 1, 2, 3, 5, 8, 13, 40, 60, 75, 101])
        m = rng.choice([1, 2, 3, 4, 5, 7, 12, 20, 50, 51, 100, 200])
        seeds = rng.sample([0, 1, 2, 3, 7, 42, 10 ** 6, 10 ** 12], 2)
        sets = [{'seed': s, 'default': rng.random() < 0.15} for s in [seeds[0], seeds[0], seeds[1]]]
        if rng.random() < 0.1:
            sets.append({'seed': None, 'default': False})
        passes = rng.choice([1, 2, 2, 3])
        ops = [('start', d) for d in range(len(sets)) for _ in range(passes)]
        rng.shuffle(ops)
        yield {'kind': 'shuffle', 'n': n, 'm': m, 'sets': sets, 'ops': ops, 'src': rng.choice(['list', 'source']), 'steps': rng.random(), 'seed': rng.random()}
    for i in range(25 if not many else 300):
        yield {'kind': 'file', 'n': rng.choice([1, 2, 5, 17]), 'limit': rng.choice([1, 1, 2, 3]), 'default': rng.random() < 0.5, 'm': rng.choice([1, 2, 3, 50]),
               'seed': rng.choice([0, 1, 5]), 'rseed': rng.random()}
    for hs in (['1', '2'] if not many else ['1', '2', '3', '4']):
        yield {'kind': 'process', 'hash': hs, 'n': 70, 'm': 20, 'seeds': [0, 3, 42]}


def build(items, d, m):
    kw = {} if d['default'] else {'max_batch_size': m}
    return ShuffledDataset(items, d['seed'], **kw) if d['seed'] is not None else ShuffledDataset(items, **kw)


def rec(ds, seed, it, m, data, out, ok=True):
    return {'k': 'pass', 'ds': ds, 'seed': [] if seed is None else [str(seed)], 'it': it, 'm': m, 'data': data, 'out': out, 'ok': ok}


CLOCK = [10 ** 9]


def clock():
    CLOCK[0] += 977
    return float(CLOCK[0])


def execute(sc):
    # wall-clock time must not matter: it jumps between any two readings
    with mock.patch.object(time, 'time', clock):
        yield from execute0(sc)


def execute0(sc):
    if sc['kind'] == 'shuffle':
        yield from ex_shuffle(sc)
    elif sc['kind'] == 'file':
        yield from ex_file(sc)
    else:
        yield from ex_process(sc)


def ex_shuffle(sc):
    rng = random.Random(sc['seed'])
    items = list(range(sc['n']))
    dss = [build(items if sc['src'] == 'list' else Source(items), d, sc['m']) for d in sc['sets']]
    live, count, done = [], [0] * len(dss), []
    todo = list(sc['ops'])
    while todo or live:
        if todo and (not live or rng.random() < 0.5):
            d = todo.pop(0)[1]
            live.append([d, count[d], iter(dss[d]), []])
            count[d] += 1
            random.seed(rng.randrange(100))          # global randomness must not matter
            continue
        p = rng.choice(live)
        for _ in range(rng.choice([1, 3, 1000])):
            x = next(p[2], None)
            if x is None:
                live.remove(p)
                done.append(p)
                break
            p[3].append(x)
    for d, it, _, out in sorted(done, key=lambda p: p[:2]):
        s = sc['sets'][d]
        yield rec(d, s['seed'], it, 50 if s['default'] else sc['m'], items, out)


def ex_file(sc):
    rng = random.Random(sc['rseed'])
    with tempfile.TemporaryDirectory() as tmp:
        path = os.path.join(tmp, 'x.conllu')
        forms = ['w%d' % k for k in range(sc['n'])]
        with open(path, 'w', encoding='utf-8') as f:
            for w in forms:
                f.write('\t'.join(['1', w, w, 'N', '_', '_', '0', 'root', '_', 'SpaceAfter=No']) + '\n\n')
        limit = 1 if sc['default'] else sc['limit']
        want = [''.join(forms[k:k + limit]) for k in range(0, len(forms), limit)]
        ds = CoNLLUDataSet(path) if sc['default'] else CoNLLUDataSet(path, CoNLLUReader(sc['limit']))
        its = [iter(ds) for _ in range(3)]
        outs = [[] for _ in its]
        left = list(range(3))
        while left:
            k = rng.choice(left)
            d = next(its[k], None)
            if d is None:
                left.remove(k)
            else:
                outs[k].append(d.text)
        for o in outs + [[d.text for d in ds]]:
            yield {'k': 'raw', 'ok': True, 'data': want, 'out': o}
        sh = [ShuffledDataset(ds, sc['seed'], sc['m']) for _ in range(2)]
        for it in range(2):
            for k in range(2):
                yield rec(k, sc['seed'], it, sc['m'], want, [d.text for d in sh[k]])


CODE = '''
import json, os, sys, time
time.time = lambda: 1e6 * os.getpid()
from babylondigger.evaluation.dataset import ShuffledDataset
n, m, seeds = json.loads(sys.argv[1])
out = []
for s in seeds:
    d = ShuffledDataset(list(range(n)), s, m)
    out.append([list(d), list(d)])
print(json.dumps(out))
'''


def ex_process(sc):
    for ds, h in enumerate(['0', sc['hash']]):
        p = subprocess.run([sys.executable, '-c', CODE, json.dumps([sc['n'], sc['m'], sc['seeds']])], env=dict(os.environ, PYTHONHASHSEED=h),
                           capture_output=True, text=True, timeout=50)
        outs = json.loads(p.stdout) if p.returncode == 0 else None
        for i, s in enumerate(sc['seeds']):
            for it in range(2):
                yield rec(ds, s, it, sc['m'], list(range(sc['n'])), outs[i][it] if outs else [], outs is not None)


SCENARIOS = {'C14': scenarios}
EXECUTE = {'C14': execute}
