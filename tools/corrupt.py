#!/usr/bin/env python3
"""Development tool: does a judge look at everything it is given?  Records of the unchanged tree are corrupted in one place each and
judged again; places whose corruption is accepted are listed with the rate of objections.

tools/corrupt.py CHECK [--number N] [--seed S]
"""
import argparse
import json
import os
import random
import re
import shutil
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import registry  # noqa: E402
import vlib  # noqa: E402


def leaves(x, path=()):
    """(container, key, path pattern) of every place"""
    if isinstance(x, dict):
        for k, v in x.items():
            if path or k not in ('k', 'sid'):
                yield x, k, path + (k,)
                yield from leaves(v, path + (k,))
    elif isinstance(x, list):
        for i, v in enumerate(x):
            yield x, i, path + ('*',)
            yield from leaves(v, path + ('*',))


def corrupt(rng, box, key):
    v = box[key]
    if isinstance(v, bool):
        box[key] = not v
    elif isinstance(v, int):
        box[key] = v + rng.choice([-1, 1]) * (1 if abs(v) < 60 else abs(v) // 2 + 1000)
    elif isinstance(v, str):
        box[key] = v + 'x' if not v or rng.random() < 0.7 else ''
    elif isinstance(v, list) and v:
        how = rng.choice(['drop', 'twice', 'swap', 'clear'])
        if how == 'drop':
            v.pop(rng.randrange(len(v)))
        elif how == 'twice':
            v.insert(rng.randrange(len(v)), json.loads(json.dumps(rng.choice(v))))
        elif how == 'swap':
            i, j = rng.randrange(len(v)), rng.randrange(len(v))
            v[i], v[j] = v[j], v[i]
        else:
            v.clear()
    else:
        return False
    return True


class Judge(vlib.Check):
    def lines(self):
        gens = {}
        for i, g in enumerate(self.spec.get('gen', ())):
            name, path, _, _ = self.generate(i, g)
            gens[name] = path
        rc, text, out = self.execute(0, 8, gens)
        got = [x for x in open(out, encoding='utf-8').read().split('\n') if x]
        assert got and got[-1].startswith('{"k":"end"'), text[-2000:]
        return got[:-1]

    def judged(self, histories, name='c', depth=0):
        """per history: objected?"""
        if not histories:
            return []
        lines = [x for h in histories for x in h]
        bad, out, _ = self.validate(name, lines)
        if bad is None:
            if len(histories) == 1:
                return [True]
            m = len(histories) // 2
            return self.judged(histories[:m], name + 'a') + self.judged(histories[m:], name + 'b')
        bounds, n = [], 0
        for h in histories:
            bounds.append((n, n + len(h)))
            n += len(h)
        return [any(a <= i < b for i, _ in bad) for a, b in bounds]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('check')
    ap.add_argument('--number', type=int, default=600)
    ap.add_argument('--seed', type=int, default=1)
    a = ap.parse_args()
    j = Judge(a.check, registry.CHECKS[a.check], 'quick', 1)
    rng = random.Random(a.seed)
    try:
        groups = [g for g in vlib.group_by_sid(j.lines()) if sum(map(len, g)) < 60000]
        sound = [g for g, bad in zip(groups, j.judged(groups)) if not bad]
        cases = []
        while len(cases) < a.number:
            g = rng.choice(sound)
            recs = [json.loads(x) for x in g]
            r = rng.choice(recs)
            places = list(leaves(r))
            kinds = sorted({p for _, _, p in places})
            want = rng.choice(kinds)                      # every kind of place counts alike
            box, key, path = rng.choice([x for x in places if x[2] == want])
            before = json.dumps(r)
            if not corrupt(rng, box, key) or json.dumps(r) == before:
                continue
            cases.append((r['k'], path, [re.sub(r'"sid": ?-?\d+', '"sid": %d' % (10 ** 6 + len(cases)), json.dumps(x), count=1) for x in recs]))
        got = j.judged([c[2] for c in cases])
        table = {}
        for (k, path, _), bad in zip(cases, got):
            t = table.setdefault((k, '.'.join(map(str, path))), [0, 0])
            t[0] += bad
            t[1] += 1
        for (k, p), (n, m) in sorted(table.items(), key=lambda x: (x[1][0] / x[1][1], x[0])):
            if n < m:
                print('%-10s %-40s %d of %d' % (k, p, n, m))
        print('%s: objections to %d of %d corruptions' % (a.check, sum(got), len(got)))
    finally:
        shutil.rmtree(j.work, ignore_errors=True)


main()
