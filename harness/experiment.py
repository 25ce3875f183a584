"""Driver for whole experiments: the evaluation script (C18, C19) and the grid search script (C20).

The scripts run through their command line with a scripted trainer in place of network training.  The trainer leaves a
model directory per epoch and taggers that read it when tagging, so a model that was removed too early cannot be used.
"""
import contextlib
import io
import json
import os
import random
import runpy
import sys
import tempfile
from unittest import mock

import tfstub
tfstub.install()

import babylondigger.evaluation.evaluation  # noqa: F401  (import errors are observations)
import babylondigger.evaluation.grid_eval   # noqa: F401
from babylondigger.datamodel import Document, Pos, Token
from babylondigger.neural.tagger import neural_tagger
from babylondigger.tagger import TaggerInterface

from common import exc_name, tables

COLS = ['UPOS', 'Lemmas', 'XPOS']


def bank(name, words, rng):
    """a gold file; the n-th word is called <name>n"""
    out, k = [], 0
    while k < words:
        n = min(rng.choice([1, 2, 3]), words - k)
        for i in range(n):
            out.append('\t'.join([str(i + 1), '%s%d' % (name, k), 'l%d' % k, 'N', 'x', '_', str(i), 'dep', '_', '_']))
            k += 1
        out.append('')
    return '\n'.join(out) + '\n'


class Run(object):
    """what one run of a script did"""
    def __init__(self, sc, root):
        self.sc, self.root, self.log, self.calls = sc, root, [], []
        self.models = os.path.join(root, 'models')
        self.words = sc['words']

    def disk(self):
        out = []
        for d, _, files in os.walk(self.models):
            if 'model.json' in files:
                with open(os.path.join(d, 'model.json')) as f:
                    out.append(json.load(f))
        return sorted(out)

    def add(self, t, **kw):
        e = {'t': t, 'p': -1, 'seed': -1, 'm': [], 'data': True, 'kw': True, 'disk': self.disk()}
        e.update(kw)
        self.log.append(e)


class DiskTagger(TaggerInterface):
    def __init__(self, run, path):
        self.run, self.path = run, path

    def tag(self, documents):
        run = self.run
        docs = list(documents)
        with open(os.path.join(self.path, 'model.json')) as f:
            m = json.load(f)
        name = ''.join(c for c in next(iter(docs[0].tokens)).text if not c.isdigit())
        run.add(name, m=m)
        if [name, m] in run.sc.get('tagfail', []):
            raise RuntimeError('scripted tagging failure')
        right = run.sc[name][m[0]][m[1]][m[2]]
        k = 0
        for d in docs:
            toks = []
            for t in d.tokens:
                k = int(t.text[len(name):])
                toks.append(Token.with_morphology(t, Pos('N' if k < right[0] else 'V', 'x' if k < right[2] else 'y', {}), 'l%d' % k if k < right[1] else 'bad'))
            yield Document.from_document(d, toks)


def scripted(run):
    def train(self, documents, dev_tester=None, model_name_format='epoch-{}', **kwargs):
        seed, model_dir = kwargs['seed'], kwargs['model_dir']
        params = {k: v for k, v in kwargs.items() if k not in ('seed', 'model_dir')}
        sc = run.sc
        if 'grid' in sc:
            p, want = len(run.calls), None
        else:
            p = params.get('id', len(run.calls) // len(sc['seeds']))
            want = sc['params'][p] if 0 <= p < len(sc['params']) else None
        run.calls.append(params)
        s = sc['seeds'].index(seed) if seed in sc['seeds'] else -1
        data = [d.text.strip() for d in documents]
        again = [d.text.strip() for d in documents]
        ok = sorted(data) == sorted(run.train_texts) and sorted(again) == sorted(data) and (sc['shuffler'] is not None or data == run.train_texts)
        run.add('train', p=p, seed=seed, data=ok, kw=want is None or params == want)
        for e in range(params['epochs']):
            if sc.get('fail') == [p, s, e]:
                run.add('fail')
                raise RuntimeError('scripted training failure')
            path = os.path.join(model_dir, model_name_format.format(e))
            os.makedirs(os.path.join(path, 'weights'))
            with open(os.path.join(path, 'model.json'), 'w') as f:
                json.dump([p, s, e], f)
            with open(os.path.join(path, 'weights', 'w.bin'), 'w') as f:
                f.write('x')
            scores = dev_tester(DiskTagger(run, path))
            yield scores, DiskTagger(run, path)
            run.add('next')
    return train


def read_saved(root, words):
    """(correct UPOS, lemmas, XPOS) of every saved prediction file"""
    out = []
    for d, _, files in os.walk(root):
        for fn in files:
            with open(os.path.join(d, fn), encoding='utf-8') as f:
                rows = [ln.split('\t') for ln in f.read().split('\n') if ln]
            if any(len(r) != 10 for r in rows) or len(rows) != words:
                out.append([-1, -1, -1])
                continue
            num = lambda r: r[1].lstrip('abcdefghijklmnopqrstuvwxyz')
            out.append([sum(r[3] == 'N' for r in rows), sum(r[2] == 'l' + num(r) for r in rows), sum(r[4] == 'x' for r in rows)])
    return sorted(out)


def perform(sc):
    rng = random.Random(sc['rseed'])
    with tempfile.TemporaryDirectory() as root:
        run = Run(sc, root)
        paths = {}
        for name in ('train', 'dev', 'test'):
            paths[name] = os.path.join(root, name + '.conllu')
            with open(paths[name], 'w') as f:
                f.write(bank(name, sc['words'], rng))
        run.train_texts = []
        with open(paths['train']) as f:
            for block in f.read().strip('\n').split('\n\n'):
                run.train_texts.append(' '.join(ln.split('\t')[1] for ln in block.split('\n')))
        settings = {'train_set': {'path': paths['train']}, 'dev_set': {'path': paths['dev']}, 'model_dir': run.models,
                    'random_seed': sc['seeds'] if sc['seedlist'] else sc['seeds'][0], 'cmp_metric': {'fields': sc['fields'], 'metric': sc['metric']},
                    'metric_printer': {'fields': sc['printer']}}
        if sc['tests']:
            settings['test_set'] = {'path': paths['test']}
        if sc['saves']:
            settings['dev_set']['results_path'] = os.path.join(root, 'r-dev')
            if sc['tests']:
                settings['test_set']['results_path'] = os.path.join(root, 'r-test')
        if sc['shuffler'] is not None:
            settings['train_set']['shuffler'] = sc['shuffler']
        foreign = {os.path.join(root, 'keep', 'x'): 'x'}
        if sc['occupied']:
            where = [('old', 'x'), ('x',), ('.keep',), ('.old', 'x'), ()][sc['rseed'] % 5]
            if where:
                foreign[os.path.join(run.models, *where)] = 'old'
            else:
                os.makedirs(os.path.join(run.models, 'nothing'))
        elif sc['emptydir']:
            os.makedirs(run.models)
        for p, t in foreign.items():
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, 'w') as f:
                f.write(t)
        hypers = sc['params'] if 'params' in sc else sc['base']
        if 'params' in sc and len(hypers) == 1 and sc['bare']:
            hypers = hypers[0]
        argv = ['x', '--method', 'neural']
        for name, v in (('settings', settings), ('hyperparams', hypers)) + ((('grid', sc['grid']),) if 'grid' in sc else ()):
            p = os.path.join(root, name + '.json')
            with open(p, 'w') as f:
                json.dump(v, f)
            foreign[p] = json.dumps(v)
            argv += ['--' + name, p]
        if sc['dispose'] and 'grid' not in sc:
            argv.append('--delete_after')
        for name in ('train', 'dev', 'test'):
            with open(paths[name]) as f:
                foreign[paths[name]] = f.read()
        out, exc = io.StringIO(), ''
        module = 'babylondigger.evaluation.' + ('grid_eval' if 'grid' in sc else 'evaluation')
        with mock.patch.object(neural_tagger.NeuralTaggerTrainer, 'train', scripted(run)), mock.patch.object(sys, 'argv', argv), contextlib.redirect_stdout(out), \
                contextlib.redirect_stderr(io.StringIO()):
            import warnings
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                try:
                    runpy.run_module(module, run_name='__main__')
                except Exception as e:
                    exc = 'RuntimeError' if isinstance(e, RuntimeError) else exc_name(e)
                except SystemExit as e:
                    exc = 'SystemExit' if e.code else ''
        kept = True
        for p, t in foreign.items():
            try:
                with open(p) as f:
                    kept = kept and f.read() == t
            except OSError:
                kept = False
        tabs = tables(out.getvalue())
        rest = {'left': run.disk(), 'dirleft': os.path.exists(run.models), 'foreign': kept, 'exc': exc, 'log': run.log,
                'devfiles': read_saved(os.path.join(root, 'r-dev'), sc['words']), 'testfiles': read_saved(os.path.join(root, 'r-test'), sc['words']),
                'devrows': [], 'testrows': []}
        if not exc and tabs:
            if sc['tests']:
                rest['testrows'] = tabs.pop()
            rest['devrows'] = tabs.pop() if tabs else []
        return run, rest


def table(rng, np, ns, nes, words, top=None):
    def cell():
        v = [rng.randint(0, words) for _ in range(3)]
        if top:
            v = [rng.choice(top) for _ in range(3)]
        return v
    return [[[cell() for _ in range(nes[p])] for _ in range(ns)] for p in range(np)]


def common(rng):
    return {'words': 8, 'seedlist': True, 'printer': rng.choice([['UPOS', 'Lemmas'], ['Words', 'UPOS', 'XPOS'], ['Tokens', 'UPOS'], ['Lemmas']]), 'fields': ['UPOS'],
            'metric': rng.choice(['f1', 'f1', 'aligned_accuracy', 'precision', 'recall']), 'tests': rng.random() < 0.8, 'saves': rng.random() < 0.5,
            'shuffler': rng.choice([None, None, {'seed': 3}, {'seed': 0, 'max_batch_size': 2}]), 'occupied': False, 'emptydir': rng.random() < 0.3,
            'dispose': rng.random() < 0.7, 'bare': rng.random() < 0.5, 'rseed': rng.randrange(10 ** 6)}


def scenarios(tier, rng, gens):
    tabs = [(name, t) for name in gens for t in gens[name]]
    if tier == 'quick':
        tabs = rng.sample(tabs, 220)
    else:
        tabs = rng.sample(tabs, min(len(tabs), 5000))
    for name, t in tabs:
        np, ns, ne = len(t), len(t[0]), len(t[0][0])
        sc = common(rng)
        w = rng.randint(0, 2)
        sc['dev'] = [[[[2 * v + w, rng.randint(0, 8), rng.randint(0, 8)] for v in row] for row in pp] for pp in t]
        sc['test'] = table(rng, np, ns, [ne] * np, 8)
        sc['seeds'] = rng.sample([0, 1, 7, 42, 12345], ns)
        sc['seedlist'] = ns > 1 or rng.random() < 0.5
        sc['params'] = [{'id': p, 'epochs': ne, 'x': {'y': p * 2, 'z': [1, 'a']}} for p in range(np)]
        if rng.random() < 0.3:
            sc['params'] = [{'epochs': ne} for p in range(np)]         # repeated settings
        sc['ne'] = [ne] * np
        yield sc
    for i in range(120 if tier == 'quick' else 2500):
        np, ns = rng.choice([1, 2, 3, 4]), rng.choice([1, 1, 2, 4])
        sc = common(rng)
        nes = [rng.choice([1, 2, 3, 6]) for _ in range(np)]
        sc['fields'] = rng.choice([['UPOS'], ['Lemmas'], ['UPOS', 'Lemmas'], ['XPOS', 'UPOS']])
        sc['dev'] = table(rng, np, ns, nes, 8, rng.choice([None, [3, 4], [5], [0], [0, 0, 1]]))
        sc['test'] = table(rng, np, ns, nes, 8, rng.choice([None, None, [0], [0, 8]]))
        sc['seeds'] = rng.sample([0, 1, 2, 7, 42], ns)
        sc['seedlist'] = ns > 1 or rng.random() < 0.5
        sc['params'] = [{'id': p, 'epochs': nes[p]} for p in range(np)]
        sc['ne'] = nes
        r = rng.random()
        if r < 0.12:
            sc['occupied'] = True
        elif r < 0.35:
            p, s = rng.randrange(np), rng.randrange(ns)
            if rng.random() < 0.5:
                sc['fail'] = [p, s, rng.randrange(nes[p])]
            else:
                sc['tagfail'] = [['dev', [p, s, rng.randrange(nes[p])]]]
        yield sc
    for np, ns in ((13, 1), (2, 11), (12, 2)) if tier == 'quick' else [(rng.randint(11, 15), 1) for _ in range(20)] + [(rng.randint(1, 3), rng.randint(9, 13)) for _ in range(20)]:
        sc = common(rng)        # many settings, many seeds
        nes = [rng.choice([1, 2]) for _ in range(np)]
        sc.update(fields=rng.choice([['UPOS'], ['Lemmas', 'UPOS', 'XPOS']]), dev=table(rng, np, ns, nes, 8), test=table(rng, np, ns, nes, 8), seeds=rng.sample(range(50), ns), seedlist=True, ne=nes, dispose=True,
                  params=[{'id': p, 'epochs': nes[p]} for p in range(np)])
        if np > 10:
            sc['dev'][np - 2] = [[[8, 8, 8]] * nes[np - 2]] * ns       # the best one comes late
        yield sc
    for metric, up in (('f1', 1), ('aligned_accuracy', -1)) if tier == 'quick' else [(m, u) for m in ('f1', 'aligned_accuracy', 'precision', 'recall') for u in (1, -1)]:
        sc = common(rng)        # large data: scores that differ by one word in twelve thousand
        at = rng.randint(5000, 11000)
        sc.update(words=12000, metric=metric, shuffler=None, seeds=[3], seedlist=False, params=[{'id': 0, 'epochs': 2}, {'id': 1, 'epochs': 1}], ne=[2, 1],
                  dev=[[[[at, 1, 1], [at + up, 2, 2]]], [[[at + 1 + max(up, 0), 3, 3]]]], test=table(rng, 2, 1, [2, 1], 12000))
        yield sc


def execute(sc):
    run, rest = perform(sc)
    yield dict({'k': 'run', 'np': len(sc['params']), 'seeds': sc['seeds'], 'ne': sc['ne'], 'dispose': sc['dispose'], 'occupied': sc['occupied'], 'fails': 'fail' in sc or 'tagfail' in sc,
                'fields': sc['fields'], 'printer': sc['printer'], 'words': sc['words'], 'dev': sc['dev'], 'test': sc['test'], 'tests': sc['tests'], 'saves': sc['saves']}, **rest)


# ------------------------------------------------------------------ grids
def unflatten(leaves):
    out = {}
    for path, v in leaves:
        d = out
        for k in path[:-1]:
            d = d.setdefault(k, {})
        d[path[-1]] = json.loads(v)
    return out


def flatten(d, pre=()):
    out = []
    for k in sorted(d):
        if isinstance(d[k], dict) and d[k]:
            out += flatten(d[k], pre + (k,))
        else:
            out.append([list(pre + (k,)), json.dumps(d[k], sort_keys=True)])
    return out


BASE = [[['a'], '0'], [['b', 'c'], '0'], [['b', 'd'], '0']]


def g_scenarios(tier, rng, gens):
    def sc(leaves, axes, **kw):
        s = common(rng)
        s.update({'leaves': leaves + [[['epochs'], '1']], 'axes': axes, 'base': unflatten(leaves + [[['epochs'], '1']]), 'seeds': [rng.choice([0, 1, 7])], 'seedlist': rng.random() < 0.5,
                  'dispose': True, 'grid': {'g%d' % i: [unflatten([x]) for x in ax] for i, ax in enumerate(axes)}})
        n = 1
        for ax in axes:
            n *= max(1, len(ax))
        s['dev'] = table(rng, n, 1, [1] * n, 8)
        s['test'] = table(rng, n, 1, [1] * n, 8)
        s.update(kw)
        return s
    gs = gens['grids']
    if tier == 'quick':
        valid = [g for g in gs if g and all(len({tuple(x[0]) for x in ax}) == 1 for ax in g)]
        gs = rng.sample(valid, min(len(valid), 250)) + rng.sample(gs, 200)
    else:
        gs = rng.sample(gs, 6000)
    for g in gs:
        yield sc(BASE, g)
    for i in range(80 if tier == 'quick' else 1500):
        leaves, paths = [], []
        for k in range(rng.randint(1, 5)):
            path = ['k%d' % k] + [rng.choice('pqr') for _ in range(rng.randint(0, 3))]
            paths.append(path)
            leaves.append([path, json.dumps(rng.choice([0, 1.5, 'v', [1, 2], None, True]))])
            if len(path) > 1 and rng.random() < 0.6:
                leaves.append([path[:-1] + ['s'], json.dumps('side')])
        axes = []
        if rng.random() < 0.2:                # settings far inside, next to each other
            deep = ['d'] + [rng.choice('pqr') for _ in range(rng.randint(2, 5))]
            for x in 'xy':
                leaves.append([deep + [x], '0'])
                axes.append([[deep + [x], json.dumps('%s%d' % (x, v))] for v in range(rng.randint(1, 2))])
            if rng.random() < 0.3:            # values of both under one name
                axes[-2:] = [axes[-2] + axes[-1]]
        for path in rng.sample(paths, rng.randint(0, min(3 if not axes else 1, len(paths)))):
            path = path[:rng.randint(1, len(path))] if rng.random() < 0.3 else path
            axes.append([[path, json.dumps(rng.choice([v, 'n%d' % v, [v]]))] for v in range(rng.randint(1, 4))])
        if axes and rng.random() < 0.15:      # the last value of an axis belongs to another setting
            rng.choice(axes).append([rng.choice(paths), json.dumps('other')])
        yield sc(leaves, axes, occupied=rng.random() < 0.08)


def g_execute(sc):
    run, rest = perform(sc)
    yield {'k': 'grid', 'tree': sc['leaves'], 'axes': sc['axes'], 'occupied': sc['occupied'], 'tests': sc['tests'], 'fields': sc['fields'], 'dev': sc['dev'],
           'trained': [flatten(p) for p in run.calls], 'tested': [e['m'] for e in rest['log'] if e['t'] == 'test'], 'exc': rest['exc'], 'left': rest['left'],
           'dirleft': rest['dirleft'], 'foreign': rest['foreign']}


SCENARIOS = {'C18': scenarios, 'C19': scenarios, 'C20': g_scenarios}
EXECUTE = {'C18': execute, 'C19': execute, 'C20': g_execute}
