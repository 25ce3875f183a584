"""Driver for the wrapper of the external parser (C40). The package it wraps is not here: a stand-in has its interface and
a real TensorFlow graph that predicts numbers from the words, restored from a checkpoint."""
import configparser
import os
import shutil
import sys
import tempfile
import types

import numpy as np

import tfreal

tf = tfreal.install()

SCENARIO_SECONDS = 120
COLUMNS = ['id', 'form', 'lemma', 'upos', 'xpos', 'ufeats', 'dephead', 'deprel', 'deps', 'misc']
TABLE = {'upos': ['_', 'NOUN', 'VERB'], 'xpos': ['_', 'x', 'y'], 'ufeats': ['_', 'A=p', 'A=p|B=q'], 'lemma': ['_', 'l', '\u00e9 x'], 'deprel': ['_', 'nsubj', 'root'], 'semrel': ['_', '1:x', '2:y']}
NOW = {'batches': [], 'fail': -1, 'given': [], 'factored': []}       # what happens in the next call, what was seen


# ------------------------------------------------------------------ stand-in
class Vocab(object):
    def __init__(self, field, factorized=False):
        self.field, self.factorized, self.rows = field, factorized, []

    def reset(self):
        self.rows = []

    def add(self, sentence):
        col = COLUMNS.index('deps' if self.field == 'semrel' else self.field)
        self.rows.append(['ROOT'] + [row[col] for row in sentence])

    def __getitem__(self, numbers):
        if self.field == 'dephead':
            return [[str(int(x)) for x in row] for row in numbers]
        return [[TABLE[self.field][int(x)] for x in row] for row in numbers]


class BaseNetwork(object):
    def __init__(self, config=None):
        self.config = config
        fields = config.get('DEFAULT', 'output_fields').split()
        inputs = config.get('DEFAULT', 'input_fields').split()
        self.input_vocabs = [Vocab(f) for f in inputs]
        self.output_vocabs = [Vocab(f, factorized=config.get('DEFAULT', 'factorized') == 'True') for f in fields]
        self.placeholder = tf.placeholder(tf.float32, [None, None], 'words')
        for v in self.input_vocabs:
            v.placeholder = self.placeholder

    @property
    def vocabs(self):
        return self.input_vocabs + self.output_vocabs

    @property
    def classname(self):
        return self.__class__.__name__

    @property
    def save_dir(self):
        return os.path.join(self.config.get('DEFAULT', 'save_metadir'), self.classname)

    def build_graph(self, input_network_outputs=None, reuse=True, debug=False):
        w = tf.get_variable('w', shape=[], initializer=tf.constant_initializer(-7777.))
        fixed = tf.get_variable('pretrained', shape=[], initializer=tf.constant_initializer(1.), trainable=False)
        tf.add_to_collection('non_save_variables', fixed)
        base = (self.placeholder + w) * fixed
        outputs = {}
        offset = 0
        for v in self.output_vocabs:
            offset += 1
            o = {'probabilities': base + float(offset), 'recur_layer': tf.stack([base + 100. + offset, base + 200. + offset], -1), 'hidden_layer': tf.stack([base + 300. + offset], -1)}
            outputs[{'dephead': 'deptree', 'deprel': 'deptree', 'semrel': 'semgraph'}.get(v.field, v.field)] = dict(o)
        self.offsets = {v.field: i + 1 for i, v in enumerate(self.output_vocabs)}
        outputs['by_field'] = {v.field: base + float(i + 1) for i, v in enumerate(self.output_vocabs)}
        return outputs, {'tokens': base}


class ParserNetwork(BaseNetwork):
    pass


class TaggerNetwork(BaseNetwork):
    pass


class Config(object):
    def __init__(self, defaults_file='', config_file='', **kwargs):
        self._c = configparser.RawConfigParser()
        if not self._c.read(config_file):
            raise FileNotFoundError(config_file)
        for section, options in kwargs.items():
            for k, v in options.items():
                self._c.set(section, k, str(v))

    def get(self, section, option):
        return self._c.get(section if isinstance(section, str) else 'DEFAULT', option)


class GraphOutputs(object):
    def __init__(self, outputs, tokens, load=True, evals=None, factored_deptree=None, factored_semgraph=None, config=None):
        NOW['factored'] = [factored_deptree, factored_semgraph]
        self._probabilities = outputs['by_field']
        self.predictions = {'indices': []}
        self.config = config

    @property
    def probabilities(self):
        return dict(self._probabilities)

    def probs_to_preds(self, probabilities, lengths):
        out = {}
        for field, p in probabilities.items():
            a = np.zeros(p.shape, dtype=int)
            for i, n in enumerate(lengths):
                for j in range(1, n):
                    size = n if field == 'dephead' else len(TABLE[field])
                    a[i, j] = int(round(float(p[i, j]))) % size
            out[field] = a
        return out

    def cache_predictions(self, tokens, indices):
        self.predictions['indices'].extend(indices)
        for field in tokens:
            self.predictions.setdefault(field, []).extend(tokens[field])


class CoNLLUDataset(object):
    def __init__(self, conllu_files, vocabs, config=None):
        self.vocabs = vocabs
        self.config = config
        for file in conllu_files:
            for sentence in self.itersents(file):
                if sentence:
                    NOW['given'].append([list(row) for row in sentence])
                    for v in self.vocabs:
                        v.add(sentence)
        self.forms = next(v for v in self.vocabs if v.field == 'form')

    def batch_iterator(self, shuffle=True):
        assert shuffle is False
        for k, b in enumerate(NOW['batches']):
            if k == NOW['fail']:
                raise OverflowError('out of memory')
            yield np.array([i - 1 for i in b])
        if NOW['fail'] == len(NOW['batches']):
            raise OverflowError('out of memory')

    def get_tokens(self, indices):
        return {v.field: [list(v.rows[i]) for i in indices] for v in self.vocabs}, np.array([len(self.forms.rows[i]) for i in indices])

    def set_placeholders(self, indices, feed_dict=None):
        rows = [self.forms.rows[i] for i in indices]
        a = np.zeros((len(rows), max(map(len, rows))), dtype=np.float32)
        for i, row in enumerate(rows):
            sums = [0] + [sum(map(ord, w)) % 1009 for w in row[1:]]
            for j in range(1, len(row)):
                a[i, j] = sums[j] + 5 * j + (3 * sums[j - 1] if j > 1 else 0)
        return {self.forms.placeholder: a}


def install():
    def module(name, **kw):
        m = types.ModuleType(name)
        m.__dict__.update(kw)
        m.__path__ = []
        sys.modules[name] = m
        parent, _, leaf = name.rpartition('.')
        if parent:
            setattr(sys.modules[parent], leaf, m)
        return m
    module('tdozat_parser')
    module('tdozat_parser.parser', ParserNetwork=ParserNetwork, TaggerNetwork=TaggerNetwork, BaseNetwork=BaseNetwork)
    module('tdozat_parser.parser.config', Config=Config)
    module('tdozat_parser.parser.structs')
    module('tdozat_parser.parser.structs.conllu_dataset', CoNLLUDataset=CoNLLUDataset)
    module('tdozat_parser.parser.graph_outputs', GraphOutputs=GraphOutputs)


install()
from babylondigger.wrappers import tdozat as W  # noqa: E402

from common import cps, exc_name, ocps, onum, ost  # noqa: E402
from dm import rand_split  # noqa: E402
from pipeline import mk, rand_doc, view  # noqa: E402


# ------------------------------------------------------------------ scenarios
EXTRA = {'parser': [['rec', ['deptree', 'recur_layer']], ['hid', ['deptree', 'hidden_layer']], ['pr', ['by_field', 'dephead']]],
         'tagger': [['rec', ['upos', 'recur_layer']], ['hid', ['xpos', 'hidden_layer']], ['pr', ['by_field', 'upos']]]}
BADPATH = [['nope'], ['deptree', 'nope'], ['upos', 'nope'], ['by_field', 'nope'], ['by_field', 'upos', 'x'], ['by_field', 'dephead', 'x']]


def rand_model(rng, kind):
    if kind == 'parser':
        outs = ['dephead', 'deprel'] + rng.choice([[], ['semrel'], ['upos'], ['upos', 'lemma']])
    else:
        outs = ['upos', 'xpos'] + rng.choice([[], ['ufeats'], ['lemma'], ['ufeats', 'lemma']])
    rng.shuffle(outs)
    ins = ['id', 'form'] + [f for f in ('lemma', 'upos', 'xpos', 'ufeats', 'dephead', 'deprel') if f not in outs and rng.random() < 0.6]
    m = {'kind': kind, 'outs': outs, 'ins': ins, 'fact': rng.random() < 0.5, 'w': rng.choice([0, 1, 2, 5, 11]), 'flags': [], 'extra': []}
    if rng.random() < 0.6:
        m['extra'] = [list(x) for x in rng.sample(EXTRA[kind], rng.randint(0, 3))]
    m['flags'] = rng.sample({'parser': ['parser_recur_layer'], 'tagger': ['tagger_recur_layer', 'upos_hidden', 'xpos_hidden']}[kind], rng.choice([0, 0, 1]))
    return m


def docs_of(rng, n):
    """documents with n sentences altogether"""
    docs, left = [], n
    while left or (not docs and rng.random() < 0.7) or rng.random() < 0.15:
        k = rng.randint(0, left) if rng.random() < 0.8 else left
        lens = [rng.randint(1, 4) for _ in range(k)]
        d = rand_doc(rng, sum(lens))
        cuts, at = [], 0
        # a cut inside a multiword token is not allowed: sentences as rand_doc made them, if they are as many
        if len(d['sents']) != k:
            for _ in range(200):
                d = rand_doc(rng, sum(lens))
                if len(d['sents']) == k:
                    break
            else:
                continue
        for tok in d['toks']:
            if tok.get('lemma') == ['_']:       # in its files "_" stands for no lemma
                tok['lemma'] = []
        docs.append(d)
        left -= k
    return docs


def orders(rng, n):
    s = list(range(1, n + 1))
    how = rng.choice(['same', 'shuffled', 'reversed'])
    if how == 'shuffled':
        rng.shuffle(s)
    elif how == 'reversed':
        s.reverse()
    out = []
    while s:
        k = rng.randint(1, len(s))
        out.append(s[:k])
        s = s[k:]
    return out


def twin(rng, d):
    """the same text and words in other sentences"""
    d = dict(d, toks=[dict(t, hs=[]) for t in d['toks']])
    d['sents'] = rand_split(rng, len(d['toks'])) if d['toks'] else []
    return d


def call_op(rng, p, n, batches=None, fail=-1):
    docs = docs_of(rng, n)
    if batches is None:
        if docs and rng.random() < 0.3:
            docs.insert(rng.randint(0, len(docs)), twin(rng, rng.choice(docs)))
        batches = orders(rng, sum(len(d['sents']) for d in docs))
    return {'op': 'call', 'p': p, 'docs': docs, 'batches': batches, 'fail': fail, 'via': rng.choice(['process', 'kind']), 'feed': rng.choice(['iter', 'list'])}


def c40_scenarios(tier, rng, gens):
    pick = [g for name in sorted(gens) for g in (rng.sample(gens[name], min(len(gens[name]), 150 if tier == 'quick' else 3000)))]
    for g in pick:
        ops = []
        for o in g:
            # a call outside of the context is refused whatever is asked
            ops.append({'op': o['op'], 'p': 0} if o['op'] != 'call' else call_op(rng, 0, o['n'], o['batches'], o['fail']))
        yield {'models': [rand_model(rng, rng.choice(['parser', 'tagger']))], 'ops': ops}
    for _ in range(200 if tier == 'quick' else 4000):
        models = [rand_model(rng, rng.choice(['parser', 'tagger'])) for _ in range(rng.randint(1, 2))]
        on, ops = [False] * len(models), []
        for _ in range(rng.randint(3, 9)):
            p = rng.randrange(len(models))
            r = rng.random()
            if not on[p] and r < 0.15:
                ops.append({'op': 'enter', 'p': p, 'lost': True})
            elif not on[p] and r < 0.8:
                ops.append({'op': 'enter', 'p': p})
                on[p] = True
            elif on[p] and r < 0.15:
                ops.append({'op': 'leave', 'p': p, 'exc': rng.random() < 0.3})
                on[p] = False
            else:
                n = rng.choice([0, 1, 2, 3, 5, 9])
                o = call_op(rng, p, n)
                if o['batches'] and rng.random() < 0.2:
                    o['fail'] = rng.randint(0, len(o['batches']) - 1)
                ops.append(o)
        yield {'models': models, 'ops': ops}
    for _ in range(25 if tier == 'quick' else 300):
        m = rand_model(rng, rng.choice(['parser', 'tagger']))
        bad = rng.choice(['path', 'class', 'none', 'file'])
        if bad == 'path':
            m['extra'] = m['extra'] + [['bad', rng.choice(BADPATH)]]
        yield {'models': [m], 'ops': [], 'bad': bad}


class Scratch(object):
    def __enter__(self):
        self.path = tempfile.mkdtemp(dir=os.environ.get('VERIF_SCRATCH'))
        return self.path

    def __exit__(self, *a):
        shutil.rmtree(self.path)


def leave_model(where, m, wrong=False):
    """the directory of a trained network: an earlier and the latest checkpoint"""
    cls = {'parser': ParserNetwork, 'tagger': TaggerNetwork}
    name = cls[m['kind']].__name__
    os.makedirs(where)
    with open(os.path.join(where, name + '.cfg'), 'w') as f:
        f.write('[DEFAULT]\nnetwork_class = %s\noutput_fields = %s\ninput_fields = %s\nfactorized = %s\nsave_metadir = /elsewhere\n' % (
            cls['tagger' if m['kind'] == 'parser' else 'parser'].__name__ if wrong else name, ' '.join(m['outs']), ' '.join(m['ins']), m['fact']))
    g = tf.Graph()
    with g.as_default():
        with tf.variable_scope(name):
            w = tf.get_variable('w', shape=[], initializer=tf.constant_initializer(0.))
        saver = tf.train.Saver([w])
    os.makedirs(os.path.join(where, name))
    with tf.Session(graph=g) as sess:
        for step, value in ((1, m['w'] + 3.), (2, float(m['w']))):
            sess.run(w.assign(value))
            saver.save(sess, os.path.join(where, name, 'ckpt'), global_step=step)


def make(where, m):
    kw = {f: True for f in m['flags']}
    if m['extra']:
        kw['extra_fields'] = {name: tuple(path) for name, path in m['extra']}
    return (W.TDozatParser if m['kind'] == 'parser' else W.TDozatTagger)(where, **kw)


FLAG = {'parser_recur_layer': ['deptree', 'recur_layer'], 'tagger_recur_layer': ['upos', 'recur_layer'], 'upos_hidden': ['upos', 'hidden_layer'], 'xpos_hidden': ['xpos', 'hidden_layer']}


def extras_of(m):
    """name, kind of tensor, number of the output it belongs to"""
    out = []
    for name, path in [[f, FLAG[f]] for f in m['flags']] + m['extra']:
        if path[0] == 'by_field':
            out.append([name, 'one', m['outs'].index(path[1]) + 1])
        else:
            mine = [i for i, f in enumerate(m['outs']) if {'dephead': 'deptree', 'deprel': 'deptree', 'semrel': 'semgraph'}.get(f, f) == path[0]]
            out.append([name, path[1], mine[-1] + 1])
    return out


def numbers(v):
    try:
        return [int(round(float(x))) for x in np.asarray(v).reshape(-1)]
    except Exception:
        return [-1]


def given(row):
    u = lambda x: [] if x == '_' else [x]
    return {'id': row[0], 'form': cps(row[1]), 'lemma': ocps(None if row[2] == '_' else row[2]), 'u': u(row[3]), 'x': u(row[4]),
            'f': [] if row[5] == '_' else sorted(e.split('=', 1) for e in row[5].split('|')), 'head': u(row[6]), 'deprel': u(row[7]), 'n': len(row)}


def shown(doc, names):
    v = view(doc)
    xs = []
    for s in doc.sentences:
        for t in s:
            xs.append([[n, numbers(t.extras[n])] for n in names if n in t.extras.keys()])
    for t in v['toks']:
        t['ex'] = [e for e in t['ex'] if e[0] not in names]
    v['xs'] = xs
    return v


def c40_execute(sc):
    with Scratch() as d:
        procs, names, before, on = [], [], tfreal.open_sessions(), [False] * len(sc['models'])
        for k, m in enumerate(sc['models']):
            where = os.path.join(d, 'm%d' % k)
            leave_model(where, m, sc.get('bad') == 'class')
            if sc.get('bad') == 'file':
                where += 'x'
            NOW['factored'] = ['?', '?']
            p = e = None
            try:
                p = make(where, m)
            except Exception as x:
                e = x
            yield {'k': 'make', 'bad': sc.get('bad', 'none'), 'exc': exc_name(e) if e else '', 'outs': m['outs'], 'fact': m['fact'], 'told': [-1 if f is None else int(f) if isinstance(f, bool) else -2 for f in NOW['factored']]}
            procs.append(p)
            names.append([x[0] for x in extras_of(m)] if not sc.get('bad') else [])
        for o in sc['ops']:
            p, m, e = procs[o['p']], sc['models'][o['p']], None
            ckpt = os.path.join(d, 'm%d' % o['p'], {'parser': 'ParserNetwork', 'tagger': 'TaggerNetwork'}[m['kind']])
            if o.get('lost'):
                os.rename(ckpt, ckpt + '.away')
            try:
                if o['op'] == 'enter':
                    r = p.__enter__()
                    on[o['p']] = True
                    yield {'k': 'enter', 'p': o['p'], 'lost': bool(o.get('lost')), 'exc': '', 'same': r is p, 'open': tfreal.open_sessions() - before}
                elif o['op'] == 'leave':
                    x = KeyError('x') if o.get('exc') else None
                    on[o['p']] = False
                    r = p.__exit__(type(x) if x else None, x, None)
                    yield {'k': 'leave', 'p': o['p'], 'exc': '', 'same': not r, 'open': tfreal.open_sessions() - before}
            except Exception as x:
                yield {'k': o['op'], 'p': o['p'], 'lost': bool(o.get('lost')), 'exc': exc_name(x), 'same': True, 'open': tfreal.open_sessions() - before}
            if o.get('lost'):
                os.rename(ckpt + '.away', ckpt)
            if o['op'] != 'call':
                continue
            NOW.update(batches=o['batches'], fail=o['fail'], given=[])
            docs = [mk(x) for x in o['docs']]
            outs = []
            try:
                f = p.process if o['via'] == 'process' else p.parse if m['kind'] == 'parser' else p.tag
                for x in f(iter(docs) if o['feed'] == 'iter' else docs):
                    outs.append(shown(x, names[o['p']]))
            except Exception as x:
                e = x
            yield {'k': 'call', 'p': o['p'], 'docs': [view(x) for x in docs], 'out': outs, 'exc': exc_name(e) if e else '', 'fail': o['fail'],
                   'given': [[given(row) for row in s] for s in NOW['given']], 'outs': m['outs'], 'ins': m['ins'], 'w': m['w'], 'extra': extras_of(m)}
        for p, entered in zip(procs, on):
            if entered:
                p.__exit__(None, None, None)


SCENARIOS = {'C40': c40_scenarios}
EXECUTE = {'C40': c40_execute}
