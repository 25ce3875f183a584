"""Driver for the networks themselves, on the real TensorFlow: losses and predictions (C32), what scores depend on (C33),
models and saved copies (C34), training steps (C35), embeddings (C36), learning (C37)."""
import contextlib
import io
import json
import math
import os
import random
import shutil
import subprocess
import sys
import tempfile

import tfreal

tf = tfreal.install()

import numpy as np  # noqa: E402

from babylondigger.features.provider import FeatureExtractorBuilderProvider  # noqa: E402
from babylondigger.neural.model import Model  # noqa: E402
from babylondigger.neural.tagger.network_provider import get_nn_builder  # noqa: E402

from common import attempt, cps, exc_name, num, ocps  # noqa: E402
from features import mk_bank, rand_docs, rand_pos, word  # noqa: E402

SCENARIO_SECONDS = 240
EMBED, SUB_KERNEL, SUB_CELL, MAXLEN = 3, (3, 4, 1), 2, 4
KEYS = ('size', 'count', 'dilation')
ALPHA = ['a', 'b', 'c', 'A', '\u0456', '-']
SUBS = {'cnn': {'cnn_kernels': [dict(zip(KEYS, SUB_KERNEL))]}, 'rnn': {'lstm_cell_size': SUB_CELL, 'bilstm_layer_count': 1}, 'average': {}, 'self-attention': {}}
LABELS = {'pos_dense': 'pos_labels', 'lemma_dense': 'lemma_labels', 'lemma_suffix': 'lemma_rule_labels', 'lemma_binary': 'lemma_rule_labels', 'lemma_combo': 'output_subwords'}


def sub_conf(agg, **kw):
    return dict({'segmenter': 'char', 'embed_size': EMBED, 'min_frequency': 1, 'trainable': True, 'aggregator': agg, 'aggregator_config': SUBS[agg]}, **kw)


def kernels(ks):
    return [dict(zip(KEYS, k)) for k in ks]


def shared_part(c):
    f = {}
    if c['word']:
        f['word_trained_embedding'] = {'trainable': not c.get('frozen', False), 'size': c['word'], 'min_frequency': 1, 'lowercase': False}
    if c.get('path'):
        f['word_embedding'] = dict({'path': c['path'], 'trainable': c['tuned'], 'lowercase': c.get('lower', False)}, **({'we_dense_size': c['wedense']} if c.get('wedense') else {}))
    # segments by morpheme and byte pair need models: all subword features are cut into characters here
    for name, agg in zip(('word_characters', 'bpe_subwords', 'morfessor_subwords'), c['sub']):
        f[name] = sub_conf(agg, highway_layer=c['highway'], embed_size=c.get('embed', EMBED), trainable=c.get('subtuned', True))
        if c.get('subpath'):
            f[name].update(embedding_path=c['subpath'], trainable=c['tuned'])
    conf = {'skip_connection': c['skip']} if c['skip'] else {}
    if c['shared'].startswith('BiLSTM'):
        conf.update(lstm_cell_size=c['cell'], bilstm_layer_count=c['layers'])
    if c['kernels'] or c['shared'] == 'BiLSTM_CNN':
        conf['cnn_kernels'] = kernels(c['kernels'])
    return {'builder': c['shared'], 'config': conf, 'features_config': f}


def task_part(c, t):
    builder, split, weights = t
    conf = {'shared_name': c['from'], 'dense_size': 6}
    if weights:
        conf['loss_weights'] = {p: w / 1000 for p, w in weights}
    if builder == 'pos_dense':
        return {'builder': builder, 'config': dict(conf, splitting=split)}
    if builder == 'lemma_combo':
        conf.update(cnn_bilstm_dense_size=3, cnn_kernels=kernels([(3, 2, 1), (3, c.get('cembed', EMBED), 1)]))
        return {'builder': builder, 'config': conf, 'features_config': {
            'input_subwords': dict({'embedding_path': c['cpath']} if c.get('cpath') else {}, **{'segmenter': 'char', 'embed_size': c.get('cembed', EMBED), 'min_frequency': 1, 'trainable': c.get('ctuned', True), 'highway_layer': c['highway']}),
            'output_subwords': {'min_frequency': 1, 'max_word_length': MAXLEN, 'segmenter': 'char'}}}
    return {'builder': builder, 'config': conf, 'features_config': {'lemma_suffix_transformation': {'rules_threshold': 0}}}


class Net(object):
    """a built network with its model, reachable through its public interface and its session"""

    def __init__(self, c, bank, seed=1, initialize=True):
        b = get_nn_builder(shared_part(c), [task_part(c, t) for t in c['tasks']], {'optimizer': {'type': c['opt']}}, seed)
        self.fe, self.le, self.it, self.init = FeatureExtractorBuilderProvider(b.feature_providers()).build(bank)
        self.shapes = self.init.shapes()
        net, self.graph = b.build(self.shapes)
        self.attach(Model.new(net, self.graph))
        if initialize:
            self.model.initialize(**self.init.initial_values())

    def attach(self, model):
        self.model, self.session = model, tfreal.SESSIONS[-1]
        self.graph = self.session.graph

    def loaded(self, path, loader=None):
        n = Net.__new__(Net)
        n.fe, n.le, n.it, n.init, n.shapes = self.fe, self.le, self.it, self.init, self.shapes
        n.attach(loader() if loader else Model.load(path))
        return n

    def trainable(self):
        with self.graph.as_default():
            return tf.trainable_variables()

    def variables(self):
        with self.graph.as_default():
            return tf.global_variables()

    def values(self, variables=None):
        vs = self.variables() if variables is None else variables
        return dict(zip([v.name for v in vs], self.session.run(vs))) if vs else {}

    def assign(self, values):
        for v in self.variables():
            if v.name in values:
                v.load(values[v.name], self.session)

    def feats(self, sents):
        return self.fe.get_features(sents)

    def labels(self, sents, lr=0.0, keep=1.0):
        return dict(self.le.get_features(sents), learning_rate=lr, dropout_probability=keep)

    def loss(self, sents, feats=None, labels=None):
        """loss of a batch; a step with learning rate 0"""
        return float(self.model.train(self.feats(sents) if feats is None else feats, dict(self.labels(sents) if labels is None else labels, learning_rate=0.0, dropout_probability=1.0)))

    def step(self, sents, lr, keep=1.0):
        return float(self.model.train(self.feats(sents), self.labels(sents, lr, keep)))

    def predict(self, sents):
        return {n: np.asarray(v) for n, v in self.model.predict(self.feats(sents)).items()}

    def flat(self, variables=None):
        v = self.values(variables)
        return np.concatenate([np.asarray(v[n], dtype=np.float64).reshape(-1) for n in sorted(v)] or [np.zeros(0)])

    def close(self):
        self.model.close()


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)


def micro(x, scale=1e6):
    """a number as an integer; what is no number or beyond all losses becomes a billion"""
    return int(round(x * scale)) if math.isfinite(x) and abs(x * scale) < 1e9 else 10 ** 9


def sents_of(bank):
    return [s for d in bank for s in d.sentences]


def pick(rng, *xs):
    return rng.choice(xs)


def rand_weights(rng, parts):
    if rng.random() < 0.35:
        return []
    ws = [['default', pick(rng, 500, 1000, 2000)]] + [[p, pick(rng, 250, 700, 1500, 3000)] for p in parts if rng.random() < 0.5]
    return ws


def rand_conf(rng, subs=True, tasks=None):
    c = {'shared': pick(rng, 'WE_charCNN', 'BiLSTM', 'BiLSTM_CNN', 'Dilated_CNN'), 'layers': pick(rng, 1, 1, 2), 'skip': pick(rng, '', 'concat', 'sum'), 'cell': pick(rng, 2, 3),
         'kernels': pick(rng, [[3, 4, 1]], [[2, 4, 1]], [[3, 3, 1], [3, 5, 2]], [[3, 4, 2]]), 'word': pick(rng, 2, 3, 4), 'sub': [], 'highway': rng.random() < 0.5, 'opt': 'GD'}
    if subs and rng.random() < 0.6:
        c['sub'] = [pick(rng, 'cnn', 'rnn', 'average', 'self-attention') for _ in range(pick(rng, 1, 1, 2))]
        if rng.random() < 0.4:
            c['word'] = 0
    width = c['word'] + sum({'cnn': SUB_KERNEL[1], 'rnn': 2 * SUB_CELL}.get(a, EMBED) for a in c['sub'])
    if c['skip'] == 'sum' and c['shared'] != 'WE_charCNN':
        if c['shared'] == 'Dilated_CNN':
            c['kernels'] = [k if i < len(c['kernels']) - 1 else [k[0], width, k[2]] for i, k in enumerate(c['kernels'])]
        elif width % 2 == 0:
            c['cell'] = width // 2
        else:
            c['skip'] = ''
    mid = {'BiLSTM': 'bilstm', 'BiLSTM_CNN': 'bilstm', 'Dilated_CNN': 'dilated_cnn'}.get(c['shared'])
    outs = ['word_features'] + ([mid, mid] if mid else []) + ([mid + '_and_word_features'] * 3 if mid and c['skip'] else []) + (['bilstm_cnn'] * 3 if c['shared'] == 'BiLSTM_CNN' else [])
    c['from'] = rng.choice(outs)
    c['tasks'] = tasks or rand_tasks(rng)
    return c


def rand_tasks(rng):
    pos = ['pos_dense', pick(rng, 'pos_UXF', 'pos_XF', 'pos_joint', 'pos_gran'), rand_weights(rng, ['UPOS', 'XPOS', 'FEATS', 'Case'])]
    lemma = [pick(rng, 'lemma_dense', 'lemma_suffix', 'lemma_binary', 'lemma_combo'), '', rand_weights(rng, ['LEMMA'])]
    return pick(rng, [pos], [lemma], [pos, lemma], [pos, lemma], [lemma, pos])


def tok(rng, n=4):
    w = word(rng, n, ALPHA)
    return [w, pick(rng, w, w[:-1] + 'q', word(rng, 3, ALPHA)), [rand_pos(rng, False)]]


def shape_conf(c):
    """the fields the specification reads"""
    return {k: c[k] for k in ('shared', 'layers', 'skip', 'cell', 'kernels', 'word', 'sub', 'highway', 'from', 'opt')} | {'tasks': [t[0] for t in c['tasks']]}


# ------------------------------------------------------------------ C32: losses and predictions
def c32_scenarios(tier, rng, gens):
    fixed = [[['pos_dense', 'pos_UXF', [['default', 1000], ['UPOS', 0], ['XPOS', 700]]]], [['pos_dense', 'pos_UXF', [['default', 1000], ['UPOS', 3000]]], ['lemma_suffix', '', []]], [['pos_dense', 'pos_gran', []], ['lemma_combo', '', [['LEMMA', 500]]]],
             [['lemma_binary', '', [['default', 2000]]]], [['lemma_dense', '', [['LEMMA', 250], ['default', 1000]]], ['pos_dense', 'pos_XF', [['default', 2000]]]],
             [['pos_dense', 'pos_joint', []], ['lemma_binary', '', []]], [['lemma_combo', '', []]], [['lemma_suffix', '', [['default', 1500]]]],
             [['pos_dense', 'pos_UXF', []], ['lemma_combo', '', [['LEMMA', 0], ['default', 2000]]]], [['pos_dense', 'pos_UXF', []], ['lemma_binary', '', [['default', 2000], ['LEMMA', 0]]]]]
    n = 24 if tier == 'quick' else 300
    for i in range(n):
        c = rand_conf(rng, tasks=fixed[i] if i < len(fixed) else None)
        for t in c['tasks'] if i >= len(fixed) else []:
            if t[2] and rng.random() < 0.3:                # a part that is switched off
                rng.choice(t[2])[1] = 0
        docs = rand_docs(rng, rng.randint(4, 9), lambda: tok(rng, 4))
        if i % 4 == 3:                                         # a batch of a single word
            docs.append([[tok(rng, 4)]])
        yield {'c': c, 'docs': docs, 'single': i % 4 == 3, 'seed': rng.randint(1, 999), 'steps': pick(rng, 0, 3, 10), 'more': [[tok(rng, 5) for _ in range(rng.randint(1, 3))] for _ in range(2)], 'r': rng.random()}


def units_of(net, c, sents, feats, labels, base, rng, cap):
    """the loss under every label of every unit; a unit is (task, part, sentence, word, character)"""
    out = []
    for builder, _, ws in c['tasks']:
        name = LABELS[builder]
        shape = net.shapes[name]
        gold = np.array(labels[name])
        if builder == 'lemma_combo':
            places = [(i, j, k, '', shape[0]) for i, s in enumerate(sents) for j in range(s.tokens_count) for k in range(MAXLEN)]
        else:
            places = [(i, j, k, p, shape[p]) for i, s in enumerate(sents) for j in range(s.tokens_count) for k, p in enumerate(shape)]
        runs = sum(x[-1] for x in places)
        if runs > cap:
            return None
        for i, j, k, part, n in places:
            vec = []
            for lab in range(n):
                g = gold.copy()
                g[i, j, k] = lab
                vec.append(base if lab == gold[i, j, k] else net.loss(sents, feats, dict(labels, **{name: g})))
            out.append({'b': builder, 'p': 'LEMMA' if builder == 'lemma_combo' else part, 'i': i, 'j': j, 'k': k, 'gold': int(gold[i, j, k]), 'raw': vec})
    return out


def pad_places(gold, sents):
    return [(i, j, k) for i, s in enumerate(sents) for j in range(s.tokens_count, gold.shape[1]) for k in range(gold.shape[2])]


def weight_of(ws, part):
    d = dict(ws)
    return (d[part] if part in d else d['default']) / 1000 if d else 1.0


def c32_execute(sc):
    rng = random.Random(sc['r'])
    c, bank = sc['c'], mk_bank(sc['docs'])
    sents = sents_of(bank)
    net = Net(c, bank, sc['seed'])
    try:
        for _ in range(sc['steps']):
            net.step(sents, 0.3)
        rng.shuffle(sents)
        batch, total = [], 0
        for s in sents:
            if total + s.tokens_count <= (1 if sc.get('single') else 5):
                batch.append(s)
                total += s.tokens_count
        batch = batch or sents[:1]
        feats, labels = net.feats(batch), {k: v for k, v in net.labels(batch).items()}
        before = net.flat()
        base = net.loss(batch, feats, labels)
        units = units_of(net, c, batch, feats, labels, base, rng, 900)
        if units is None:
            batch = batch[:1]
            feats, labels = net.feats(batch), net.labels(batch)
            base = net.loss(batch, feats, labels)
            units = units_of(net, c, batch, feats, labels, base, rng, 10 ** 6)
        pred = net.predict(batch)
        tokens = [s.tokens_count for s in batch]
        recs = []
        for u in units:
            name, wanted = LABELS[u['b']], pred[LABELS[u['b']]]
            raw = u.pop('raw')
            w = weight_of(next(t[2] for t in c['tasks'] if t[0] == u['b']), u['p']) / (sum(tokens) * (MAXLEN if u['b'] == 'lemma_combo' else 1))
            low = min(x for x in raw if math.isfinite(x))
            lse = w * math.log(sum(math.exp(-(x - low) / w) for x in raw if math.isfinite(x))) if w else 0.0
            app = []
            if name == 'lemma_rule_labels':
                app = [bool(x) for x in feats['applicable_rules'][u['i']][u['j']]]
            recs.append(dict(u, vec=[micro(x) for x in raw], pred=int(wanted[u['i'], u['j'], u['k']]), w=micro(w, 1e7), low=micro(low), lse=micro(lse), app=app))
        pads = []
        for _ in range(2):
            lab = dict(labels)
            for builder, _s, _w in c['tasks']:
                g = np.array(labels[LABELS[builder]])
                shape = net.shapes[LABELS[builder]]
                for i, j, k in pad_places(g, batch):
                    g[i, j, k] = rng.randrange(shape[0] if builder == 'lemma_combo' else list(shape.values())[k])
                lab[LABELS[builder]] = g
            pads.append(micro(net.loss(batch, feats, lab)))
        doubled = []
        if any(t[0] == 'lemma_binary' for t in c['tasks']):
            c2 = dict(c, tasks=[[b, s, ([['default', 2000]] if not w else [[p, 2 * x] for p, x in w]) if b == 'lemma_binary' else w] for b, s, w in c['tasks']])
            other = Net(c2, bank, sc['seed'])
            try:
                other.assign(net.values())
                doubled = [micro(other.loss(batch))]
            finally:
                other.close()
        yield {'k': 'units', 'c': shape_conf(c), 'ws': [[t[0], t[2]] for t in c['tasks']], 'tokens': tokens, 'maxlen': MAXLEN, 'loss': micro(base), 'units': recs, 'pads': pads, 'doubled': doubled,
               'still': bool(np.array_equal(before, net.flat())), 'shapes': sorted([n, list(v.shape)] for n, v in pred.items()), 'parts': sorted([n, MAXLEN if n == 'output_subwords' else len(net.shapes[n])] for n in pred)}
        # words that the training data does not have: only the predictions can be judged
        for s in sents_of(mk_bank([[x] for x in sc['more']])):
            pred, feats = net.predict([s]), net.feats([s])
            for builder, _, _w in c['tasks']:
                v, shape = pred[LABELS[builder]], net.shapes[LABELS[builder]]
                sizes = [shape[0]] * MAXLEN if builder == 'lemma_combo' else list(shape.values())
                yield {'k': 'guess', 'b': builder, 'sizes': sizes, 'n': s.tokens_count, 'pred': [[int(x) for x in row] for row in v[0]],
                       'app': [[bool(x) for x in a] for a in feats['applicable_rules'][0]] if LABELS[builder] == 'lemma_rule_labels' else []}
    finally:
        net.close()


# ------------------------------------------------------------------ C33: configurations, what scores depend on
def c33_scenarios(tier, rng, gens):
    confs = {}
    for x in gens['confs']:
        confs.setdefault((x['f'] + [''])[0], []).append(x['c'])
    k = (18, 4) if tier == 'quick' else (300, 80)
    narrow = [c for c in confs['sum-of-widths'] if c['word'] + len(c['sub']) == 1 or [x[1] for x in c['kernels'][-1:]] == [1]]
    for c in [c for f in sorted(confs) for c in rng.sample(confs[f], min(len(confs[f]), k[f != '']))] + rng.sample(narrow, min(len(narrow), 8 * k[1] // 4)):
        c = dict(c, tasks=[t + [[]] for t in c['tasks']])
        yield {'op': 'conf', 'c': c, 'docs': rand_docs(rng, 6, lambda: tok(rng)), 'seed': rng.randint(1, 99)}
    for i in range(14 if tier == 'quick' else 150):
        c = rand_conf(rng, tasks=[['pos_dense', 'pos_joint', []]])
        long = i % 6 == 4                               # taps further apart than the kernel is wide
        if i % 3 == 0:
            c.update(shared=pick(rng, 'BiLSTM', 'BiLSTM_CNN'), skip='')
            c['from'] = 'bilstm' if c['shared'] == 'BiLSTM' else 'bilstm_cnn'
        elif i % 3 == 1:
            c.update(shared='Dilated_CNN', skip=pick(rng, '', 'concat'), kernels=pick(rng, [[3, 6, 1]], [[2, 6, 1]], [[3, 6, 2]], [[2, 4, 1], [2, 6, 1]], [[3, 4, 1], [3, 6, 1]]))
            c['from'] = 'dilated_cnn' if not c['skip'] else pick(rng, 'dilated_cnn', 'dilated_cnn_and_word_features')
        if long:
            c.update(skip='', kernels=pick(rng, [[2, 6, 3]], [[3, 6, 4]], [[2, 4, 1], [2, 6, 5]]))
            c['from'] = 'dilated_cnn'
        words = sorted({''.join(rng.choice('abc') for _ in range(3)) for _ in range(12)})
        sent = lambda n: [[w, w, [{'u': ['NVA'[x % 3]], 'x': ['xy'[x % 2]], 'f': []}]] for x in [rng.randrange(len(words)) for _ in range(n)] for w in [words[x]]]
        yield {'op': 'dep', 'c': c, 'docs': [[sent(rng.choice([8, 9] if long else [3, 4, 5, 6])) for _ in range(5)]], 'words': words, 'seed': rng.randint(1, 99), 'r': rng.random()}
    for i in range(12 if tier == 'quick' else 200):
        c = rand_conf(rng)
        if i % 2:
            c.update(sub=pick(rng, [], ['average'], ['average', 'average']), word=4, skip=pick(rng, '', 'concat'))
            if c['shared'] == 'Dilated_CNN':
                c['shared'] = 'BiLSTM_CNN'
            if i % 4 == 1:
                c.update(shared=pick(rng, 'BiLSTM', 'BiLSTM', 'BiLSTM_CNN'), layers=pick(rng, 2, 2, 3))
            c['from'] = {'WE_charCNN': 'word_features', 'BiLSTM': 'bilstm', 'BiLSTM_CNN': 'bilstm_cnn'}[c['shared']]
        yield {'op': 'mates', 'c': c, 'docs': rand_docs(rng, rng.randint(6, 14), lambda: tok(rng, 5)), 'more': [[tok(rng, 6) for _ in range(rng.randint(1, 4))] for _ in range(2)], 'seed': rng.randint(1, 99), 'r': rng.random()}


def c33_execute(sc):
    c, bank = sc['c'], mk_bank(sc['docs'])
    sents = sents_of(bank)
    if sc['op'] == 'conf':
        net, e = attempt(lambda: Net(c, bank, sc['seed']))
        if e is not None:
            yield {'k': 'conf', 'asked': [], 'c': shape_conf(c), 'exc': exc_name(e), 'shapes': [], 'tokens': []}
            return
        try:
            net.loss(sents[:3])
            pred = net.predict(sents[:3])
            b = get_nn_builder(shared_part(c), [task_part(c, t) for t in c['tasks']], {'optimizer': {'type': c['opt']}}, 1)
            asked = [sorted(type(p).__name__ for p in b.feature_providers()) for _ in range(3)]
            yield {'k': 'conf', 'asked': asked, 'c': shape_conf(c), 'exc': '', 'shapes': sorted([n, list(v.shape)] for n, v in pred.items()), 'tokens': [s.tokens_count for s in sents[:3]]}
        finally:
            net.close()
        return
    rng = random.Random(sc['r'])
    net = Net(c, bank, sc['seed'])
    try:
        for _ in range(8):
            net.step(sents, 0.5)
        if sc['op'] == 'dep':
            n = max(s.tokens_count for s in sents)
            deps = [[False] * n for _ in range(n)]
            for d in range(2):
                base = [rng.choice(sc['words']) for _ in range(n)]
                ref = scores_of(net, base)
                for i in range(n):
                    for _ in range(2):
                        other = rng.choice([w for w in sc['words'] if w != base[i]])
                        got = scores_of(net, base[:i] + [other] + base[i + 1:])
                        for j in range(n):
                            deps[i][j] |= bool(np.max(np.abs(got[j] - ref[j])) > 1e-5 * n)
            yield {'k': 'dep', 'c': shape_conf(c), 'n': n, 'dep': deps}
        else:
            noise = np.random.RandomState(rng.randrange(10 ** 6))
            net.assign({n: v + noise.uniform(-0.5, 0.5, size=v.shape).astype(np.float32) for n, v in net.values().items() if v.dtype == np.float32})
            rng.shuffle(sents)
            sents = sents[:4] + [s for x in sc['more'] for s in sents_of(mk_bank([[x]]))] * (not any(t[0] == 'lemma_dense' for t in c['tasks']))
            strip = lambda p, b: [[n, [[[int(x) for x in row] for row in v[i][:s.tokens_count]] for i, s in enumerate(b)]] for n, v in sorted(p.items())]
            together = strip(net.predict(sents), sents)
            order = list(range(len(sents)))
            rng.shuffle(order)
            turned = strip(net.predict([sents[i] for i in order]), [sents[i] for i in order])
            back = [[n, [v[order.index(i)] for i in range(len(sents))]] for n, v in turned]
            alone = [strip(net.predict([s]), [s]) for s in sents]
            alone = [[n, [a[k][1][0] for a in alone]] for k, (n, _) in enumerate(together)]
            yield {'k': 'mates', 'c': shape_conf(c), 'tokens': [s.tokens_count for s in sents], 'together': together, 'turned': back, 'alone': alone, 'loss': micro(net.loss(sents)),
                   'lturned': micro(net.loss([sents[i] for i in order])), 'lalone': [micro(net.loss([s])) for s in sents], 'again': strip(net.predict(sents), sents)}
    finally:
        net.close()


def scores_of(net, words):
    """per word: how the loss changes with its label"""
    bank = mk_bank([[[[w, w, [{'u': ['N'], 'x': ['x'], 'f': []}]] for w in words]]])
    s = sents_of(bank)
    feats, labels = net.feats(s), net.labels(s)
    gold = np.zeros_like(np.array(labels['pos_labels']))
    base = net.loss(s, feats, dict(labels, pos_labels=gold))
    out = []
    for j in range(len(words)):
        row = []
        for lab in range(1, list(net.shapes['pos_labels'].values())[0]):
            g = gold.copy()
            g[0, j, 0] = lab
            row.append((net.loss(s, feats, dict(labels, pos_labels=g)) - base) * len(words))
        out.append(np.array(row or [0.0]))
    return out


# ------------------------------------------------------------------ C34: models and saved copies
def c34_scenarios(tier, rng, gens):
    runs = gens['lives']
    for i in range(18 if tier == 'quick' else 250):
        c = rand_conf(rng)
        c['opt'] = pick(rng, 'GD', 'Adam', 'RMSProp')
        c2 = dict(rand_conf(rng), opt=c['opt'])                # another network, which is saved at the same places
        again = i % 3 == 1
        while again and [t[0] for t in c2['tasks']] == [t[0] for t in c['tasks']]:
            c2 = dict(rand_conf(rng), opt=c['opt'])
        for x in (c, c2):
            if x['skip'] != 'sum' and rng.random() < 0.5:
                x.update(path='words.vec', tuned=rng.random() < 0.5, wedense=pick(rng, 0, 4))
        base = pick(rng, 0, 0, 1, 2, 77, rng.randint(1, 10 ** 6))
        seeds = [base, base + pick(rng, 1, 256, 1000, 65536, 10 ** 6, 2 ** 24, 2 ** 30)]
        rng.shuffle(seeds)
        yield {'c': c, 'c2': c2, 'seeds': seeds, 'docs': rand_docs(rng, rng.randint(6, 12), lambda: tok(rng, 4)), 'ops': rng.choice(gens['again'] if again else runs), 'other': i % 3 == 0, 'r': rng.random()}


def seen(net, probe, projections):
    flat = net.flat()
    rs = np.random.RandomState(5)
    proj = [micro(float(np.dot(flat, rs.choice([-1.0, 1.0], size=flat.shape))), 1e5) for _ in range(projections)]
    pred = [int(x) for n, v in sorted(net.predict(probe).items()) for x in v.reshape(-1)]
    return [len(flat), proj, pred]


def c34_run(confs, seeds, bank, ops, root, at, emit):
    """executes the operations; emit(operation, exception, observations of all open models); at: which network is saved where"""
    sents = sents_of(bank)
    half = max(1, len(sents) // 2)
    batches, probe = [sents[:half], sents[half:] or sents[:1]], sents[:4]
    nets, loaders, kind = [], {}, []
    try:
        for o in ops:
            loss = []

            def go():
                if o['op'] == 'new':
                    kind.append(o['x'] == 3)
                    nets.append([Net(confs[kind[-1]], bank, (seeds + seeds[:1])[o['x'] - 1]), True])
                elif o['op'] == 'load':
                    kind.append(at[o['p']])
                    c = confs[kind[-1]]
                    base = Net.__new__(Net)
                    b = get_nn_builder(shared_part(c), [task_part(c, t) for t in c['tasks']], {'optimizer': {'type': c['opt']}}, 1)
                    base.fe, base.le, base.it, base.init = FeatureExtractorBuilderProvider(b.feature_providers()).build(bank)
                    base.shapes = base.init.shapes()
                    nets.append([base.loaded(os.path.join(root, o['p']), loaders.get(o['p']) if len(nets) % 2 else None), True])
                elif o['op'] == 'train':
                    loss.append(micro(nets[o['m'] - 1][0].step(batches[o['x'] - 11], 0.2)))
                elif o['op'] == 'still':
                    nets[o['m'] - 1][0].step(batches[0], 0.0)
                elif o['op'] == 'predict':
                    nets[o['m'] - 1][0].predict(probe)
                elif o['op'] == 'save':
                    path = os.path.join(root, o['p'])
                    os.makedirs(path, exist_ok=True)
                    loaders[o['p']] = nets[o['m'] - 1][0].model.save(path)
                    at[o['p']] = kind[o['m'] - 1]
                else:
                    nets[o['m'] - 1][0].close()
                    nets[o['m'] - 1][1] = False
            _, e = attempt(go)
            emit(o, exc_name(e) if e else '', [] if e else [[k + 1] + seen(n, probe, 4) for k, (n, up) in enumerate(nets) if up], loss)
            if e:
                break
    finally:
        for n, up in nets:
            if up:
                n.close()


def c34_execute(sc):
    c, bank, at = sc['c'], mk_bank(sc['docs']), {}
    ops = [dict(o, op='predict') if o['op'] == 'still' and c['opt'] != 'GD' else o for o in sc['ops']]
    with tempfile.TemporaryDirectory() as root:
        out = []
        confs = [dict(x, path=os.path.join(root, 'words.vec')) if x.get('path') else x for x in (c, sc['c2'])]
        rng = random.Random(sc['r'])
        with open(os.path.join(root, 'words.vec'), 'w', encoding='utf-8') as f:
            words = sorted({t[0] for d in sc['docs'] for s in d for t in s})
            words = words[::2] + ['zz']
            f.write('%d 3\n' % len(words))
            for w in words:
                f.write(w + ''.join(' %.3f' % rng.uniform(-1, 1) for _ in range(3)) + '\n')
        c34_run(confs, sc['seeds'], bank, ops, root, at, lambda o, e, obs, loss: out.append({'k': 'op', 'o': o, 'exc': e, 'loss': loss, 'obs': [{'m': x[0], 'n': x[1], 'proj': x[2], 'pred': x[3]} for x in obs], 'other': False}))
        for r in out:
            yield r
        saved = sorted({o['p'] for o in ops if o['op'] == 'save'})
        for what in ('nothing', 'empty') + (('graph', 'mapping') if saved and out and not out[-1]['exc'] else ()):     # what is missing
            path = os.path.join(root, 'absent')
            shutil.rmtree(path, ignore_errors=True)
            if what == 'empty':
                os.makedirs(path)
            elif what != 'nothing':
                shutil.copytree(os.path.join(root, rng.choice(saved)), path)
                for name in os.listdir(path):
                    if name.startswith('mapping') == (what == 'mapping'):
                        os.remove(os.path.join(path, name))
            before = tfreal.open_sessions()
            _, e = attempt(lambda: Model.load(path).close())
            yield {'k': 'absent', 'o': {'op': 'predict', 'm': 1, 'x': 0, 'p': what}, 'exc': exc_name(e) if e else '', 'obs': [], 'other': True, 'left': tfreal.open_sessions() - before}
            shutil.rmtree(path, ignore_errors=True)
        if sc['other'] and not any(r['exc'] for r in out):
            n = sum(o['op'] in ('new', 'load') for o in ops)
            files = sorted({o['p'] for o in ops if o['op'] == 'save'})
            more = [{'op': 'new', 'm': 0, 'x': 1, 'p': ''}] + [{'op': 'load', 'm': 0, 'x': 0, 'p': p} for p in files]
            more += [{'op': 'train', 'm': k + 1, 'x': 12, 'p': ''} for k in range(len(more))]
            job = os.path.join(root, 'job.json')
            with open(job, 'w') as f:
                json.dump({'confs': confs, 'seeds': sc['seeds'], 'at': at, 'docs': sc['docs'], 'ops': more, 'root': root}, f)
            p = subprocess.run([sys.executable, os.path.abspath(__file__), job], env=dict(os.environ, PYTHONHASHSEED='77'), capture_output=True, text=True, timeout=200)
            if p.returncode:
                raise RuntimeError('another process failed: ' + p.stderr[-1500:])
            for o, e, obs, loss in json.loads(p.stdout.split('\n')[-2] if p.stdout.endswith('\n') else p.stdout.split('\n')[-1]):
                o = dict(o, m=o['m'] and o['m'] + n)
                yield {'k': 'op', 'o': o, 'exc': e, 'loss': loss, 'obs': [{'m': x[0] + n, 'n': x[1], 'proj': x[2], 'pred': x[3]} for x in obs], 'other': True}


# ------------------------------------------------------------------ C35: training steps
def c35_scenarios(tier, rng, gens):
    for i in range(14 if tier == 'quick' else 250):
        c = rand_conf(rng)
        docs = rand_docs(rng, rng.randint(4, 10), lambda: tok(rng, 4))
        if i % 2:                                   # every word once and no subwords: the embeddings of a step are different ones
            c['sub'], c['word'], c['skip'] = [], c['word'] or 4, ''
            c['from'] = {'WE_charCNN': 'word_features', 'BiLSTM': 'bilstm', 'BiLSTM_CNN': 'bilstm_cnn', 'Dilated_CNN': 'dilated_cnn'}[c['shared']]
            c['tasks'] = [t if t[0] != 'lemma_combo' else ['lemma_suffix'] + t[1:] for t in c['tasks']]
            have = set()
            for d in docs:
                for s in d:
                    for t in s:
                        while t[0] in have:
                            t[0] += rng.choice(ALPHA)
                        have.add(t[0])
        yield {'c': c, 'docs': docs, 'seed': rng.randint(1, 999), 'steps': pick(rng, 0, 2), 'big': pick(rng, 3, 20, 400), 'r': rng.random()}


def keep_rates(sc):
    """losses of one word under low, middle and high rates of keeping; every bias is positive"""
    c = {'shared': 'WE_charCNN', 'layers': 1, 'skip': '', 'cell': 2, 'kernels': [], 'word': 3, 'sub': [], 'highway': False, 'opt': 'GD', 'from': 'word_features', 'tasks': [['pos_dense', 'pos_joint', []]]}
    bank = mk_bank([[[['a', 'a', [{'u': ['N'], 'x': [], 'f': []}]]], [['b', 'b', [{'u': ['V'], 'x': [], 'f': []}]]], [['c', 'c', [{'u': ['A'], 'x': [], 'f': []}]]]]])
    net = Net(c, bank, sc['seed'])
    try:
        r = np.random.RandomState(int(sc['r'] * 10 ** 6))
        net.assign({n: r.uniform(0.3, 0.9, size=v.shape).astype(np.float32) if v.ndim == 1 else r.uniform(-1, 1, size=v.shape).astype(np.float32) for n, v in net.values().items() if v.dtype == np.float32})
        s = sents_of(bank)[:1]
        out = [[micro(float(net.model.train(net.feats(s), net.labels(s, 0.0, keep)))) for _ in range(60)] for keep in (0.05, 0.5, 0.97)]
        return out, micro(net.loss(s))
    finally:
        net.close()


def c35_execute(sc):
    rng = random.Random(sc['r'])
    rates, full = keep_rates(sc)
    yield {'k': 'keep', 'rates': rates, 'full': full}
    c, bank = sc['c'], mk_bank(sc['docs'])
    sents = sents_of(bank)[:4]
    net = Net(c, bank, sc['seed'])
    others = []
    try:
        for _ in range(sc['steps']):
            net.step(sents, 0.1)
        start = net.values()
        names = sorted(v.name for v in net.trainable())
        flat = lambda n: np.concatenate([np.asarray(n.values(n.trainable())[k], dtype=np.float64).reshape(-1) for k in names])

        def move(n, lr):
            n.assign(start)
            before = flat(n)
            n.step(sents, lr)
            return flat(n) - before
        g = -move(net, 1.0)
        half = move(net, 0.5)
        net.assign(start)
        l0 = net.loss(sents)
        norm = float(np.linalg.norm(g))
        eps = min(0.1, 0.01 / max(norm ** 2, 1e-9))
        net.assign(start)
        net.step(sents, eps)
        l1 = net.loss(sents)
        net.assign(start)
        preds = [net.predict(sents), net.predict(sents)]
        noisy = [micro(float(net.model.train(net.feats(sents), net.labels(sents, 0.0, 0.5)))) for _ in range(8)]
        plain = [micro(net.loss(sents)) for _ in range(3)]
        preds.append(net.predict(sents))
        scale = lambda ws: [[p, w * sc['big']] for p, w in (ws or [['default', 1000]])]
        big = Net(dict(c, tasks=[[b, s, scale(w)] for b, s, w in c['tasks']]), bank, sc['seed'])
        others.append(big)
        gw = -move(big, 1.0)
        moves = {}
        for opt in ('Adam', 'RMSProp'):
            n = Net(dict(c, opt=opt), bank, sc['seed'])
            others.append(n)
            moves[opt] = move(n, 0.1)
            moves[opt + '2'] = move(n, 0.1)             # from the same place, with what the optimizer remembers of the first step
        moves['GD2'] = -move(net, 1.0)
        idx = list(np.argsort(-np.abs(g))[:10]) + [rng.randrange(len(g)) for _ in range(10)]
        yield {'k': 'step', 'c': shape_conf(c), 'coords': [{'g': micro(g[i]), 'h': micro(half[i]), 'w': micro(gw[i]), 'adam': micro(moves['Adam'][i]), 'rms': micro(moves['RMSProp'][i]),
                                                            'g2': micro(moves['GD2'][i]), 'adam2': micro(moves['Adam2'][i]), 'rms2': micro(moves['RMSProp2'][i])} for i in idx],
               'distinct': not c['sub'] and all(t[0] != 'lemma_combo' for t in c['tasks']) and len({t.text for s in sents for t in s}) == sum(s.tokens_count for s in sents),
               'norm': micro(norm, 1e3), 'bignorm': micro(float(np.linalg.norm(gw)), 1e3), 'big': sc['big'], 'drop': micro(l0 - l1), 'wanted': micro(eps * norm ** 2),
               'noisy': noisy, 'plain': plain, 'same': all(np.array_equal(preds[0][k], p[k]) for p in preds for k in p)}
    finally:
        for n in [net] + others:
            n.close()


# ------------------------------------------------------------------ C36: embeddings
def c36_scenarios(tier, rng, gens):
    for i in range(18 if tier == 'quick' else 250):
        c = rand_conf(rng)
        what = ('word', 'sub', 'own', 'ownsub', 'combo', 'combofile')[i % 6]
        docs = rand_docs(rng, rng.randint(6, 14), lambda: tok(rng, 4))
        have = sorted({t[0] for d in docs for s in d for t in s})
        units = have if what == 'word' else sorted({x for w in have for x in w})
        extra = ['zz', 'q'] if what == 'word' else ['z']
        units = [u for u in units if rng.random() < 0.7] + extra
        tuned = rng.random() < 0.5
        sc = {'what': what, 'docs': docs, 'seed': rng.randint(1, 999), 'tuned': tuned, 'file': [], 'dim': 7}
        if what in ('own', 'word'):
            c['sub'] = []
        if what == 'own':
            c.update(word=7, frozen=not tuned, skip='')
        elif what == 'word':
            c.update(word=0, skip='', wedense=pick(rng, 0, 6))
        elif what in ('sub', 'ownsub'):
            c.update(word=0, sub=[pick(rng, 'cnn', 'average', 'rnn')], highway=False, skip='')
            if i % 12 >= 6:                                    # fixed below a trained layer
                c['sub'], sc['tuned'] = [pick(rng, 'cnn', 'rnn')], False
            c['highway'] = i % 12 >= 6 or c['sub'] != ['average'] and rng.random() < 0.5
        else:
            c.update(skip='')
            c['tasks'] = [['lemma_combo', '', []]]
        if what == 'combofile':
            sc['dim'] = 6
        c['from'] = {'WE_charCNN': 'word_features', 'BiLSTM': 'bilstm', 'BiLSTM_CNN': 'bilstm_cnn', 'Dilated_CNN': 'dilated_cnn'}[c['shared']]
        if what in ('word', 'sub', 'combofile'):
            sc['file'] = [[u, [0.0 if k and rng.random() < 0.2 else 1.0] * sc['dim']] for k, u in enumerate(units)]
            sc['file'] = [[u, [x * rng.randint(-900, 900) / 1000 for x in v]] for u, v in sc['file']]
            rng.shuffle(sc['file'])
        yield dict(sc, c=c, lower=False, r=rng.random())


FEATURE = {'word': 'words', 'sub': 'characters', 'own': 'trained_words', 'ownsub': 'characters', 'combo': 'input_subwords', 'combofile': 'input_subwords'}


def c36_execute(sc):
    c, bank, what, dim = dict(sc['c'], tuned=sc['tuned']), mk_bank(sc['docs']), sc['what'], sc['dim']
    sents = sents_of(bank)
    with tempfile.TemporaryDirectory() as root:
        if sc['file']:
            path = os.path.join(root, 'vectors.txt')
            with open(path, 'w', encoding='utf-8') as f:
                f.write('%d %d\n' % (len(sc['file']), dim))
                for u, v in sc['file']:
                    f.write(' '.join([u] + ['%.4f' % x for x in v]) + '\n')
            if what == 'word':
                c['path'] = path
            elif what == 'combofile':
                c.update(cpath=path, cembed=dim)
            else:
                c['subpath'] = path
        if what == 'ownsub':
            c.update(embed=dim, subtuned=sc['tuned'])
        elif what.startswith('combo'):
            c.update(cembed=dim, ctuned=sc['tuned'])
        net = Net(c, bank, sc['seed'])
        try:
            feats = net.feats(sents[:2])
            used = {int(x) for row in feats[FEATURE[what]] for w in row for x in (w if isinstance(w, (list, tuple)) or getattr(w, 'ndim', 0) else [w])}
            rows = net.shapes[{'word': 'word_embeddings'}.get(what, FEATURE[what])][0]
            found = [v for v in net.variables() if v.shape.as_list() == [rows, dim]]
            before = [net.values([v])[v.name] for v in found]
            for _ in range(3):
                net.step(sents[:2], 1.0)
            after = [net.values([v])[v.name] for v in found]
            known = {}
            for u, vec in sc['file']:
                probe = net.feats(sents_of(mk_bank([[[[u, u, [{'u': ['N'], 'x': ['x'], 'f': []}]]]]])))[FEATURE[what]][0][0]
                if what != 'word':
                    probe = probe[1]                   # between the marks of the start and the end
                known[int(probe)] = [micro(float(np.float32(x))) for x in vec]
            yield {'k': 'emb', 'what': what, 'tuned': sc['tuned'], 'dim': dim, 'file': [[num(k), known[k]] for k in sorted(known)], 'nfile': len(sc['file']), 'fromfile': bool(sc['file']), 'tables': len(found),
                   'rows': [[{'id': i, 'used': i in used, 'v0': [micro(float(x)) for x in b[i]], 'v1': [micro(float(x)) for x in a[i]]} for i in range(rows)] for b, a in zip(before[:1], after[:1])]}
        finally:
            net.close()


# ------------------------------------------------------------------ C37: learning
def c37_scenarios(tier, rng, gens):
    # lemma_binary is left out: its scores are linear, so that it cannot prefer different rules for different words
    combos = [('pos_UXF', 'lemma_suffix'), ('pos_gran', 'lemma_suffix'), ('pos_XF', 'lemma_combo'), ('pos_joint', 'lemma_dense'), ('pos_UXF', ''), ('', 'lemma_combo'), ('', 'lemma_suffix'), ('pos_joint', 'lemma_combo')]
    for i in range(12 if tier == 'quick' else 120):
        split, lemma = combos[i % len(combos)]
        shared = ('WE_charCNN', 'BiLSTM', 'BiLSTM_CNN', 'Dilated_CNN')[(i + i // 8) % 4]
        words = sorted({''.join(rng.choice('abcd') for _ in range(rng.randint(2, MAXLEN - 2))) for _ in range(9)})
        rng.shuffle(words)
        entry = {}
        for w in words:
            entry[w] = [w, w[:-1] + rng.choice(['', 'q', 'x'] if len(w) > 1 else ['q', 'x']), [rand_pos(rng, False)]]
        docs = [[[entry[rng.choice(words)] for _ in range(rng.randint(1, 4))] for _ in range(rng.randint(1, 3))] for _ in range(8)]
        before = rand_docs(rng, 3, lambda: tok(rng, 4)) if rng.random() < 0.6 else []      # the directory has taggers of another training
        yield {'before': before, 'shared': shared, 'split': split, 'lemma': lemma, 'docs': docs, 'seed': rng.randint(1, 9), 'batch': pick(rng, 1, 2, 3), 'ctx': pick(rng, True, False)}


class Score(object):
    def __init__(self, x):
        self.aligned_accuracy = x


def c37_execute(sc):
    from babylondigger.neural.tagger.neural_tagger import NeuralTaggerTrainer, LazyNeuralTagger
    from dm import pr_pos
    bank = mk_bank(sc['docs'])
    docs = list(bank)
    mid = {'BiLSTM': 'bilstm_and_word_features', 'BiLSTM_CNN': 'bilstm_cnn', 'Dilated_CNN': 'dilated_cnn_and_word_features'}
    c = {'shared': sc['shared'], 'layers': 1, 'skip': 'concat' if sc['shared'] != 'WE_charCNN' else '', 'cell': 8, 'kernels': [[3, 10, 1]], 'word': 12, 'sub': [], 'highway': False, 'opt': 'Adam',
         'from': mid.get(sc['shared'], 'word_features') if sc['ctx'] else 'word_features'}
    conf = {'general': {'optimizer': {'type': 'Adam', 'initial_lr': 0.02, 'lr_decay': 0.0}}, 'shared_part': shared_part(c)}
    tasks = []
    if sc['split']:
        conf['pos'] = task_part(c, ['pos_dense', sc['split'], []])
        conf['pos']['config']['dense_size'] = 32
        tasks.append('pos')
    if sc['lemma']:
        conf['lemma'] = task_part(c, [sc['lemma'], '', []])
        conf['lemma']['config'].update({'cnn_bilstm_dense_size': 16, 'cnn_kernels': kernels([(3, 24, 1), (1, 12, 1)])} if sc['lemma'] == 'lemma_combo' else {'dense_size': 32})
        if sc['lemma'] == 'lemma_combo':
            conf['lemma']['features_config']['input_subwords'].update(embed_size=12, highway_layer=False)
        tasks.append('lemma')

    class Repeat(object):
        def __iter__(self):
            for _ in range(60):
                yield from docs
    show = lambda ds: [[pr_pos(t.pos) if sc['split'] else [], ocps(t.lemma) if sc['lemma'] else []] for d in ds for t in d.tokens]
    bare = lambda ds: [[t.start, t.end, t.text] for d in ds for t in d.tokens]
    with tempfile.TemporaryDirectory() as root:
        got = []

        def tester(tagger):
            out = list(tagger.tag(iter(docs)))
            right = sum(a == b for a, b in zip(show(out), show(docs)))
            got.append([show(out), bare(out) == bare(docs) and [d.text for d in out] == [d.text for d in docs]])
            return {'x': Score(right)}
        kw = {'seed': sc['seed'], 'nn_config': conf, 'tasks': tasks, 'epochs': 2, 'dropout': 1.0, 'batch_size': sc['batch'], 'model_dir': root}
        if sc['before']:
            first = quiet(lambda: list(NeuralTaggerTrainer().train(mk_bank(sc['before']), lambda t: {'x': Score(len(list(t.tag(iter(docs[:1])))))}, **kw)))
            assert len(first) == 2
        pairs = quiet(lambda: list(NeuralTaggerTrainer().train(Repeat(), tester, **kw)))
        again = [list(t.tag(iter(docs))) for _, t in pairs]
        yield {'k': 'learn', 'conf': [sc['shared'], sc['split'], sc['lemma'], c['from']], 'want': show(docs), 'got': [g[0] for g in got], 'kept': all(g[1] for g in got), 'again': [show(a) for a in again], 'models': len(pairs)}


def main(path):
    with open(path) as f:
        job = json.load(f)
    out = []
    c34_run(job['confs'], job['seeds'], mk_bank(job['docs']), job['ops'], job['root'], job['at'], lambda o, e, obs, loss: out.append([o, e, obs, loss]))
    print()
    print(json.dumps(out))


SCENARIOS = {'C32': c32_scenarios, 'C33': c33_scenarios, 'C34': c34_scenarios, 'C35': c35_scenarios, 'C36': c36_scenarios, 'C37': c37_scenarios}
EXECUTE = {'C32': c32_execute, 'C33': c33_execute, 'C34': c34_execute, 'C35': c35_execute, 'C36': c36_execute, 'C37': c37_execute}

if __name__ == '__main__':
    main(sys.argv[1])
