"""Driver for what the networks compute (C38): networks with small whole weights, and the scores they give."""
import os
import random
import tempfile

import netreal
from netreal import KEYS, MAXLEN, Net, kernels, sents_of, pick, ALPHA, LABELS

import numpy as np

from common import cps  # noqa: F401
from features import mk_bank, rand_docs, rand_pos, word

SCENARIO_SECONDS = 120
FEATURES = ('word_characters', 'bpe_subwords', 'morfessor_subwords')
NAMES = ('characters', 'bpe_subwords', 'morfessor_subwords')


def agg_conf(sub):
    return {'cnn': {'cnn_kernels': kernels(sub['kernels'])}, 'rnn': {'lstm_cell_size': sub['cell'], 'bilstm_layer_count': sub['layers']}}.get(sub['agg'], {})


def parts(c, path):
    f = {}
    if c['word']:
        f['word_trained_embedding'] = {'trainable': True, 'size': c['word'], 'min_frequency': 1, 'lowercase': False}
    if c['pre']:
        f['word_embedding'] = dict({'path': path, 'trainable': True, 'lowercase': False}, **({'we_dense_size': c['pre'][1]} if c['pre'][1] else {}))
    for name, sub in zip(FEATURES, c['subs']):
        # what is not asked for is sometimes left out altogether
        f[name] = dict({'highway_layer': sub['highway']} if sub['highway'] or sub['e'] % 2 else {}, segmenter='char', embed_size=sub['e'], min_frequency=1, aggregator=sub['agg'],
                       **dict({'aggregator_config': agg_conf(sub)} if agg_conf(sub) else {}, **({'trainable': True} if sub['e'] % 2 else {})))
    conf = {'skip_connection': c['skip']} if c['skip'] else {}
    if c['shared'].startswith('BiLSTM'):
        conf.update(lstm_cell_size=c['cell'], bilstm_layer_count=c['layers'])
    if c['shared'] in ('Dilated_CNN', 'BiLSTM_CNN'):
        conf['cnn_kernels'] = kernels(c['kernels'])
    task = []
    if c['dense']:
        task.append({'builder': 'pos_dense', 'config': {'shared_name': c['from'], 'dense_size': c['dense'], 'splitting': 'pos_joint'}})
    for cb in c['combo']:
        task.append({'builder': 'lemma_combo', 'config': {'shared_name': c['from'], 'cnn_bilstm_dense_size': cb['d'], 'cnn_kernels': kernels(cb['kernels'])}, 'features_config': {
            'input_subwords': dict({'highway_layer': True} if cb['highway'] else {}, segmenter='char', embed_size=cb['e'], min_frequency=1),
            'output_subwords': {'min_frequency': 1, 'max_word_length': MAXLEN, 'segmenter': 'char'}}})
    return {'builder': c['shared'], 'config': conf, 'features_config': f}, task


class Fixed(Net):
    def __init__(self, c, bank, path):
        shared, task = parts(c, path)
        b = netreal.get_nn_builder(shared, task, {'optimizer': {'type': 'GD'}}, 1)
        self.fe, self.le, self.it, self.init = netreal.FeatureExtractorBuilderProvider(b.feature_providers()).build(bank)
        self.shapes = self.init.shapes()
        net, self.graph = b.build(self.shapes)
        self.attach(netreal.Model.new(net, self.graph))
        self.model.initialize(**self.init.initial_values())


def width_of(sub):
    return {'cnn': sub['kernels'][-1][1], 'rnn': 2 * sub['cell']}.get(sub['agg'], sub['e'])


def c38_conf(rng, k):
    c = {'shared': ('WE_charCNN', 'BiLSTM', 'BiLSTM_CNN', 'Dilated_CNN')[k % 4], 'layers': pick(rng, 1, 2, 3), 'skip': pick(rng, '', 'concat', 'sum'), 'cell': pick(rng, 2, 3), 'kernels': [], 'word': pick(rng, 0, 3, 4),
         'pre': pick(rng, [], [], [4, 0], [3, 5]), 'subs': [], 'dense': pick(rng, 4, 5), 'combo': [], 'from': '', 'tasks': [], 'sub': [], 'highway': False, 'opt': 'GD'}
    for agg in ([('cnn', 'rnn', 'average', 'self-attention')[(k // 4) % 4]] if k % 3 else []) + ([pick(rng, 'cnn', 'average')] if rng.random() < 0.3 else []):
        c['subs'].append({'agg': agg, 'e': pick(rng, 4, 9) if agg == 'self-attention' else pick(rng, 2, 3), 'kernels': pick(rng, [[3, 3, 1]], [[2, 4, 1]], [[3, 3, 2], [2, 3, 1]]), 'cell': 2, 'layers': pick(rng, 1, 2), 'highway': rng.random() < 0.5})
    if not c['word'] and not c['pre'] and not c['subs']:
        c['word'] = 4
    width = c['word'] + (c['pre'][1] or c['pre'][0] if c['pre'] else 0) + sum(width_of(s) for s in c['subs'])
    c['kernels'] = pick(rng, [[3, 3, 1]], [[2, 4, 1]], [[3, 3, 2]], [[3, 3, 1], [3, 4, 2]], [[2, 3, 3], [3, 3, 1]])
    if c['skip'] == 'sum':
        if c['shared'] == 'Dilated_CNN':
            c['kernels'][-1] = [c['kernels'][-1][0], width, c['kernels'][-1][2]]
        elif width % 2 == 0 and width <= 8:
            c['cell'] = width // 2
        else:
            c['skip'] = ''
    mid = {'BiLSTM': 'bilstm', 'BiLSTM_CNN': 'bilstm', 'Dilated_CNN': 'dilated_cnn'}.get(c['shared'])
    outs = ['word_features'] if not mid else [mid] + [mid + '_and_word_features'] * (2 if c['skip'] else 0)
    if c['shared'] == 'BiLSTM_CNN':
        outs = ['bilstm_cnn']
    c['from'] = rng.choice(outs)
    if rng.random() < 0.4:
        e, high = pick(rng, 2, 3), rng.random() < 0.5
        c['combo'] = [{'d': pick(rng, 2, 3), 'kernels': pick(rng, [[3, e if high else 4, 1]], [[2, 3, 1], [3, e, 2]]), 'e': e, 'highway': high}]
        if high:
            c['combo'][0]['kernels'][-1][1] = e
        if rng.random() < 0.5:
            c['dense'] = 0
    if c['shared'] == 'WE_charCNN':
        c['skip'] = ''
    return c


def c38_scenarios(tier, rng, gens):
    for k in range(40 if tier == 'quick' else 600):
        # hardly any labels and words: the specification computes every number
        poss = [rand_pos(rng, False) for _ in range(rng.randint(2, 4))]
        tok = lambda: [word(rng, 3, ALPHA), word(rng, 3, 'ab'), [rng.choice(poss)]]
        docs = rand_docs(rng, rng.randint(3, 5), tok)
        yield {'c': c38_conf(rng, k), 'docs': docs, 'r': rng.random(), 'more': [[word(rng, 4, ALPHA) for _ in range(rng.randint(1, 5))] for _ in range(rng.randint(1, 2))]}


def weights(shape, salt):
    """whole numbers that depend on nothing but the shape"""
    r = np.random.RandomState([salt] + [int(x) for x in shape])
    if len(shape) == 1:
        return r.choice([-1, 0, 1, 1], size=shape).astype(np.float32)
    return r.choice([-1, -1, 0, 1, 1, 2] if len(shape) == 2 else [-1, 0, 1], size=shape).astype(np.float32)


def c38_execute(sc):
    rng = random.Random(sc['r'])
    c, bank = sc['c'], mk_bank(sc['docs'])
    with tempfile.TemporaryDirectory() as root:
        path = os.path.join(root, 'v')
        if c['pre']:
            forms = sorted({t[0] for d in sc['docs'] for s in d for t in s})
            with open(path, 'w', encoding='utf-8') as f:
                f.write('%d %d\n' % (len(forms), c['pre'][0]))
                f.writelines('%s %s\n' % (w, ' '.join(['0.5'] * c['pre'][0])) for w in forms)
        net = Fixed(c, bank, path)
        try:
            salt = rng.randrange(10 ** 6)
            found = {}
            for v in net.variables():
                shape = tuple(v.shape.as_list())
                if v.dtype.base_dtype.is_floating:
                    found[shape] = weights(shape, salt)
                    v.load(found[shape], net.session)
            pos = [{'u': ['N'], 'x': [], 'f': []}]
            batch = sents_of(mk_bank([[[[w, 'a', pos] for w in s]] for s in sc['more']]))
            feats, labels = net.feats(batch), net.labels(batch)
            lens = [s.tokens_count for s in batch]
            table = lambda name: [[[int(x) for x in w] if hasattr(w, '__len__') else int(w) for w in row] for row in feats[name]] if name in feats else []
            pred = net.predict(batch)
            scores = []
            places = [(i, j) for i, n in enumerate(lens) for j in range(n)]
            jobs = []
            if c['dense']:
                jobs += [('pos_labels', i, j, 0, list(net.shapes['pos_labels'].values())[0]) for i, j in places]
            if c['combo']:
                n = net.shapes['output_subwords'][0]
                jobs += [('output_subwords', i, j, k, n) for i, j in rng.sample(places, min(2, len(places))) for k in range(MAXLEN)]
            for name, i, j, k, n in jobs:
                got = []
                for lab in range(n):
                    g = np.array(labels[name])
                    g[i, j, k] = lab
                    got.append(net.loss(batch, feats, dict(labels, **{name: g})))
                many = sum(lens) * (MAXLEN if name == 'output_subwords' else 1)
                scores.append({'b': name, 's': i + 1, 'j': j + 1, 'k': k + 1, 'sc': [int(round((got[0] - x) * many * 40000)) for x in got], 'pred': int(pred[name][i, j, k]) + 1})
            if max(abs(x) for q in scores for x in q['sc']) > 2000 * 40000:      # beyond the numbers the specification computes with
                return
            rows = {'pre': net.shapes['word_embeddings'][0] if c['pre'] else 0, 'word': net.shapes['trained_words'][0] if c['word'] else 0,
                    'subs': [net.shapes[n][0] for n, _ in zip(NAMES, c['subs'])], 'combo': net.shapes['input_subwords'][0] if c['combo'] else 0}
            yield {'k': 'fwd', 'c': c, 'w': [{'sh': list(s), 'v': [int(x) for x in v.reshape(-1)]} for s, v in sorted(found.items())], 'lens': lens, 'rows': rows, 'maxlen': MAXLEN,
                   'in': {'pre': table('words'), 'word': table('trained_words'), 'subs': [table(n) for n, _ in zip(NAMES, c['subs'])], 'combo': table('input_subwords')}, 'scores': scores}
        finally:
            net.close()


SCENARIOS = {'C38': c38_scenarios}
EXECUTE = {'C38': c38_execute}
