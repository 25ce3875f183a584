"""Driver for training and tagging with the neural tagger: batches (C26), schedule (C27), tagging (C28).

The network is symbolic (tfsym): the session counts training steps as its weights and answers predictions
with labels of training words chosen from the content it is fed with.
"""
import contextlib
import json
import os
import random
import subprocess
import sys
import tempfile
import types
import zlib

import tfsym

tfsym.install()

from babylondigger.features.provider import FeatureExtractorBuilderProvider  # noqa: E402
from babylondigger.neural.tagger.network_provider import get_nn_builder  # noqa: E402
from babylondigger.neural.tagger.neural_tagger import LazyNeuralTagger, NeuralTaggerTrainer, PretrainedTaggerTrainer  # noqa: E402

from common import attempt, cps, exc_name, num, ocps  # noqa: E402
from dm import pr_pos, pr_sents  # noqa: E402
from features import mk_bank, mk_doc, rand_docs, rand_pos, tree, word  # noqa: E402

SPARSE = ('words', 'trained_words', 'characters', 'input_subwords')
KERNELS = [{'size': 3, 'count': 4, 'dilation': 1}]
SUBWORDS = {'segmenter': 'char', 'embed_size': 3, 'min_frequency': 1, 'trainable': True, 'aggregator': 'cnn', 'aggregator_config': {'cnn_kernels': KERNELS}}


def nn_config(c, d4, fac, sparse):
    """c: shared builder, features, tag splitting, lemmatizer"""
    f = {'word_characters': dict(SUBWORDS, highway_layer=c.get('highway', False))}
    if c['words']:
        f['word_trained_embedding'] = {'trainable': True, 'size': 2, 'min_frequency': c['words'], 'lowercase': False}
    if c.get('path'):
        f['word_embedding'] = {'path': c['path'], 'trainable': False, 'lowercase': False}
    conf = {'WE_charCNN': {}, 'BiLSTM': {'lstm_cell_size': 3}, 'BiLSTM_CNN': {'lstm_cell_size': 3, 'cnn_kernels': KERNELS},
            'Dilated_CNN': {'cnn_kernels': KERNELS}}[c['shared']]
    if sparse is not None:
        conf['sparse_input_prob'] = sparse / 100
    opt = {'type': c.get('opt', 'Adam'), 'initial_lr': 0.5, 'lr_decay': d4 / 4}
    if fac is not None:
        opt['lr_decrease_factor'] = fac
    task = {'shared_name': 'word_features', 'dense_size': 3}
    rules = {'lemma_suffix_transformation': {'rules_threshold': 0}}
    out = {'general': {'optimizer': opt}, 'shared_part': {'builder': c['shared'], 'config': conf, 'features_config': f}}
    if c['pos']:
        out['pos'] = {'builder': 'pos_dense', 'config': dict(task, splitting=c['pos'])}
    if c['lemma'] == 'lemma_combo':
        out['lemma'] = {'builder': 'lemma_combo', 'config': {'shared_name': 'word_features', 'cnn_bilstm_dense_size': 3, 'cnn_kernels': KERNELS, 'loss_weights': {'LEMMA': 1.0}},
                        'features_config': {'input_subwords': dict(SUBWORDS, highway_layer=True), 'output_subwords': {'min_frequency': 1, 'max_word_length': 9, 'segmenter': 'char'}}}
    elif c['lemma']:
        out['lemma'] = {'builder': c['lemma'], 'config': task, 'features_config': rules}
    return out


def tasks_of(c):
    return (['pos'] if c['pos'] else []) + (['lemma'] if c['lemma'] else [])


def named(feats):
    return sorted([n, [tree(x) for x in plain(v)]] for n, v in feats.items())


def plain(v):
    if hasattr(v, 'tolist'):
        v = v.tolist()
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    return int(v) if isinstance(v, bool) or type(v).__name__.startswith(('bool', 'int')) else v


def singles(extractor, sents):
    return [extractor.get_features([s]) for s in sents]


def content(feats, row, i):
    """what a network can see of a word; padding left out"""
    def strip(x):
        while isinstance(x, list) and x and x[-1] == 0:
            x = x[:-1]
        return x
    return json.dumps([[n, strip(plain(feats[n])[row][i])] for n in sorted(feats) if n in ('characters', 'trained_words')])


class World(object):
    """the observed session: log of everything that happens"""

    def __init__(self, root):
        self.root, self.log, self.say, self.last, self.open = root, [], {}, None, set()

    def rel(self, path):
        return os.path.relpath(os.path.dirname(path), self.root)

    def add(self, t, **kw):
        self.log.append(dict(t=t, **kw))

    def events(self, kind, session, detail):
        if kind == 'seed':
            self.add('seed', v=num(detail))
        elif kind == 'open':
            self.open.add(session.id)
        elif kind == 'close':
            self.open.discard(session.id)
            self.add('close')
        elif kind == 'save':
            self.add('save', path=self.rel(detail), w=num(session.weights))
        elif kind == 'load':
            self.add('load', path=self.rel(detail))

    def hook(self, session, kind, fetches, feeds):
        if kind in ('init', 'set'):
            if kind == 'init':
                session.weights = 0
            self.add(kind)
            return None
        # the only input without a name
        feeds = {'applicable_rules' if n.startswith('Placeholder') else n: v for n, v in feeds.items()}
        if kind == 'train':
            session.weights += 1
            lr, drop = feeds.pop('lr', 0), feeds.pop('dropout', 1)
            labels = {n: v for n, v in feeds.items() if n in ('pos_labels', 'lemma_labels', 'lemma_rule_labels', 'output_subwords')}
            feats = {n: v for n, v in feeds.items() if n not in labels}
            base = 0.5 if self.last is None else self.last
            self.add('batch', f=named(feats), l=named(labels), ratio=round(lr / base * 10 ** 6) if base else -1, drop=round(drop * 100))
            self.last = lr
            return 0.25 * session.weights
        drop = feeds.pop('dropout', 1.0)
        lengths = plain(feeds['sentences_lengths'])
        longest = max(lengths)
        chosen = []
        for row, n in enumerate(lengths):
            src = [self.choose(content(feeds, row, i), session.weights) for i in range(n)]
            chosen.append(src)
            self.add('say', f=[[m, tree(plain(v)[row])] for m, v in sorted(feeds.items())], w=num(session.weights), src=src, drop=round(drop * 100))
        blank = lambda v: [0] * len(v) if isinstance(v, list) else 0
        return {o: [[self.labels[o][j] for j in src] + [blank(self.labels[o][0])] * (longest - len(src)) for src in chosen] for o in fetches}

    def choose(self, key, w):
        if self.gold is not None:
            return self.gold.get(key, 0)
        return (zlib.crc32(key.encode()) + 7 * w) % self.words


@contextlib.contextmanager
def world(root):
    w = World(root)
    tfsym.HOOK, tfsym.EVENTS = w.hook, w.events
    try:
        yield w
    finally:
        tfsym.HOOK = tfsym.EVENTS = None


class Passes(object):
    """training data that is read anew (and in another order) each time"""
    def __init__(self, docs, shuffle, w):
        self.docs, self.shuffle, self.w, self.n = docs, shuffle, w, 0

    def __iter__(self):
        order = list(range(len(self.docs)))
        if self.shuffle and any(x['t'] == 'init' for x in self.w.log):      # dictionaries are built from the given order
            random.Random(self.n).shuffle(order)
            self.n += 1
        self.w.add('pass', docs=order)
        return iter([self.docs[i] for i in order])


def prepare(sc, w, root):
    """training data, and its features and labels sentence by sentence, extracted independently of the trainer"""
    c = dict(sc['conf'])
    if c.get('pre'):
        c['path'] = os.path.join(root, 'vectors')
        with open(c['path'], 'w') as f:
            f.write('2 2\n' + ''.join('%s 0.5 0.25\n' % x for x in c['pre']))
    config = nn_config(c, sc['d4'], sc['fac'], sc['sparse'])
    bank = mk_bank(sc['docs'])
    docs = list(bank)
    b = get_nn_builder(config['shared_part'], [config[t] for t in tasks_of(c)], config['general'], 1)
    fe, le, _, _ = FeatureExtractorBuilderProvider(b.feature_providers()).build(bank)
    sents = [s for d in docs for s in d.sentences]
    feats, labs = singles(fe, sents), singles(le, sents)
    w.labels = {n: [x for lab in labs for x in plain(lab[n])[0]] for n in labs[0]}
    w.words = sum(s.tokens_count for s in sents)
    w.gold = None
    if sc.get('gold'):
        w.gold, k = {}, 0
        for f, s in zip(feats, sents):
            for i in range(s.tokens_count):
                w.gold.setdefault(content(f, 0, i), k)
                k += 1
    index, n = [], 0
    for d in docs:
        m = len(list(d.sentences))
        index.append(list(range(n, n + m)))
        n += m
    return config, docs, fe, index, [{'f': named(f), 'l': named(x)} for f, x in zip(feats, labs)]


class Fail(Exception):
    pass


def train(sc, w, root, config, docs, on_epoch=None):
    models = os.path.join(root, 'models')
    state = {'e': 0, 'scores': None, 'tagger': None}
    w.root = models
    probe = docs[0]

    def tester(tagger):
        if sc['probe']:
            for _ in tagger.tag(iter([probe])):
                pass
        e = state['e']
        if e == sc['fail']:
            raise Fail()
        accs = sc['scores'][e]
        w.add('dev', accs=[[] if a is None else [a] for a in accs])
        state['scores'] = {'F%d' % i: types.SimpleNamespace(aligned_accuracy=None if a is None else a / sc.get('unit', 16)) for i, a in enumerate(accs)}
        state['tagger'] = tagger
        state['e'] += 1
        return state['scores']

    kw = dict(seed=sc['seed'], nn_config=config, tasks=tasks_of(sc['conf']), epochs=sc['epochs'], model_dir=models, dropout=sc['drop'] / 100, batch_size=sc['size'])
    if sc['fmt']:
        kw['model_name_format'] = sc['fmt']

    def run():
        gen = NeuralTaggerTrainer().train(Passes(docs, sc['shuffle'], w), tester if sc['tester'] else None, **kw)
        n = 0
        for scores, tagger in gen:
            w.add('yield', same=scores is state['scores'] and tagger is state['tagger'])
            if on_epoch:
                on_epoch(tagger)
            n += 1
            if n == sc['stop']:
                gen.close()
                break
    _, e = attempt_quiet(run)
    return e


def attempt_quiet(f):
    import io
    with contextlib.redirect_stdout(io.StringIO()):
        return attempt(f)


def run_execute(sc):
    with tempfile.TemporaryDirectory() as root, world(root) as w:
        config, docs, fe, index, sents = prepare(sc, w, root)
        w.log = []
        fmt = sc['fmt'] or 'epoch-{}'
        for i in range(sc.get('there', 0)):       # left from an earlier training
            old = os.path.join(root, 'models', fmt.format(i))
            os.makedirs(old)
            for name in ('mapping', 'feature_extractor.pickle', 'graph.index'):
                with open(os.path.join(old, name), 'wb') as f:
                    f.write(b'old')
        e = train(sc, w, root, config, docs)
        yield {'k': 'run', 'size': sc['size'], 'epochs': sc['epochs'], 'sparse': sc['sparse'] or 0, 'drop': sc['drop'], 'd4': sc['d4'], 'fac': sc['fac'] if sc['fac'] is not None else 2,
               'seed': sc['seed'], 'tester': sc['tester'], 'stop': sc['stop'], 'fail': sc['fail'], 'probe': sc['probe'], 'matrices': 1 if sc['conf'].get('pre') else 0,
               'names': [fmt.format(i) for i in range(sc['epochs'])], 'hide': list(SPARSE), 'docs': index, 'sents': sents, 'log': w.log, 'open': len(w.open), 'exc': exc_name(e) if e else ''}


# ------------------------------------------------------------------ scenarios
LETTERS = 'abcde'


def tok(rng, wild=False):
    return [word(rng, 4, LETTERS + ('AB\u00e9' if wild else '')), word(rng, 3, LETTERS), [rand_pos(rng, False)]]


def rand_conf(rng, lemma=None):
    c = {'shared': rng.choice(['WE_charCNN', 'BiLSTM', 'BiLSTM_CNN', 'Dilated_CNN']), 'words': rng.choice([0, 1, 1, 2]), 'opt': rng.choice(['GD', 'Adam', 'RMSProp']),
         'pos': rng.choice([None, 'pos_joint', 'pos_XF', 'pos_UXF', 'pos_gran']), 'lemma': rng.choice(lemma or [None, 'lemma_dense', 'lemma_suffix', 'lemma_combo', 'lemma_binary'])}
    if not tasks_of(c):
        c['pos'] = 'pos_UXF'
    if rng.random() < 0.3:
        c['pre'] = rng.sample(['a', 'b', 'ab', 'ba', 'e'], 2)
    return c


BASE = {'size': 2, 'epochs': 1, 'sparse': None, 'drop': 50, 'd4': 0, 'fac': None, 'seed': 3, 'tester': True, 'stop': -1, 'fail': -1, 'probe': False, 'shuffle': False, 'fmt': None}
PLAIN = {'shared': 'WE_charCNN', 'words': 1, 'pos': 'pos_UXF', 'lemma': 'lemma_dense'}


def c26_scenarios(tier, rng, gens):
    for shape in gens['shapes']:          # numbers of sentences of each document
        for size in (1, 2, 3, 4):
            if not sum(shape):
                continue
            docs = [[[tok(rng) for _ in range(rng.randint(1, 3))] for _ in range(n)] for n in shape if n]
            yield dict(BASE, docs=docs, size=size, epochs=2, scores=[[1], [2]], conf=PLAIN, shuffle=len(docs) > 1 and size == 2)
    for size in (40, 64) if tier == 'quick' else (40, 50, 64, 100, 128):     # large batches
        yield dict(BASE, docs=rand_docs(rng, 2 * size + 9, lambda: tok(rng)), size=size, epochs=1, scores=[[1]], conf=PLAIN)
    for _ in range(60 if tier == 'quick' else 1500):
        n = rng.randint(1, 12)
        docs = rand_docs(rng, n, lambda: tok(rng, True))
        ep = rng.choice([1, 2, 2, 3])
        yield dict(BASE, docs=docs, size=rng.choice([1, 2, 3, 5, 20]), epochs=ep, scores=[[rng.randint(0, 16)] for _ in range(ep)], conf=rand_conf(rng), shuffle=rng.random() < 0.6,
                   sparse=rng.choice([None, 0, 0, 30, 100]), drop=rng.choice([10, 50, 100]), tester=rng.random() < 0.8, seed=rng.randint(0, 9))


# ways of comparing a score that the generated sequences tell apart: with the k-th last (0: not), with the mean of the last m (0: not)
WINDOWS = [(1, 5), (0, 5), (1, 0), (1, 4), (1, 6), (2, 5), (1, 3), (1, 8)]


def cuts(accs, rule):
    k, m = rule
    past = [0] * 10
    for a in accs:
        yield (not k or a <= past[-k]) and (not m or a * m <= sum(past[-m:]))
        past.append(a)


def c27_scenarios(tier, rng, gens):
    docs = [[[['ab', 'a', [{'u': ['N'], 'x': [], 'f': []}]]]], [[['b', 'b', [{'u': ['V'], 'x': [], 'f': []}]]], [['c', 'b', [{'u': ['V'], 'x': [], 'f': []}]]]]]
    accs = gens['accs']
    if tier == 'quick':
        accs = accs[:60] + rng.sample(accs, min(len(accs), 150))
    for k, a in enumerate(accs):
        yield dict(BASE, docs=docs, epochs=len(a), scores=[[x] for x in a], conf=PLAIN, d4=[0, 1, 2, 4][k % 4], fac=[None, 2, 1, 4, 3][k % 5], size=k % 3 + 1)
    for k in range(48 if tier == 'quick' else 600):      # long and uneven: the last score and the mean of the window disagree
        while True:
            ep = rng.choice([rng.randint(4, 10), rng.randint(11, 14)])
            top = rng.choice([2, 5, 30])
            accs = [rng.randint(0, top) for _ in range(ep)]
            if len({tuple(cuts(accs[:-1], rule)) for rule in (WINDOWS[0], WINDOWS[k % len(WINDOWS)])}) == 2 or k % len(WINDOWS) == 0:
                break
        yield dict(BASE, docs=docs, epochs=ep, scores=[[a] for a in accs], conf=PLAIN, fac=[2, None, 3][k % 3], d4=1 if k % 6 == 1 else 0, size=2, there=[0, 0, 1, 2, ep][k % 5], unit=[16, 2 ** 20, 64, 2 ** 14][k % 4])
    for _ in range(80 if tier == 'quick' else 1500):
        ep = rng.randint(1, 7)
        # level runs, slow rises and falls, several fields, fields without aligned accuracy
        base, fields = rng.randint(0, 8), rng.randint(1, 3)
        scores = []
        for e in range(ep):
            base = max(0, base + rng.choice([0, 0, 0, 1, -1, 2, -3]))
            scores.append([rng.choice([base, base + 1]) if rng.random() < 0.8 else None for _ in range(fields)])
        yield dict(BASE, docs=docs if rng.random() < 0.5 else rand_docs(rng, rng.randint(1, 5), lambda: tok(rng)), epochs=ep, scores=scores, conf=rand_conf(rng),
                   d4=rng.choice([0, 0, 1, 2, 4]), fac=rng.choice([None, 1, 2, 3, 4]), size=rng.choice([1, 2, 4]), seed=rng.randint(0, 10 ** 6),
                   probe=rng.random() < 0.6, stop=rng.choice([-1, -1, -1, 1, 2]), fail=rng.choice([-1, -1, -1, 0, 1]), tester=rng.random() < 0.85,
                   fmt=rng.choice([None, None, 'm{}', 'a/{}-x']), shuffle=rng.random() < 0.5)


def dict_t(t, rng):
    return [rng.choice([t[0].swapcase(), t[0].upper(), t[0], t[0][:-1] + t[0][-1:].swapcase()])] + t[1:]


def c28_scenarios(tier, rng, gens):
    for k in range(50 if tier == 'quick' else 1200):
        lemma = [None, 'lemma_dense', 'lemma_combo']
        gold = k % 3 == 0
        if gold:
            lemma += ['lemma_suffix', 'lemma_binary', 'lemma_suffix', 'lemma_binary']
        docs = rand_docs(rng, rng.randint(2, 10), lambda: tok(rng, not gold))
        if gold:                # one analysis per word
            seen = {}
            docs = [[[seen.setdefault(t[0], t) for t in s] for s in d] for d in docs]
        forms = [t[0] for d in docs for s in d for t in s]
        new = lambda: rng.choice(forms) if rng.random() < 0.7 else word(rng, 5, LETTERS)
        other = docs if gold else rand_docs(rng, rng.randint(1, 9), lambda: [new(), rng.choice([None, 'old']), rng.choice([[], [rand_pos(rng, False)]])])
        if not gold and rng.random() < 0.3:      # words of white space
            d = rng.choice(other)
            d.insert(rng.randint(0, len(d)), [[rng.choice([' ', '\u00a0', '  ']), rng.choice([None, 'old']), rng.choice([[], [rand_pos(rng, False)]])] for _ in range(rng.randint(1, 2))])
        if not gold and rng.random() < 0.6:      # sentences of one document that hardly differ
            other = [d + [[dict_t(t, rng) for t in s] for s in d if rng.random() < 0.7] for d in other]
        ep = rng.choice([1, 2, 3])
        yield dict(BASE, op=['stay', 'stay', 'process', 'pretrained'][k % 4], docs=docs, other=other, gold=gold, conf=rand_conf(rng, lemma), epochs=ep, scores=[[1]] * ep, size=rng.choice([1, 2, 5]),
                   heads=rng.random() < 0.5, quit=rng.choice([-1, -1, -1, 0, 1]), sparse=rng.choice([None, 0, 50]))
    for k in range(2 if tier == 'quick' else 12):        # long documents, long sentences
        docs = rand_docs(rng, 4, lambda: tok(rng, True))
        plain = lambda: [word(rng, 3, LETTERS), rng.choice([None, 'old']), []]
        big = [[plain() for _ in range(rng.randint(1, 6))] for _ in range(rng.randint(30, 60))]
        big[25] = [plain() for _ in range(rng.choice([65, 140]))]
        yield dict(BASE, op=['stay', 'process'][k % 2], docs=docs, other=[[[plain()]], big, [[plain()], [plain()]]], gold=False, conf=rand_conf(rng, [None, 'lemma_dense']), epochs=1, scores=[[1]], size=2,
                   heads=True, quit=-1, sparse=None)


# ------------------------------------------------------------------ C28
def annotate(doc, seed):
    """give words syntax and extras, so that losing them shows"""
    from babylondigger.datamodel import Document, Token
    toks = []
    for s in doc.sentences:
        for i, t in enumerate(s):
            t = Token.with_syntax(t, 'r%d' % (i + seed), head_sentence_index=i - 1)
            toks.append(Token.update_extras(t, {'x': 'v%d' % i}))
    return Document.from_document(doc, toks)


def full(doc):
    return [[num(t.start), num(t.end), t.deprel or '', num(t.head_index if t.head_index is not None else -9), [[k, str(t.extras[k])] for k in sorted(t.extras.keys())]] for t in doc.tokens]


def view(doc):
    return {'text': cps(doc.text), 'toks': full(doc), 'sents': pr_sents(doc),
            'an': [{'pos': pr_pos(t.pos), 'lemma': ocps(t.lemma)} for t in doc.tokens]}


def tag_with(tagger, w, docs, quit_after):
    """(log, documents) of one tagging"""
    w.log, out = [], []

    def feed():
        for i, d in enumerate(docs):
            w.add('pull', i=i)
            yield d

    def go():
        gen = tagger.tag(feed())
        for i, d in enumerate(gen):
            w.add('out', i=i)
            out.append(view(d))
            if i == quit_after:
                if hasattr(gen, 'close'):
                    gen.close()
                break
    _, e = attempt_quiet(go)
    return {'log': w.log, 'out': out, 'exc': exc_name(e) if e else '', 'open': len(w.open)}


def c28_execute(sc):
    with tempfile.TemporaryDirectory() as root, world(root) as w:
        config, docs, fe, index, sents = prepare(sc, w, root)
        w.log = []
        taggers = []
        e = train(sc, w, root, config, docs, taggers.append)
        if e is not None or len(taggers) != sc['epochs']:
            raise RuntimeError('training failed: %r, %d taggers' % (e, len(taggers)))
        steps = {x['path']: x['w'] for x in w.log if x['t'] == 'save'}
        others = list(mk_bank(sc['other']))
        if sc['heads']:
            others = [annotate(d, i) for i, d in enumerate(others)]
        feats = [{'f': named(f)} for f in singles(fe, [s for d in others for s in d.sentences])]
        pos = [pr_pos(t.pos) for d in docs for t in d.tokens]
        lem = [ocps(t.lemma) for d in docs for t in d.tokens]
        common = {'tpos': pos if sc['conf']['pos'] else [], 'tlem': lem if sc['conf']['lemma'] else [], 'feats': feats, 'docs': [view(d) for d in others]}
        models = os.path.join(root, 'models')
        if sc['op'] == 'stay':
            for k, t in enumerate(taggers):
                name = 'epoch-%d' % k
                for q in (sc['quit'], -1):
                    yield dict(common, k='tag', quit=q, path=name, w=steps[name], **tag_with(t, w, others, q))
        elif sc['op'] == 'process':
            name = 'epoch-%d' % (len(taggers) - 1)
            job = os.path.join(root, 'job.json')
            with open(job, 'w') as f:
                json.dump({'models': models, 'name': name, 'other': sc['other'], 'heads': sc['heads'], 'labels': w.labels, 'words': w.words, 'gold': w.gold}, f)
            p = subprocess.run([sys.executable, os.path.abspath(__file__), job], env=dict(os.environ, PYTHONHASHSEED='91'), capture_output=True, text=True, timeout=50)
            if p.returncode:
                raise RuntimeError('tagging failed in a fresh process: ' + p.stderr[-1500:])
            yield dict(common, k='tag', quit=-1, path=name, w=steps[name], **json.loads(p.stdout))
        else:
            if rng_of(sc).random() < 0.5:          # a file beside the models
                open(os.path.join(models, 'notes.txt'), 'w').close()
            got = []

            def tester(t):
                got.append(t)
                return len(got)
            kw = {'model_dir': models}
            w.log = []
            pairs, e = attempt_quiet(lambda: list(PretrainedTaggerTrainer().train(iter(docs), tester, **kw)))
            yield {'k': 'pretrained', 'exc': exc_name(e) if e else '', 'n': len(steps), 'tested': len(got), 'loads': len(w.log),
                   'pairs': [x[0] == i + 1 and x[1] is got[i] for i, x in enumerate(pairs or [])], 'sorted': sorted(steps)}
            for name, t in zip(sorted(steps), got):
                yield dict(common, k='tag', quit=-1, path=name, w=steps[name], **tag_with(t, w, others, -1))


def rng_of(sc):
    return random.Random(json.dumps(sc['docs']))


def main(path):
    with open(path) as f:
        job = json.load(f)
    with world(job['models']) as w:
        w.labels, w.words, w.gold = job['labels'], job['words'], job['gold']
        others = list(mk_bank(job['other']))
        if job['heads']:
            others = [annotate(d, i) for i, d in enumerate(others)]
        out = tag_with(LazyNeuralTagger(os.path.join(job['models'], job['name'])), w, others, -1)
    json.dump(out, sys.stdout)


SCENARIOS = {'C26': c26_scenarios, 'C27': c27_scenarios, 'C28': c28_scenarios}
EXECUTE = {'C26': run_execute, 'C27': run_execute, 'C28': c28_execute}

if __name__ == '__main__':
    main(sys.argv[1])
