"""Driver for CoNLL 2017 scoring (C15, C16) and tagger testing (C17)."""
import contextlib
import io
import os
import random
import sys
import tempfile

import tfstub
tfstub.install()

from babylondigger.datamodel import Document, Pos, Token
from babylondigger.evaluation import conll17_ud_eval as ud
from babylondigger.evaluation.conllu_io import CoNLLUReader
from babylondigger.evaluation.evaluation import DataSetTaggerTester, FileTaggerTester

from common import attempt, cps, exc_name
from dm import pr_doc, rand_tree, text_of
from io_conllu import form, parse_out, render, sentence_lines

NAMES = ['Tokens', 'Sentences', 'Words', 'UPOS', 'XPOS', 'Feats', 'AllTags', 'Lemmas', 'UAS', 'LAS', 'CLAS', 'WeightedLAS']
RELS = ['nsubj', 'obj', 'det', 'punct', 'aux', 'case', 'root', 'mark', 'nmod', 'cc', 'cop', 'clf', 'Case']


def ppm(x, scale=10 ** 6):
    return int(round(x * scale)) if isinstance(x, (int, float)) else -1


def pr_scores(sc):
    return {m: {'p': ppm(s.precision), 'r': ppm(s.recall), 'f': ppm(s.f1), 'a': [] if s.aligned_accuracy is None else [ppm(s.aligned_accuracy)]}
            for m, s in sc.items() if m in NAMES}


# ------------------------------------------------------------------ C15
def render_bank(tb, rng, nl='\n'):
    out = []
    for s in tb:
        for _ in range(rng.choice([0, 0, 1, 2])):
            out.append(rng.choice(['# text', '#', '# sent_id = 1']))
        i = 0
        for it in s:
            if rng.random() < 0.08:
                out.append('\t'.join(['%d.1' % i] + ['_'] * 9))
            if it['mw']:
                out.append('\t'.join(['%d-%d' % (i + 1, i + len(it['words'])), it['raw']] + ['_'] * 8))
            for w in it['words']:
                i += 1
                out.append('\t'.join([str(i), w['raw'], w['lemma'], w['upos'], w['xpos'], w['feats'], str(w['head']), w['full'], '_', rng.choice(['_', 'SpaceAfter=No'])]))
        out.append('')
    return ''.join(x + nl for x in out)


def decorate(rng, tb, like=None):
    """random annotation on a segmentation; heads form a tree.  like: words to copy from, mostly"""
    pool = [w for s in like for it in s for w in it['words']] if like else []
    k = 0
    for s in tb:
        n = sum(len(it['words']) for it in s)
        heads = rand_tree(rng, n)
        i = 0
        for it in s:
            raw = text_of(it['form'])
            if rng.random() < 0.1:
                raw = raw[:1] + ' ' + raw[1:]
            it['raw'] = raw
            for w in it['words']:
                src = pool[k] if k < len(pool) and rng.random() < 0.8 else None
                if it['mw']:
                    w['raw'] = w['raw'] if 'raw' in w else w['lf'] if rng.random() < 0.7 else w['lf'].upper()
                    w['lf'] = w['raw'].lower()
                else:
                    w['raw'] = raw
                    w['lf'] = raw.replace(' ', '').lower()
                for f, vs in (('lemma', ['l', 'm', '_', 'x y']), ('upos', ['N', 'V', '_', 'Nn']), ('xpos', ['n', 'v', '_', 'nv']), ('feats', ['_', 'A=1', 'A=2|B=x'])):
                    w[f] = src[f] if src else rng.choice(vs)
                w['full'] = src['full'] if src else rng.choice(RELS) + rng.choice(['', '', ':sub', ':a:b'])
                w['rel'] = w['full'].split(':')[0]
                w['head'] = heads[i] + 1
                if like and rng.random() < 0.7 and k < len(pool) and len(pool) == sum(len(x['words']) for y in tb for x in y):
                    pass
                i += 1
                k += 1
    return tb


def rand_seg(rng, chars, mw, cut, sents):
    """a treebank over the characters"""
    items, i = [], 0
    while i < len(chars):
        n = 1
        while i + n < len(chars) and rng.random() > cut:
            n += 1
        it = {'form': chars[i:i + n], 'mw': rng.random() < mw, 'words': []}
        if it['mw']:
            t = text_of(it['form'])
            for _ in range(rng.choice([1, 2, 2, 3])):
                a = rng.randrange(len(t))
                w = t[a:a + rng.choice([1, 1, 2])]
                if rng.random() < 0.2:
                    w = rng.choice([w.upper(), 'Q', w + ' x', 'q'])
                it['words'].append({'lf': w, 'raw': w})
        else:
            it['words'].append({'lf': ''})
        items.append(it)
        i += n
    tb, k = [], 0
    while k < len(items):
        n = rng.randint(1, max(1, len(items) // sents))
        tb.append(items[k:k + n])
        k += n
    return tb


def copy_bank(tb):
    return [[dict(it, words=[dict(w) for w in it['words']]) for it in s] for s in tb]


def perturb(rng, tb):
    """same segmentation, some annotation changed"""
    tb = copy_bank(tb)
    for s in tb:
        n = sum(len(it['words']) for it in s)
        if rng.random() < 0.3:
            h = rand_tree(rng, n)
            i = 0
            for it in s:
                for w in it['words']:
                    w['head'] = h[i] + 1
                    i += 1
        for it in s:
            for w in it['words']:
                if rng.random() < 0.3:
                    f = rng.choice(['lemma', 'upos', 'xpos', 'feats', 'full'])
                    w[f] = 'zz' if f != 'full' else rng.choice(RELS) + ':z'
                    w['rel'] = w['full'].split(':')[0]
                elif rng.random() < 0.1:        # the same characters, divided differently between the columns
                    for a, b in (('upos', 'xpos'), ('xpos', 'feats')):
                        both = w[a] + w[b]
                        k = rng.randint(1, len(both) - 1)
                        w[a], w[b] = both[:k], both[k:]
    return tb


def weights(rng):
    if rng.random() < 0.5:
        return None
    return [[r, rng.randint(0, 24)] for r in rng.sample(RELS, rng.randint(0, 5))]


def c15_scenarios(tier, rng, gens):
    def sc(g, s):
        return {'gold': g, 'sys': s, 'weights': weights(rng), 'via': rng.choice(['api', 'api', 'file', 'cli']), 'seed': rng.randrange(10 ** 6)}
    pairs = gens['pairs']
    if tier == 'quick' and len(pairs) > 700:
        pairs = rng.sample(pairs, 700)
    for g, s in pairs:
        g, s = copy_bank(g), copy_bank(s)
        decorate(rng, g)
        decorate(rng, s, g)
        yield sc(g, s)
    for i in range(350 if tier == 'quick' else 6000):
        n = rng.choice([1, 2, 4, 7, 12, 25, 40])
        alpha = rng.choice(['ab', 'abcdefgh', 'aAbB', '\u0416\u0436\u0130\u00df\U0001f600x'])
        chars = [ord(rng.choice(alpha)) for _ in range(n)]
        mw, cut = rng.choice([0, 0.15, 0.4]), rng.choice([0.3, 0.5, 0.8])
        g = decorate(rng, rand_seg(rng, chars, mw, cut, rng.choice([1, 1, 2, 4])))
        r = rng.random()
        if r < 0.3:
            s = perturb(rng, g)
        elif r < 0.35:
            s = copy_bank(g)
        else:
            ch = list(chars)
            if r < 0.45:
                k = rng.randrange(n)
                ch = rng.choice([ch[:k] + ch[k + 1:] or [120], ch + [122], ch[:k] + [ord('Z')] + ch[k + 1:], [c ^ 32 if c < 128 else c for c in ch]])
            s = decorate(rng, rand_seg(rng, ch, mw, cut, rng.choice([1, 1, 2, 4])), g)
        yield sc(g, s)
    yield {'gold': [], 'sys': [], 'weights': None, 'via': 'api', 'seed': 0}


def strip_bank(tb):
    return [[{'form': it['form'], 'mw': it['mw'], 'words': [{k: w[k] for k in ('lf', 'lemma', 'upos', 'xpos', 'feats', 'rel', 'head')} for w in it['words']]} for it in s] for s in tb]


def c15_execute(sc):
    rng = random.Random(sc['seed'])
    gt, st = render_bank(sc['gold'], rng, rng.choice(['\n', '\r\n'])), render_bank(sc['sys'], rng)
    w = sc['weights']
    printed = []
    if sc['via'] == 'api':
        dw = None if w is None else {r: x / 8 for r, x in w}
        res, e = attempt(lambda: ud.evaluate(ud.load_conllu(io.StringIO(gt, newline='')), ud.load_conllu(io.StringIO(st, newline='')), dw))
    else:
        with tempfile.TemporaryDirectory() as tmp:
            names = [os.path.join(tmp, x) for x in ('gold', 'sys', 'w')]
            wt = '# weights\n\n' + ''.join('%s %s\n' % (r, x / 8) for r, x in w or [])
            for p, t in zip(names, (gt, st, wt)):
                with open(p, 'w', encoding='utf-8', newline='') as f:
                    f.write(t)
            argv = ['x', names[0], names[1]] + (['-w', names[2]] if w is not None else []) + ['-v']
            if sc['via'] == 'cli':
                out, old = io.StringIO(), sys.argv
                try:
                    sys.argv = argv
                    with contextlib.redirect_stdout(out):
                        _, e = attempt(ud.main)
                finally:
                    sys.argv = old
                res = {}
                for ln in out.getvalue().split('\n')[2:]:
                    c = [x.strip() for x in ln.split('|')]
                    if len(c) == 5:
                        printed.append([c[0], [int(round(float(x) * 100)) if x else -9999 for x in c[1:]]])
            else:
                def go():
                    with open(names[2], encoding='utf-8') as wf:
                        dw = ud.load_deprel_weights(wf if w is not None else None)
                    return ud.evaluate(ud.load_conllu_file(names[0]), ud.load_conllu_file(names[1]), dw)
                res, e = attempt(go)
    yield {'k': 'score', 'gold': strip_bank(sc['gold']), 'sys': strip_bank(sc['sys']), 'weights': w or [], 'weighted': w is not None, 'ok': e is None,
           'exc': '' if e is None else exc_name(e), 'refused': isinstance(e, ud.UDError), 'cli': sc['via'] == 'cli',
           'scores': pr_scores(res) if e is None else {}, 'printed': printed}


# ------------------------------------------------------------------ C16
def load_line(rng, ln, pos):
    t = ln['t']
    if t == 'blank':
        return ''
    if t == 'comment':
        return rng.choice(['# x', '#', '#\tx', '# 1\ta', '#1\ta\ta\tN\tN\t_\t0\troot\t_\t_', '##'])
    if t == 'bad' and 'like' in ln:         # all is well but the number of columns
        s = load_line(rng, ln['like'], pos)
        return s + rng.choice(['\t_', '\t', '\tx\ty']) if rng.random() < 0.7 else s[:s.rindex('\t')]
    if t == 'bad':
        return rng.choice(['x', '1\ta', '1\ta\ta\tN\tN\t_\t0\troot\t_', '1\ta\ta\tN\tN\t_\t0\troot\t_\t_\t_', ' ', '1 a a N N _ 0 root _ _'])
    if t == 'empty':
        return '\t'.join([rng.choice(['1.1', '0.1', '2.3', '12.10'])] + ['_'] * 9)
    if t == 'range':
        return '\t'.join(['%d-%d' % (pos + 1, pos + ln['n']), text_of(ln['form'])] + ['_'] * 8)
    head = str(ln['head'][0]) if ln['head'] else rng.choice(['_', 'x', '1.5', ''])
    idn = str(ln['id'][0]) if ln['id'] else rng.choice(['x', '_', 'one'])
    return '\t'.join([idn, text_of(ln['form']), 'l', 'N', 'N', '_', head, rng.choice(['root', 'a:b', '_']), '_', '_'])


def c16_scenarios(tier, rng, gens):
    ls = gens['lines']
    if tier == 'quick' and len(ls) > 2500:
        ls = rng.sample(ls, 2500)
    for g in ls:
        yield {'lines': g, 'seed': rng.randrange(10 ** 6), 'via': rng.choice(['str', 'str', 'file'])}
    for i in range(500 if tier == 'quick' else 8000):
        lines = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            n = rng.choice([1, 2, 3, 5, 9, 15, 40])
            heads = rand_tree(rng, n)
            k = 0
            for _ in range(rng.choice([0, 0, 1, 2])):
                lines.append({'t': 'comment'})
            while k < n:
                if rng.random() < 0.1:
                    lines.append({'t': 'empty'})
                m = 1
                if rng.random() < 0.2 and k + 1 < n:
                    m = rng.randint(1, min(3, n - k))
                    lines.append({'t': 'range', 'n': m, 'form': cps(form(rng))})
                for _ in range(m):
                    lines.append({'t': 'word', 'id': [k + 1], 'form': cps(form(rng) if rng.random() < 0.95 else rng.choice(['\u00a0', '\u3000', '\u2003x', '\u200b', ' \u00a0 '])), 'head': [heads[k] + 1]})
                    k += 1
            lines.append({'t': 'blank'})
        inside = set()
        for a, ln in enumerate(lines):
            if ln['t'] == 'range':
                inside |= set(range(a + 1, a + 1 + ln['n']))
        words = [k for k, x in enumerate(lines) if x['t'] == 'word']
        free = [k for k in words if k not in inside]
        kind = rng.choice(['ok', 'ok', 'head', 'loop', 'root2', 'noroot', 'out', 'id', 'nohead', 'neg', 'bad', 'comment', 'noblank', 'blank2', 'form', 'cut', 'headmw', 'width', 'width', 'inmw', 'formr'])
        k = rng.choice(words)
        if kind in ('head', 'headmw'):
            lines[k] = dict(lines[k], head=[rng.randint(0, 8)])
        elif kind == 'loop':
            lines[k] = dict(lines[k], head=lines[k]['id'])
        elif kind == 'root2':
            lines[k] = dict(lines[k], head=[0])
        elif kind == 'noroot':
            for j in words:
                if lines[j]['head'] == [0]:
                    lines[j] = dict(lines[j], head=[rng.randint(1, 3)])
        elif kind == 'out':
            lines[k] = dict(lines[k], head=[rng.choice([41, 100])])
        elif kind in ('id', 'nohead', 'neg', 'form') and free:
            k = rng.choice(free)
            lines[k] = dict(lines[k], **{'id': {'id': rng.choice([[], [1], [2], [lines[k]['id'][0] + 1]])}, 'nohead': {'head': []}, 'neg': {'head': [-1]},
                                         'form': {'form': [32] * rng.randint(0, 2)}}[kind])
        elif kind == 'width':
            k = rng.choice([a for a, x in enumerate(lines) if x['t'] in ('word', 'range', 'empty')])
            lines[k] = {'t': 'bad', 'like': lines[k]}
        elif kind == 'formr':
            for k in [a for a, x in enumerate(lines) if x['t'] == 'range'][:1]:
                lines[k] = dict(lines[k], form=[32] * rng.randint(0, 2))
        elif kind == 'inmw' and inside & set(words):
            k = rng.choice(sorted(inside & set(words)))
            lines[k] = dict(lines[k], head=rng.choice([[], [-1], [-2], [-lines[k]['id'][0]], [0], [50]]))
        elif kind in ('bad', 'comment'):
            lines.insert(rng.randrange(len(lines)), {'t': kind})
        elif kind == 'noblank':
            lines = lines[:-1]
        elif kind == 'blank2':
            j = rng.choice([a for a, x in enumerate(lines) if x['t'] == 'blank'])
            lines.insert(j, {'t': 'blank'})
        elif kind == 'cut':
            lines = lines[:rng.randrange(len(lines))]
        yield {'lines': lines, 'seed': rng.randrange(10 ** 6), 'via': rng.choice(['str', 'file'])}
    yield {'lines': [], 'seed': 1, 'via': 'str'}


def c16_execute(sc):
    rng = random.Random(sc['seed'])
    out, pos = [], 0
    for ln in sc['lines']:
        out.append(load_line(rng, ln, pos))
        pos = 0 if ln['t'] == 'blank' else pos + (ln['t'] == 'word')
    text = ''.join(x + '\n' for x in out)
    if sc['via'] == 'str':
        r, e = attempt(lambda: ud.load_conllu(io.StringIO(text, newline='')))
    else:
        with tempfile.TemporaryDirectory() as tmp:
            p = os.path.join(tmp, 'x')
            with open(p, 'w', encoding='utf-8', newline='') as f:
                f.write(text)
            r, e = attempt(lambda: ud.load_conllu_file(p))
    yield {'k': 'load', 'lines': sc['lines'], 'ok': e is None, 'exc': '' if e is None else exc_name(e),
           'refused': isinstance(e, ud.UDError), 'nsent': len(r.sentences) if r else 0, 'nwords': len(r.words) if r else 0, 'ntok': len(r.tokens) if r else 0}


# ------------------------------------------------------------------ C17
class Recorder(object):
    """a tagger; records what it is given and what it returns"""
    def __init__(self, gold, mode, seed, lazy):
        self.gold, self.mode, self.rng, self.lazy = gold, mode, random.Random(seed), lazy
        self.seen, self.pred = [], []

    def tag(self, documents):
        if not self.lazy:
            return [self._tag(d) for d in documents]
        return (self._tag(d) for d in documents)

    def _tag(self, doc):
        i = len(self.seen)
        self.seen.append(pr_doc(doc))
        if self.mode == 'identity':
            self.pred.append(doc)
            return doc
        toks = []
        gold = self.gold[i].tokens if i < len(self.gold) else doc.tokens
        for t, g in zip(doc.tokens, gold):
            pos, lemma = g.pos, g.lemma
            if self.mode == 'noisy':
                if self.rng.random() < 0.4:
                    pos = Pos(self.rng.choice(['NOUN', 'VERB', None]), self.rng.choice(['n', None]), dict(self.rng.sample([('Case', 'Nom'), ('a', 'b')], self.rng.randint(0, 2))))
                if self.rng.random() < 0.4:
                    lemma = self.rng.choice([None, 'lem', 'x'])
            toks.append(Token.with_morphology(t, pos, lemma))
        d = Document.from_document(doc, toks)
        if self.mode == 'syntax':
            d = self.gold[i]
        self.pred.append(d)
        return d


def clean(lines, rng):
    """comments at sentence starts only, no empty nodes inside multiword tokens, base columns the scorer can compare"""
    out, left, start = [], 0, True
    for ln in lines:
        if ln['t'] in ('comment', 'empty'):
            if ln['t'] == 'comment' and not start or left:
                continue
        if ln['t'] in ('word', 'range'):
            ln = dict(ln, form=[c for c in ln['form'] if c not in (0x85, 0x2028, 0x0b, 0x1c, 0x1e)] or [97])
            if all(c == 32 for c in ln['form']):
                ln['form'] = [97]
            if ln['form'][:1] == [35] and ln['t'] == 'word':
                ln['form'] = [98]
        if ln['t'] == 'range':
            left = ln['n']
        elif ln['t'] == 'word' and left:
            left -= 1
        start = ln['t'] in ('blank',) or start and ln['t'] == 'comment'
        out.append(ln)
    return out


def c17_scenarios(tier, rng, gens):
    for i in range(140 if tier == 'quick' else 2500):
        n = rng.choice([1, 1, 2, 3, 5])
        n = 120 if i == 5 else n
        lines = []
        for _ in range(n):
            lines += sentence_lines(rng, rng.choice([1, 2, 4, 7] if n < 100 else [1, 1, 2]), True)
        yield {'lines': clean(lines, rng), 'kind': rng.choice(['file', 'file', 'results', 'results', 'docs']), 'limit': rng.choice([1, 2, 50]),
               'mode': rng.choice(['perfect', 'noisy', 'noisy', 'identity', 'syntax']), 'lazy': rng.random() < 0.5, 'seed': rng.randrange(10 ** 6),
               'name': rng.choice(['out.conll', 'a/b/out.conll', 'params-0/1/epoch-0-dev.conll']), 'repeat': rng.random() < 0.3}


def sorted_feats(text):
    """features of the gold file in the order the writer uses"""
    out = []
    for ln in text.split('\n'):
        c = ln.split('\t')
        if len(c) == 10 and c[5] != '_':
            c[5] = '|'.join(sorted(c[5].split('|'), key=lambda f: (f.split('=')[0].lower(), f.split('=')[0])))
        out.append('\t'.join(c))
    return '\n'.join(out)


def c17_execute(sc):
    rng = random.Random(sc['seed'])
    text = sorted_feats(render(sc['lines'], rng))
    limit = 1 if sc['kind'] != 'docs' else sc['limit']
    gold = list(CoNLLUReader(limit).read_from_str(text))
    with tempfile.TemporaryDirectory() as tmp:
        path, res = os.path.join(tmp, 'gold.conllu'), os.path.join(tmp, 'results')
        with open(path, 'w', encoding='utf-8', newline='') as f:
            f.write(text)
        tester = DataSetTaggerTester(gold) if sc['kind'] == 'docs' else FileTaggerTester(path, res) if sc['kind'] == 'results' else FileTaggerTester(path)
        for rep in range(2 if sc['repeat'] else 1):
            tagger = Recorder(gold, sc['mode'], sc['seed'] + rep, sc['lazy'])
            with contextlib.redirect_stdout(io.StringIO()):
                scores, e = attempt(lambda: tester.test(tagger, sc['name']))
            shape, out = False, []
            if e is None and sc['kind'] == 'results':
                try:
                    with open(os.path.join(res, sc['name']), encoding='utf-8', newline='') as f:
                        shape, out = parse_out(f.read())
                except OSError:
                    pass
            pred = [pr_doc(d) for d in tagger.pred]
            forms = {t.text for d in gold + tagger.pred for t in d.tokens}
            low = {}
            for d in gold + tagger.pred:
                for t in d.tokens:
                    low[t.text] = t.text.lower() if t.text_replacement is not None else t.text.replace(' ', '').lower()
            rels = {t.deprel for d in gold + tagger.pred for t in d.tokens if t.deprel}
            names = sorted({k for d in gold + tagger.pred for t in d.tokens for k in (t.pos.feats if t.pos else {})}, key=lambda k: (k.lower(), k))
            yield {'k': 'test', 'lines': sc['lines'], 'limit': limit, 'seen': tagger.seen, 'pred': pred, 'ok': e is None, 'exc': '' if e is None else exc_name(e),
                   'scores': pr_scores(scores) if e is None else {}, 'saves': sc['kind'] == 'results', 'saved': {'shape': shape, 'out': out},
                   'low': [[cps(f), low[f]] for f in sorted(forms)], 'rels': [[r, r.split(':')[0]] for r in sorted(rels)],
                   'spaces': sorted({ord(c) for d in gold for c in d.text if c.isspace()}), 'order': names}


SCENARIOS = {'C15': c15_scenarios, 'C16': c16_scenarios, 'C17': c17_scenarios}
EXECUTE = {'C15': c15_execute, 'C16': c16_execute, 'C17': c17_execute}
