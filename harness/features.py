"""Driver for features and labels: lemma rules (C21), tag labels (C22), lemma labels (C23), vocabularies (C24), batches (C25)."""
import contextlib
import io
import json
import os
import random
import subprocess
import sys
import tempfile
import zlib
from unittest import mock

import bpemb
import morfessor

from babylondigger.datamodel import Document, Pos, Sentence, Token
from babylondigger.features import builder, provider
from babylondigger.lemmas.transformation_rules import LemmaSuffixTransformation, LemmaTransformationTrie

from common import attempt, cps, exc_name, num, ocps, ost, st
from dm import mk_pos, pr_pos

P = provider


class Bank(object):
    """a training set: documents, iterable any number of times"""
    def __init__(self, docs):
        self.docs = docs

    def __iter__(self):
        return iter(self.docs)


def mk_doc(sents, mwt=True):
    """sents: lists of [form, lemma or None, pos list]"""
    toks, bounds, text, n = [], [], '', 0
    for s in sents:
        i = 0
        while i < len(s):
            # some words stand inside multiword tokens, whose surface is something else
            k = [0, 0, 1, 2, 0, 0, 3][zlib.crc32(json.dumps(s[i]).encode()) % 7] if mwt else 0
            group, surface = s[i:i + max(k, 1)], 'Surface'[:3 + k] if k else s[i][0]
            for j, (form, lemma, pos) in enumerate(group):
                toks.append(Token(len(text), len(text) + len(surface), pos=mk_pos(pos), lemma=lemma, **(dict(sub_index=j, text_replacement=form) if k else {})))
            text += surface + ' '
            i += len(group)
        bounds.append(Sentence(n, n + len(s)))
        n += len(s)
    return Document(text[:-1], toks, bounds)


def mk_bank(docs):
    return Bank([mk_doc(d) for d in docs])


def flat(docs):
    return [t for d in docs for s in d for t in s]


def batches(bank, size):
    out = []
    for d in bank:
        for s in d.sentences:
            if not out or len(out[-1]) >= size:
                out.append([])
            out[-1].append(s)
    return out


def build(prov, bank):
    """(feature extractor, label extractor, interpreter, initializer) of one provider, without pickling surprises"""
    return provider.FeatureExtractorBuilderProvider([prov]).build(bank)


def per_token(extractor, bank, name, size=3, **kw):
    """values of a feature, one per token"""
    out = []
    for b in batches(bank, size):
        f = extractor.get_features(b, **kw)[name]
        for s, row in zip(b, f):
            out += [row[i] for i in range(s.tokens_count)]
    return out


def interpreted(interpreter, bank, name, values, size=2):
    """tokens after interpreting one value per token; batches are padded as predictions are"""
    out, k = [], 0
    for b in batches(bank, size):
        rows, longest = [], max(s.tokens_count for s in b)
        for s in b:
            row = values[k:k + s.tokens_count]
            k += s.tokens_count
            rows.append(row + [row[-1]] * (longest - len(row)))
        for s, toks in zip(b, interpreter.interpret(b, {name: rows})):
            toks = list(toks)
            assert len(toks) == s.tokens_count
            out += list(zip(s, toks))
    return out


def keeps(pairs, pos=True, lemma=True):
    return all(a.start == b.start and a.end == b.end and (not pos or pr_pos(a.pos) == pr_pos(b.pos)) and (not lemma or a.lemma == b.lemma) and
               a.deprel == b.deprel and a.text == getattr(b, 'text', a.text) for a, b in pairs)


def quiet(f):
    with contextlib.redirect_stdout(io.StringIO()):
        return f()


# ------------------------------------------------------------------ random material
LETTERS = ['a', 'b', 'c', 'A', 'B', 'e\u0301', '\u00e9', '\u0456', '\u0407', '1', '-', '\u0130', '\u1e9e', '\U00010400']


def word(rng, n=5, alpha=None):
    return ''.join(rng.choice(alpha or LETTERS) for _ in range(rng.randint(1, n)))


def rand_pos(rng, wild):
    one = lambda vals: rng.choice(vals)
    u = one(['N', 'V', 'A'] + ([None, 'N', 'V', ''] if wild else []))
    x = one(['x', 'y', None, 'x', 'y', ''] if wild else ['x', 'y'])
    feats = {k: rng.choice(['p', 'q', 'p', 'q', ''] if wild else 'pq') for k in rng.sample(['Case', 'Num', 'case', 'Z', 'Mood[x]'], rng.choice([0, 0, 1, 2, 3]))}
    return {'u': ost(u), 'x': ost(x), 'f': [[k, feats[k]] for k in sorted(feats)]}


def rand_docs(rng, ntok, tok):
    docs, left = [], ntok
    while left:
        d = []
        for _ in range(rng.randint(1, 3)):
            n = min(left, rng.randint(1, 4))
            if n:
                d.append([tok() for _ in range(n)])
                left -= n
        if d:
            docs.append(d)
    return docs


# ------------------------------------------------------------------ C21
def rule_rec(r):
    return {'ws': cps(r.word_suffix), 'ls': cps(r.lemma_suffix), 'ex': not r.is_regular}


def txt(c):
    return ''.join(map(chr, c))


def c21_scenarios(tier, rng, gens):
    alpha = {1: 'a', 2: 'b'}
    tr = lambda p: [''.join(alpha[x] for x in p[0]), ''.join(alpha[x] for x in p[1])]
    sets = [[tr(p) for p in s] for s in gens['pairs']]
    singles = [s for s in sets if len(s) == 1]
    for s in singles:
        yield {'op': 'rule', 'p': s[0], 'qs': ['a', 'b', 'ab', 'ba', 'aab', 'bab', 'bbb', 'abab']}
    more = rng.sample(sets, min(len(sets), 700 if tier == 'quick' else 12000))
    for s in more:
        yield {'op': 'trie', 'ps': s, 'qs': sorted({p[0] for p in s} | {'a', 'b', 'ab', 'ba', 'aba', 'bab', 'aab', 'abb'})}
    for s in rng.sample(sets, 150 if tier == 'quick' else 3000):
        yield {'op': 'enc', 'docs': [[[[w, l, []] for w, l in s]]], 'th': rng.choice([0, 0, 1]), 'qs': ['a', 'abb', 'bb'], 'seed': rng.random()}
    for i in range(150 if tier == 'quick' else 3000):
        w = word(rng, 6)
        l = (w[:rng.randint(0, len(w))] + word(rng, 3)) if rng.random() < 0.8 else word(rng, 4)
        yield {'op': 'rule', 'p': [w.lower(), l.lower() if rng.random() < 0.9 else ''], 'qs': [w.lower(), w.lower()[1:], w.lower()[-2:], word(rng), word(rng) + w.lower(), '']}
    for i in range(8 if tier == 'quick' else 60):      # long words: long common starts, long endings
        al = rng.choice([['a', 'b'], LETTERS])
        long = lambda lo, hi: ''.join(rng.choice(al).lower() for _ in range(rng.randint(lo, hi)))
        w = long(17, 40)
        k = rng.choice([0, 0, 1, len(w) // 2, len(w) - 1, len(w)])
        p = [w, w[:k] + long(0 if k else 1, 20)]
        near = [w, 'c' + w, w[1:], w[-12:], 'q' + w[-16:], 'b' + w[1:]]
        yield {'op': 'rule', 'p': p, 'qs': near}
        whole = [w, chr(ord(w[0]) + 1) + w[1:]]        # the common start is empty: the whole word is replaced
        yield {'op': 'trie', 'ps': [p, whole] if i % 2 else [whole], 'qs': near}
        yield {'op': 'enc', 'docs': [[[p + [[]], whole + [[]]]]], 'th': 0, 'qs': near, 'seed': rng.random()}
    for i in range(40 if tier == 'quick' else 800):
        yield {'op': 'order', 'rules': [[rng.choice(['', 'a', 'b', 'ab']), rng.choice(['', 'a', 'c']), rng.random() < 0.5] for _ in range(rng.randint(2, 7))]}
    for i in range(150 if tier == 'quick' else 3000):
        al = rng.choice([LETTERS, ['a', 'b', 'A'], ['x', 'y', 'z']])
        ws = [word(rng, rng.choice([1, 3, 6]), al) for _ in range(rng.randint(1, 5))]

        def pair():
            w = rng.choice(ws) if rng.random() < 0.6 else word(rng, 4, al)
            l = rng.choice([w, w[:-1] + 'q', w[:1], rng.choice(ws), w + 'a']) or 'q'
            return [w, l, []]
        docs = rand_docs(rng, rng.randint(1, 14 if tier == 'quick' else 30), pair)
        ps = [[w.lower(), l.lower()] for w, l, _ in flat(docs)]
        yield {'op': 'trie', 'ps': ps, 'qs': [w.lower() for w in ws] + [word(rng, 4, al) for _ in range(4)] + [rng.choice(ws).lower()[k:] for k in (1, 2)] + [rng.choice(al) + rng.choice(ws).lower()]}
        yield {'op': 'enc', 'docs': docs, 'th': rng.choice([0, 0, 1, 2, 5]), 'qs': [word(rng, 4, al) for _ in range(4)], 'seed': rng.random()}


def c21_execute(sc):
    rng = random.Random(str(sc.get('seed')))
    if sc['op'] == 'rule':
        w, l = sc['p']
        r = LemmaSuffixTransformation.get_rule(w, l)
        apps = []
        for q in sc['qs']:
            out, e = attempt(lambda: r.transform(q))
            apps.append({'q': cps(q), 'is': bool(r.is_applicable(q)), 'out': cps('' if e else out), 'exc': exc_name(e) if e else ''})
        yield {'k': 'rule', 'w': cps(w), 'l': cps(l), 'rule': rule_rec(r), 'back': cps(r.transform(w)), 'apps': apps}
    elif sc['op'] == 'order':
        rs = [LemmaSuffixTransformation(*x) for x in sc['rules']]
        table = lambda f: [[bool(f(a, b)) for b in rs] for a in rs]
        yield {'k': 'order', 'rules': [rule_rec(r) for r in rs], 'eq': table(lambda a, b: a == b), 'lt': table(lambda a, b: a < b), 'hash': table(lambda a, b: hash(a) == hash(b)),
               'foreign': not (rs[0] == 1) and rs[0] != 'x' and isinstance(attempt(lambda: rs[0] < 1)[1], TypeError)}
    elif sc['op'] == 'trie':
        rules = []
        for w, l in sc['ps']:
            r = LemmaSuffixTransformation.get_rule(w, l)
            if r not in [x for x, _ in rules]:
                rules.append((r, len(rules)))
        trie = LemmaTransformationTrie.build(iter(rules))
        show = lambda rs: [[rule_rec(r), num(i)] for r, i in rs]
        yield {'k': 'trie', 'rules': show(rules), 'qs': [{'q': cps(q), 'got': show(trie.get_applicable_rules(q))} for q in sc['qs']]}
    else:
        bank = mk_bank(sc['docs'])
        prov = P.LemmaTransformationExtractorProvider('app', 'lab', {'rules_threshold': sc['th']})
        if rng.random() < 0.3:       # the provider saw another data set before
            quiet(lambda: build(prov, mk_bank([[[['zz', 'zy', []], ['q', 'q', []]]]])))
        fe, le, interp, init = build(prov, bank)
        shapes = init.shapes()
        size = shapes['lab']['LEMMA']
        lab = [num(x[0]) for x in per_token(le, bank, 'lab')]
        marks = per_token(fe, bank, 'app')
        toks = flat(sc['docs'])
        both = quiet(lambda: interpreted(interp, bank, 'lab', [[x] for x in lab]))
        foreign = mk_bank([[[[q, None, []] for q in sc['qs']]]])
        qs = []
        fm = per_token(fe, foreign, 'app')
        for i in range(min(size, 6)):
            for b, name in ((foreign, sc['qs']), (bank, [t[0] for t in toks])):
                got = quiet(lambda: interpreted(interp, b, 'lab', [[i]] * len(name)))
                qs += [{'w': cps(w.lower()), 'id': i, 'lemma': cps(x.lemma)} for w, (_, x) in zip(name, got)]
        qs = rng.sample(qs, min(len(qs), 40))
        yield {'k': 'enc', 'train': [[cps(t[0].lower()), cps(t[1].lower())] for t in toks], 'th': sc['th'], 'lab': lab, 'size': num(size), 'appsize': num(shapes['app'][0]),
               'apps': [{'w': cps(w.lower()), 'v': [bool(x) for x in v]} for w, v in list(zip([t[0] for t in toks], marks)) + list(zip(sc['qs'], fm))],
               'back': [cps(x.lemma) for _, x in both], 'keeps': keeps(both, lemma=False), 'qs': qs}


# ------------------------------------------------------------------ C22
HOWS = ['pos_joint', 'pos_XF', 'pos_UXF', 'pos_gran']
POOL = [{'u': ['N'], 'x': [], 'f': []}, {'u': ['N'], 'x': ['x'], 'f': []}, {'u': ['V'], 'x': ['x'], 'f': [['Case', 'p']]}, {'u': [], 'x': [], 'f': [['Case', 'q'], ['Num', 'p']]}]


# a feature with the name of another part of the tag
CLASH = [[{'u': ['N'], 'x': ['x'], 'f': [['UPOS', 'p']]}], [{'u': ['V'], 'x': ['y'], 'f': []}], [{'u': ['V'], 'x': ['x'], 'f': []}]]


def c22_scenarios(tier, rng, gens):
    for how in HOWS:
        yield {'how': how, 'docs': [[[['w', 'l', t] for t in CLASH]]], 'foreign': [CLASH[0][0]], 'seed': 7}
    labs = [s for s, k in gens['labels'] if k == 0]
    if tier == 'quick':
        labs = rng.sample(labs, min(len(labs), 160))
    for s in labs:
        pool = rng.sample(POOL, 4) if rng.random() < 0.5 else [rand_pos(rng, True) for _ in range(4)]
        for how in HOWS if tier != 'quick' else rng.sample(HOWS, 2):
            tags = [([pool[x[0]] if x else pool[0]]) for x in s]
            if how == 'pos_joint' and rng.random() < 0.3:
                tags = [([] if not x else t) for x, t in zip(s, tags)]
            yield {'how': how, 'docs': [[[['w', 'l', t] for t in tags]]], 'foreign': [rand_pos(rng, True) for _ in range(3)], 'seed': rng.random()}
    for i in range(200 if tier == 'quick' else 6000):
        how = rng.choice(HOWS)
        wild = rng.random() < 0.6
        pool = [rand_pos(rng, wild) for _ in range(rng.randint(1, 6))]
        tok = lambda: ['w' + rng.choice('abc'), rng.choice([None, 'l']), [] if how == 'pos_joint' and wild and rng.random() < 0.2 else [rng.choice(pool)]]
        yield {'how': how, 'docs': rand_docs(rng, rng.randint(1, 16 if tier == 'quick' else 40), tok), 'foreign': [rng.choice(pool) if rng.random() < 0.3 else rand_pos(rng, True) for _ in range(4)], 'seed': rng.random()}


def c22_execute(sc):
    rng = random.Random(str(sc['seed']))
    bank = mk_bank(sc['docs'])
    _, le, interp, init = build(P.PosDictExtractorProvider('t', sc['how']), bank)
    shape = init.shapes()['t']
    lab = [[num(i) for i in x] for x in per_token(le, bank, 't')]
    toks = flat(sc['docs'])
    both = interpreted(interp, bank, 't', lab)
    sizes = [num(shape[n]) for n in shape]
    ids = [[rng.randrange(n) for n in sizes] for _ in toks]
    mixed = interpreted(interp, bank, 't', ids)
    foreign = mk_bank([[[['w', 'l', [p]] for p in sc['foreign']]]])
    got = [[num(i) for i in x] for x in per_token(le, foreign, 't')]
    yield {'k': 'pos', 'how': sc['how'], 'names': [st(n) for n in shape], 'sizes': sizes, 'train': [t[2] for t in toks], 'lab': lab, 'back': [pr_pos(x.pos) for _, x in both],
           'qs': [{'ids': i, 'pos': pr_pos(x.pos)} for i, (_, x) in zip(ids, mixed)], 'foreign': [{'pos': [p], 'ids': g} for p, g in zip(sc['foreign'], got)],
           'keeps': keeps(both, pos=False) and keeps(mixed, pos=False)}


# ------------------------------------------------------------------ C23
def c23_scenarios(tier, rng, gens):
    labs = gens['labels']
    for s, k in rng.sample(labs, 220 if tier == 'quick' else len(labs)):
        names = rng.sample(['l1', 'L1', 'b', '\u00e9', 'aa'], 3)
        lem = [names[x[0] - 1] if x else None for x in s]
        yield {'op': 'dict', 'docs': [[[['w', l, []] for l in lem]]]}
        yield {'op': 'char', 'docs': [[[['w', l or 'l', []] for l in lem]]], 'min': k, 'm': rng.randint(1, 5), 'seed': rng.random()}
    for i in range(150 if tier == 'quick' else 5000):
        al = rng.choice([LETTERS, ['a', 'b'], ['x', 'y', 'z', '\u2581']])
        pad = lambda w: rng.choice(['%s ', ' %s', '%s %s']).replace('%s', w) if rng.random() < 0.15 else w
        docs = rand_docs(rng, rng.randint(1, 12), lambda: [word(rng, 4, al), pad(word(rng, rng.choice([1, 3, 7]), al)), []])
        yield {'op': 'char', 'docs': docs, 'min': rng.choice([0, 1, 1, 2, 3]), 'm': rng.choice([1, 2, 3, 5, 8, 12]), 'seed': rng.random()}
        yield {'op': 'dict', 'docs': rand_docs(rng, rng.randint(1, 12), lambda: ['w', rng.choice([None, 'a', 'b', word(rng, 2, al)]), [rand_pos(rng, True)]])}


def c23_execute(sc):
    bank = mk_bank(sc['docs'])
    toks = flat(sc['docs'])
    if sc['op'] == 'dict':
        _, le, interp, init = build(P.LemmaDictExtractorProvider('t'), bank)
        shape = init.shapes()['t']
        lab = [num(x[0]) for x in per_token(le, bank, 't')]
        both = interpreted(interp, bank, 't', [[i] for i in lab])
        yield {'k': 'dict', 'names': [st(n) for n in shape], 'size': num(list(shape.values())[0]), 'train': [ost(t[1]) for t in toks], 'lab': lab, 'back': [ost(x.lemma) for _, x in both],
               'keeps': keeps(both, lemma=False)}
        return
    rng = random.Random(str(sc['seed']))
    _, le, interp, init = build(P.LemmaCharExtractorProvider('t', {'min_frequency': sc['min'], 'max_word_length': sc['m'], 'segmenter': 'char'}), bank)
    extra = sorted({c for t in toks for c in t[1]}) + ['\u4e00']
    asked = Bank(list(bank) + [mk_doc([[['w', l, []] for l in extra]])])
    lab = [[num(i) for i in x] for x in per_token(le, asked, 't')]
    both = interpreted(interp, asked, 't', lab)
    rows = init.shapes()['t'][0]
    ids = [[rng.choice([0, 1, 2, 3] + list(range(rows)) * 2) for _ in range(sc['m'])] for _ in lab]
    ids = [[min(i, max(rows - 1, 3)) for i in x] for x in ids]
    mixed = interpreted(interp, asked, 't', ids)
    seg = lambda l: [cps(c) for c in l]
    yield {'k': 'char', 'train': [seg(t[1]) for t in toks], 'min': sc['min'], 'm': sc['m'], 'rows': num(rows),
           'toks': [{'seg': seg(l), 'lab': x, 'back': cps(b.lemma)} for l, x, (_, b) in zip([t[1] for t in toks] + extra, lab, both)],
           'qs': [{'ids': i, 'lemma': cps(b.lemma)} for i, (_, b) in zip(ids, mixed)], 'keeps': keeps(both, lemma=False) and keeps(mixed, lemma=False)}


# ------------------------------------------------------------------ C24
BPE_MARK = '\u2581'


def bpe_split(text):
    """a stand-in segmentation model: the marker stands alone before a capital or digit, otherwise joins the first piece"""
    pieces = [text[i:i + 2] for i in range(0, len(text), 2)]
    return [BPE_MARK] + pieces if text[:1].isupper() or text[:1].isdigit() else [BPE_MARK + pieces[0]] + pieces[1:]


class FakeBpe(object):
    def __enter__(self):
        self.p = [mock.patch.object(bpemb.BPEmb, '__init__', lambda s, *a, **k: None), mock.patch.object(bpemb.BPEmb, 'encode', lambda s, t: bpe_split(t))]
        for p in self.p:
            p.start()

    def __exit__(self, *a):
        for p in self.p:
            p.stop()


def train_morfessor(path, words):
    m = morfessor.BaselineModel()
    m.load_data([(1, w) for w in words])
    state = random.getstate()               # it shuffles the words
    random.seed(1)
    with contextlib.redirect_stderr(io.StringIO()):
        m.train_batch()
    random.setstate(state)
    morfessor.MorfessorIO().write_binary_model_file(path, m)
    return m


def c24_scenarios(tier, rng, gens):
    for s, k in rng.sample(gens['labels'], 120 if tier == 'quick' else len(gens['labels'])):
        names = ['a', 'b', 'A', 'ab']
        forms = [names[x[0]] if x else 'a' for x in s]
        yield {'op': 'trained', 'lower': rng.random() < 0.5, 'min': k, 'docs': [[[[f, None, []] for f in forms]]], 'qs': ['B', 'zz', 'Ab'], 'seed': rng.random()}
        yield {'op': 'chars', 'seg': 'char', 'lower': False, 'min': k, 'docs': [[[[f, None, []] for f in forms]]], 'qs': ['B', 'zz', 'Ab'], 'seed': rng.random()}
    for i in range(160 if tier == 'quick' else 5000):
        al = rng.choice([LETTERS, ['a', 'b', 'A', 'B'], ['a', '1']])
        pool = [word(rng, 4, al) for _ in range(rng.randint(1, 6))]
        pool += [w.lower() for w in pool[:2]] + [w.upper() for w in pool[:2]]
        if rng.random() < 0.3:
            pool.append(pool[0] + rng.choice([' ', '\u00a0', '\u3000']) + word(rng, 2, al))
        tok = lambda: [rng.choice(pool), None, []]
        sc = {'docs': rand_docs(rng, rng.randint(1, 14 if tier == 'quick' else 40), tok), 'qs': [rng.choice(pool).swapcase(), word(rng, 3, al), 'zz'], 'seed': rng.random(),
              'min': rng.choice([0, 1, 1, 2, 3, 4]), 'lower': rng.random() < 0.5}
        sc['op'] = rng.choice(['trained', 'trained', 'chars', 'words', 'words', 'subemb'])
        sc['seg'] = rng.choice(['char', 'char', 'bpe', 'morfessor'])
        if sc['op'] in ('words', 'subemb'):
            dim = rng.choice([1, 2, 3])
            units = sorted(set(pool) | {w.lower() for w in pool}) if sc['op'] == 'words' else sorted({c for w in pool for c in w} | {w[:2] for w in pool})
            units = [u for u in units if not any(c.isspace() for c in u)]
            units = rng.sample(units, rng.randint(1, len(units)))
            if rng.random() < 0.3:
                units.append(rng.choice(units))
            sc['file'] = [[u, [rng.randint(-8, 8) for _ in range(dim)]] for u in units]
            sc['header'] = dim == 1 or rng.random() < 0.5
            if rng.random() < 0.08 and len(sc['file']) > 1:
                sc['file'][-1][1] = sc['file'][-1][1] + [4]
                sc['op'] += '-bad'
        yield sc
    for i in range(4 if tier == 'quick' else 24):      # long words
        pool = [''.join(rng.choice(LETTERS) for _ in range(rng.randint(25, 60))) for _ in range(3)]
        yield {'op': 'chars', 'seg': 'char', 'lower': i % 2 == 0, 'min': rng.choice([0, 1]), 'docs': [[[[f, None, []] for f in pool[:2]]]], 'qs': [pool[2], pool[0].swapcase(), pool[1] * 3], 'seed': rng.random()}
    yield {'op': 'segmenter'}
    for i in range(2 if tier == 'quick' else 12):
        yield {'op': 'repro', 'seed': rng.randrange(10 ** 6)}


def vec_line(u, v, sep=' ', end=''):
    return sep.join([u] + ['%.2f' % (x / 4) for x in v]) + end


def c24_provider(sc, root):
    cfg = {'min_frequency': sc['min'], 'lowercase': sc['lower'], 'segmenter': sc.get('seg', 'char')}
    ref = list
    if cfg['segmenter'] == 'bpe':
        cfg['segmenter_config'] = {'language': 'xx', 'vocab_size': 10}

        def ref(w):
            p = bpe_split(w)
            return ([p[0][1:]] if len(p[0]) > 1 else []) + p[1:]
    elif cfg['segmenter'] == 'morfessor':
        path = os.path.join(root, 'morf.bin')
        model = train_morfessor(path, sorted({t[0] for t in flat(sc['docs'])}) + ['ab', 'aab', 'abab'])
        cfg['segmenter_config'] = {'path': path}
        ref = lambda w: model.viterbi_segment(w)[0]
    if 'file' in sc:
        path = os.path.join(root, 'emb.txt')
        with open(path, 'w', encoding='utf-8') as f:
            if sc['header']:
                f.write('%d %d\n' % (len(sc['file']), len(sc['file'][0][1])))
            style = random.Random(str(sc['seed'])).choice([(), (), ('\t',), (' ', ' '), ('  ',), (' ', '\r')])
            f.write('\n'.join(vec_line(u, v, *style) for u, v in sc['file']) + '\n')
        cfg['path'] = cfg['embedding_path'] = path
    kind = sc['op'].split('-')[0]
    if kind == 'trained':
        return P.TrainableWordEmbeddingExtractorProvider('f', cfg), ref
    if kind == 'words':
        return P.WordEmbeddingExtractorProvider('f', 'i', cfg), ref
    if kind == 'chars':
        return P.SubwordsExtractorProvider('f', cfg), ref
    return P.SubwordEmbeddingExtractorProvider('f', 'i', cfg), ref


def c24_execute(sc):
    if sc['op'] == 'segmenter':
        bank = mk_bank([[[['a', 'a', []]]]])
        cfg = {'min_frequency': 1, 'segmenter': 'nope', 'max_word_length': 3, 'embedding_path': '/nonexistent'}
        for f in (lambda: build(P.SubwordsExtractorProvider('f', cfg), bank), lambda: build(P.SubwordEmbeddingExtractorProvider('f', 'f', cfg), bank),
                  lambda: build(P.LemmaCharExtractorProvider('f', cfg), bank), lambda: build(P.PosDictExtractorProvider('f', 'pos_nope'), bank)):
            e = attempt(f)[1]
            yield {'k': 'refuse', 'exc': exc_name(e) if e else ''}
        return
    if sc['op'] == 'repro':
        outs = []
        for hs in ('1', '77', '1234', '99'):
            env = dict(os.environ, PYTHONHASHSEED=hs)
            outs.append(subprocess.run([sys.executable, os.path.abspath(__file__), str(sc['seed'])], env=env, capture_output=True, text=True, timeout=50))
        if any(o.returncode for o in outs):
            raise RuntimeError('feature building failed in a fresh process: ' + ' '.join(o.stderr[-800:] for o in outs))
        for o in outs[1:]:
            yield {'k': 'repro', 'a': outs[0].stdout, 'b': o.stdout}
        return
    with tempfile.TemporaryDirectory() as root, FakeBpe():
        bank = mk_bank(sc['docs'])
        prov, ref = c24_provider(sc, root)
        if sc['op'].endswith('-bad'):
            e = quiet(lambda: attempt(lambda: build(prov, bank)))[1]
            yield {'k': 'refuse', 'exc': exc_name(e) if e else ''}
            return
        fe, _, _, init = build(prov, bank)
        isword = sc['op'] in ('trained', 'words')
        low = (lambda w: [w.lower()] if sc['lower'] else [w]) if isword else ref
        toks = [t[0] for t in flat(sc['docs'])]
        extra = sc['qs'] + sorted({u for w in toks for u in low(w)}) + [u for u, _ in sc.get('file', [])]
        asked = Bank(list(bank) + [mk_doc([[[w, None, []] for w in extra]])])
        vals = per_token(fe, asked, 'f')
        shapes, values = init.shapes(), init.initial_values()
        if 'file' in sc:
            rows, ini = shapes['i'], [[num(i), [int(round(x * 4)) for x in v]] for i, v in values['i']]
        else:
            rows, ini = shapes['f'], [[-1, [-1]] for _ in values]
        out = []
        for w, v in zip(toks + extra, vals):
            v = [v] if isword else list(v)
            if not isword:
                while v and v[-1] == builder.PADDING:
                    v.pop()
            out.append({'seg': [cps(u) for u in low(w)], 'ids': [num(i) for i in v]})
        yield {'k': 'vocab', 'word': isword, 'pre': 'file' in sc, 'min': sc['min'], 'train': [[cps(u) for u in low(w)] for w in toks], 'toks': out, 'rows': [num(x) for x in rows],
               'file': [[cps(u), v] for u, v in sc.get('file', [])], 'init': ini}


def everything(seed):
    """numbers of a whole random configuration, as text (run in fresh processes)"""
    rng = random.Random(seed)
    al = rng.choice([LETTERS, list('aAbBcCdDeEfFgGhH'), list('aAbB')])
    docs = rand_docs(rng, 40, lambda: [word(rng, 4, al), word(rng, 4, al), [rand_pos(rng, True)]])
    bank = mk_bank(docs)
    provs = [P.SentenceLengthExtractorProvider('len'), P.TrainableWordEmbeddingExtractorProvider('tw', {'min_frequency': 1, 'lowercase': rng.random() < 0.5}),
             P.SubwordsExtractorProvider('ch', {'min_frequency': 1, 'segmenter': 'char'}), P.PosDictExtractorProvider('pos', rng.choice(HOWS)),
             P.LemmaDictExtractorProvider('ld'), P.LemmaTransformationExtractorProvider('app', 'lr', {'rules_threshold': 0}),
             P.LemmaCharExtractorProvider('lc', {'min_frequency': 1, 'segmenter': 'char', 'max_word_length': 6})]
    fe, le, _, init = provider.FeatureExtractorBuilderProvider(provs).build(bank)
    out = [init.shapes()]
    for b in batches(bank, 5):
        out += [fe.get_features(b), le.get_features(b)]
    return json.dumps(out)


# ------------------------------------------------------------------ C25
class Given(builder.FeatureExtractorBuilder):
    """features looked up by object"""
    def __init__(self, table, names, shapes=None, interp=None):
        self.table, self.names, self.shape, self.interp = table, names, shapes, interp

    def build(self, dataset):
        outer = self

        class X(builder.FeatureExtractorInterface):
            def get_features(self, obj, **kwargs):
                return {n: json.loads(json.dumps(outer.table[n][obj])) for n in outer.names}
        init = builder.EmptyFeatureInitializer()
        if self.shape is not None:
            init = builder.CompositeInitializer([builder.ConstantFeatureInitializer(n, s) for n, s in self.shape])
        return X(), (self.interp or builder.DoNothingInterpreter()), init


class Tick(builder.InterpreterInterface):
    def __init__(self, name):
        self.name = name

    def interpret(self, obj, value):
        return (obj[0], obj[1] + [[self.name, value[self.name]]])


def tree(x):
    return {'leaf': not isinstance(x, list), 'n': 0 if isinstance(x, list) else (int(x) if isinstance(x, (int, bool)) else -7), 'l': [tree(y) for y in x] if isinstance(x, list) else []}


def untree(t):
    return t['n'] if t['leaf'] else [untree(x) for x in t['l']]


def rand_tree(rng, depth, top=4):
    if depth == 0:
        return rng.randint(0, 9)
    return [rand_tree(rng, depth - 1) for _ in range(rng.choice([0, 1, 1, 2, 3, top]))]


def c25_scenarios(tier, rng, gens):
    trees = [s for s, _ in gens['trees']]
    for s in trees if tier != 'quick' else rng.sample(trees, min(len(trees), 1200)):
        yield {'op': 'pad', 'vals': [untree(t) for t in s]}
    for i in range(150 if tier == 'quick' else 5000):
        d = rng.randint(0, 4)
        vals = [rand_tree(rng, d) for _ in range(rng.randint(1, 5))]
        if rng.random() < 0.1:
            vals.append(rand_tree(rng, d + 1))
        yield {'op': 'pad', 'vals': vals}
    for i in range(120 if tier == 'quick' else 3000):
        d = rng.randint(0, 2)
        yield {'op': 'sparse', 'sents': [[rand_tree(rng, d) for _ in range(rng.randint(1, 4))] for _ in range(rng.randint(1, 4))], 'rate': rng.choice([0, 0, 30, 50, 100]), 'seed': rng.random()}
    hidden = 0
    for sc in c24_scenarios(tier, rng, {'labels': [[[], 0]] * (120 if tier == 'quick' else 1)}):
        if sc['op'] in ('trained', 'chars', 'words', 'subemb') and any(flat(sc['docs'])):
            hidden += 1
            yield {'op': 'hide', 'of': sc, 'rate': rng.choice([0, 50, 100, 100])}
        if hidden == (40 if tier == 'quick' else 800):
            break
    for i in range(12 if tier == 'quick' else 200):     # several features side by side
        n, d = rng.randint(1, 3), rng.randint(0, 2)
        yield {'op': 'pad', 'many': [[rand_tree(rng, d) for _ in range(n)] for _ in range(rng.choice([2, 9, 13]))]}
    for i in range(150 if tier == 'quick' else 3000):
        n = rng.randint(2, 4)
        names = rng.sample(['a', 'b', 'c', 'd', 'e', 'f', 'g'], 7)
        parts, at = [], 0
        for _ in range(n):
            k = rng.choice([0, 1, 1, 2])
            fs = names[at:at + k]
            at += k
            if rng.random() < 0.1:
                fs.append(names[0])
            parts.append({'f': sorted(set(fs)), 's': sorted({rng.choice('pqrstuvw') + '%d' % rng.choice([1, 2, 3, 4, 5, 6]) for _ in range(rng.choice([0, 1, 2]))}), 'wrap': rng.choice(['word', 'word', 'sparse', 'sent'])})
        yield {'op': 'merge', 'parts': parts, 'seed': rng.random()}
    yield {'op': 'interp', 'names': ['x', 'y'], 'lens': [1] * 700, 'extra': 1, 'seed': 5}
    for i in range(80 if tier == 'quick' else 2000):
        yield {'op': 'interp', 'names': rng.sample(['x', 'y', 'z'], rng.randint(1, 3)), 'lens': [rng.randint(1, 4) for _ in range(rng.randint(1, 4))], 'extra': rng.randint(0, 2), 'seed': rng.random()}


def c25_execute(sc):
    if sc['op'] == 'hide':
        of = sc['of']
        with tempfile.TemporaryDirectory() as root, FakeBpe():
            fe = build(c24_provider(of, root)[0], mk_bank(of['docs']))[0]
            alone = mk_bank([[[t]] for t in flat(of['docs'])[:12]])      # one word at a time: no padding
            random.seed(str(of['seed']))
            see = lambda **kw: [tree(x) for x in per_token(fe, alone, 'f', 1, **kw)]
            yield {'k': 'sparse', 'inp': see(), 'out': see(sparse_rate=sc['rate'] / 100), 'plain': see(), 'rate': sc['rate']}
    elif sc['op'] == 'pad' and 'many' in sc:
        names = ['f%d' % i for i in range(len(sc['many']))]
        table = {k: [json.loads(json.dumps(x)) for x in v] for k, v in zip(names, sc['many'])}
        fe = builder.wrap_sentence_level(Given(table, names)).build([])[0]
        out, e = attempt(lambda: fe.get_features(list(range(len(sc['many'][0])))))
        for k, v in zip(names, sc['many']):
            yield {'k': 'pad', 'inp': [tree(x) for x in v], 'out': [] if e else [tree(x) for x in out[k]], 'exc': exc_name(e) if e else ''}
    elif sc['op'] == 'pad':
        n = len(sc['vals'])
        b = builder.wrap_sentence_level(Given({'f': sc['vals']}, ['f']))
        fe = b.build([])[0]
        out, e = attempt(lambda: fe.get_features(list(range(n)))['f'])
        yield {'k': 'pad', 'inp': [tree(x) for x in sc['vals']], 'out': [] if e else [tree(x) for x in out], 'exc': exc_name(e) if e else ''}
    elif sc['op'] == 'sparse':
        vals = [x for s in sc['sents'] for x in s]
        objs, k = [], 0
        for s in sc['sents']:
            objs.append(list(range(k, k + len(s))))
            k += len(s)
        random.seed(sc['seed'])
        fe = builder.wrap_word_level(Given({'f': vals}, ['f']), True).build([])[0]
        plain = builder.wrap_word_level(Given({'f': vals}, ['f'])).build([])[0]
        outs = []
        for i, s in enumerate(objs):           # one sentence at a time: padding is not the subject here
            outs.append((plain.get_features([s])['f'], fe.get_features([s], sparse_rate=sc['rate'] / 100)['f'], fe.get_features([s])['f']))
        mk = lambda i: [tree(x) for o in outs for x in o[i]]
        # padding inside a word of several values is added after hiding; compare unpadded leaves only where depth is 0 or lengths agree
        flatw = all(not isinstance(x, list) for x in vals)
        if not flatw:
            outs = [o for s, o in zip(sc['sents'], outs) if len(s) == 1 and all(not isinstance(y, list) for x in s for y in x)]
            if not outs:
                return
        yield {'k': 'sparse', 'inp': mk(0), 'out': mk(1), 'plain': mk(2), 'rate': sc['rate']}
    elif sc['op'] == 'merge':
        rng = random.Random(str(sc['seed']))
        sents = [list(range(0, 2)), list(range(2, 5))]
        bs = []
        for p in sc['parts']:
            table = {n: [rng.randint(0, 9) for _ in range(5)] for n in p['f']}
            if p['wrap'] == 'sent':
                table = {n: {str(s): rng.randint(0, 9) for s in sents} for n in p['f']}

                class ByText(dict):
                    def __getitem__(self, k):
                        return dict.__getitem__(self, str(k))
                table = {n: ByText(t) for n, t in table.items()}
            mk = lambda p=p, table=table: {'word': lambda b: builder.wrap_word_level(b), 'sparse': lambda b: builder.wrap_word_level(b, True), 'sent': builder.wrap_sentence_level}[p['wrap']](
                Given(table, p['f'], [[n, [len(n), 3]] for n in p['s']]))
            bs.append(mk)
        if rng.random() < 0.3:
            bs.append(lambda: builder.EmptyFeatureExtractorBuilder())
        js = lambda d: [[st(n), json.dumps(d[n])] for n in d]
        parts = []
        for mk in bs:
            fe, _, init = mk().build([])
            parts.append({'f': js(fe.get_features(sents)), 's': js(init.shapes())})
        r, e = attempt(lambda: builder.merge(iter([mk() for mk in bs])).build([]))
        if e is not None:
            yield {'k': 'merge', 'parts': parts, 'f': [], 's': [], 'exc': exc_name(e), 'sexc': exc_name(e)}
            return
        f, fx = attempt(lambda: js(r[0].get_features(sents)))
        s, sx = attempt(lambda: js(r[2].shapes()))
        yield {'k': 'merge', 'parts': parts, 'f': f or [], 's': s or [], 'exc': exc_name(fx) if fx else '', 'sexc': exc_name(sx) if sx else ''}
    else:
        rng = random.Random(str(sc['seed']))
        longest = max(sc['lens']) + sc['extra']
        vals = [[[rng.randint(0, 99) for _ in range(longest)] for _ in sc['lens']] for _ in sc['names']]
        objs, k = [], 0
        for n in sc['lens']:
            objs.append([(k + j, []) for j in range(n)])
            k += n
        shape = rng.choice(['tuple', 'list'])
        given = {n: (v if shape == 'list' else tuple(tuple(r) for r in v)) for n, v in zip(sc['names'], vals)}
        b = builder.merge(iter([builder.wrap_word_level(Given({}, [], None, Tick(n))) for n in sc['names']] + [builder.wrap_word_level(Given({}, []))]))
        got = b.build([])[1].interpret(objs, given)
        yield {'k': 'interp', 'names': sc['names'], 'vals': vals, 'objs': [[o[0] for o in s] for s in objs], 'got': [[[o[0], o[1]] for o in s] for s in got]}


SCENARIOS = {'C21': c21_scenarios, 'C22': c22_scenarios, 'C23': c23_scenarios, 'C24': c24_scenarios, 'C25': c25_scenarios}
EXECUTE = {'C21': c21_execute, 'C22': c22_execute, 'C23': c23_execute, 'C24': c24_execute, 'C25': c25_execute}

if __name__ == '__main__':
    sys.stdout.write('\n'.join(everything(int(sys.argv[1]) + k) for k in range(5)))
