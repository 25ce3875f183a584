"""Driver for CoNLL-U input and output (C09-C13)."""
import os
import random
import tempfile

from babylondigger.datamodel import Document, Sentence
from babylondigger.evaluation import conll17_ud_eval as ud
from babylondigger.evaluation.conllu_io import CoNLLUReader, CoNLLUWriter

from common import attempt, cps, exc_name, opt
from dm import mk_token, pr_doc, rand_split, rand_text_doc, rand_tree, text_of

COL = {n: getattr(ud, n) for n in ('LEMMA', 'UPOS', 'XPOS', 'FEATS', 'HEAD', 'DEPREL')}
DEFAULT = ['LEMMA', 'UPOS', 'XPOS', 'FEATS', 'DEPREL']
ALL = sorted(COL)
INNER = ['\u00a0', '\u2028', '\x85', '\x0b', '\x1c', ' ', '\u3000', '\x1e', '\u200b']
LET = 'abcdeABCxyz\u0416\u0451\u00df\u0130\u4e2d0123456789_.,-=|#\U0001f600\u0301'
NAMES = ['Number', 'NumForm', 'Number[psor]', 'Case', 'case', 'Gender', 'VerbForm', 'Verb', 'A', 'a', 'Zz', '\u0416']


def form(rng, inner=True):
    r = rng.random()
    if r < 0.04:
        return '_'
    if r < 0.08:
        return rng.choice(['#', '#x', '1', '"', '-', '1-2', '0', '|', '='])
    s = ''.join(rng.choice(LET) for _ in range(rng.choice([1, 1, 2, 3, 5, 12])))
    if inner and rng.random() < 0.12:
        s = s + rng.choice(INNER) + rng.choice('abc')
    return s


def val(rng):
    """optional column value; never '_'"""
    if rng.random() < 0.25:
        return []
    return [rng.choice(['NOUN', 'x y', '\u043b\u0435\u043c\u043c\u0430', 'a|b', 'k=v', '0', '-', '#', '__', 'it\u2028s', 'l\x85m', 'nmod:poss', 'N', 'PUNCT', 'VERB', 'root', ''])]


def feats(rng):
    n = rng.choice([0, 0, 1, 2, 3, 5])
    return sorted([k, rng.choice(['Sing', 'Acc,Dat', '1', 'x y', '\u0416', ''])] for k in rng.sample(NAMES, n))


def word(rng, f, head):
    return {'t': 'word', 'form': cps(f), 'sp': rng.random() < 0.75, 'lemma': val(rng), 'upos': val(rng), 'xpos': val(rng), 'feats': feats(rng),
            'head': head, 'deprel': val(rng)}


def sentence_lines(rng, n, syntax=True, mwt=0.25, noise=0.3):
    heads = rand_tree(rng, n) if syntax else None
    out, i = [], 0

    def junk():
        while rng.random() < noise / 3:
            out.append({'t': rng.choice(['comment', 'empty'])})
    while i < n:
        junk()
        k = 0
        if rng.random() < mwt:
            k = min(rng.choice([1, 2, 2, 3, 4]), n - i)
            out.append({'t': 'range', 'n': k, 'form': cps(form(rng)), 'sp': rng.random() < 0.75})
        for _ in range(max(k, 1)):
            if k:
                junk()
            w = word(rng, form(rng), [] if heads is None else [heads[i] + 1])
            if k:
                w['sp'] = rng.random() < 0.8
            out.append(w)
            i += 1
    junk()
    return out + [{'t': 'blank'}]


def file_lines(rng, nsent, maxw=6, **kw):
    out = []
    for _ in range(nsent):
        n = rng.choice([1, 1, 2, 3, maxw] + ([13] if rng.random() < 0.2 else []))
        out += sentence_lines(rng, n, syntax=rng.random() < 0.75, **kw)
    return out


def render(lines, rng, nl='\n'):
    out, idx, sub = [], 0, 0
    us = lambda o: o[0] if o else '_'

    def misc(sp):
        e = [] if sp else ['SpaceAfter=No']
        e += rng.sample(['Foo', 'Gloss=x', 'SpacesAfter=\\s', 'Translit=y=z', 'NoSpaceAfter=1', 'CorrectSpaceAfter=Yes', 'SpaceAfterSentence=No', 'spaceafter=No', 'x=SpaceAfter'], rng.choice([0, 0, 0, 1, 2]))
        rng.shuffle(e)
        return '|'.join(e) or '_'
    for ln in lines:
        t = ln['t']
        if t == 'comment':
            out.append(rng.choice(['# text = x', '#', '# 1\ta\tb', '## newdoc']))
        elif t == 'blank':
            out.append('')
            idx = 0
        elif t == 'empty':
            out.append('\t'.join(['%d.%d' % (idx, rng.choice([1, 2, 11])), rng.choice(['_', 'gone']), '_', 'VERB', '_', '_', '_', '_', '0:root', '_']))
        elif t == 'range':
            out.append('\t'.join(['%d-%d' % (idx + 1, idx + ln['n']), text_of(ln['form']), '_', '_', '_', '_', '_', '_', '_', misc(ln['sp'])]))
        elif t == 'bad':
            out.append(ln['raw'] if 'raw' in ln else '1\tx')
        else:
            idx += 1
            fs = list(ln['feats'])
            rng.shuffle(fs)
            out.append('\t'.join([str(idx), text_of(ln['form']), us(ln['lemma']), us(ln['upos']), us(ln['xpos']),
                                  '|'.join('%s=%s' % (k, v) for k, v in fs) or '_', str(ln['head'][0]) if ln['head'] else '_', us(ln['deprel']),
                                  rng.choice(['_', '4:advmod', '0:root|2:x']), misc(ln['sp'])]))
    return ''.join(x + nl for x in out)


def io_doc(d):
    p = pr_doc(d)
    return p


class Scratch:
    def __enter__(self):
        fd, self.path = tempfile.mkstemp(dir=os.environ.get('VERIF_SCRATCH'))
        os.close(fd)
        return self.path

    def __exit__(self, *a):
        os.unlink(self.path)


def read(text, limit, cols, via):
    reader = CoNLLUReader(limit) if cols == DEFAULT else CoNLLUReader(limit, [COL[c] for c in cols])
    docs, err = [], ''
    with Scratch() as path:
        try:
            if via == 'file':
                with open(path, 'w', encoding='utf-8', newline='') as f:
                    f.write(text)
                src = reader.read_from_file(path)
            else:
                src = reader.read_from_str(text)
            for d in src:
                docs.append(d)
        except Exception as e:
            err = exc_name(e)
    return docs, err


def exec_read(sc):
    rng = random.Random(sc['seed'])
    text = render(sc['lines'], rng, sc.get('nl', '\n'))
    if sc.get('cut_nl') and text.endswith('\n'):
        text = text[:-1]
    for limit, cols in sc['runs']:
        docs, err = read(text, limit, cols, sc['via'])
        yield {'k': 'read', 'lines': strip_raw(sc['lines']), 'limit': limit, 'cols': cols, 'docs': [io_doc(d) for d in docs], 'err': bool(err), 'exc': err}


def strip_raw(lines):
    return [{k: v for k, v in ln.items() if k != 'raw'} for ln in lines]


def from_gen(g, rng):
    """scenario lines written by the specification"""
    return [dict(ln) for ln in g]


def well_formed(lines):
    return not any(x['t'] == 'bad' for x in lines)


def scen(rng, lines, runs, **kw):
    return dict({'lines': lines, 'runs': runs, 'seed': rng.randrange(10 ** 6), 'via': rng.choice(['str', 'file']), 'nl': rng.choice(['\n', '\n', '\r\n'])}, **kw)


def c09_scenarios(tier, rng, gens):
    for name in ('files', 'synfiles'):
        for g in gens[name]:
            yield scen(rng, g, [[50, DEFAULT]])
    for i in range(350 if tier == 'quick' else 6000):
        yield scen(rng, file_lines(rng, rng.choice([1, 1, 2, 3, 5])), [[50, DEFAULT]])
    for n in (12, 25):
        yield scen(rng, sentence_lines(rng, n), [[1, DEFAULT]])
        yield scen(rng, sentence_lines(rng, n, mwt=0.6) + sentence_lines(rng, 3), [[1, DEFAULT]])


def c10_scenarios(tier, rng, gens):
    for i in range(150 if tier == 'quick' else 4000):
        n = rng.choice([1, 2, 3, 4, 5, 7, 12])
        lines = file_lines(rng, n, maxw=4)
        runs = [[1, DEFAULT], [rng.randint(1, n + 1), DEFAULT], [n, DEFAULT], [max(1, n - 1), sorted(rng.sample(ALL, rng.randint(0, 6)))]]
        for _ in range(2):
            runs.append([rng.choice([1, 2, 3, 50]), sorted(rng.sample(ALL, rng.randint(0, 6)))])
        yield scen(rng, lines, runs)
    for c in range(64):
        cols = [x for k, x in enumerate(ALL) if c >> k & 1]
        yield scen(rng, file_lines(rng, 2, maxw=3), [[2, cols]])
    yield scen(rng, file_lines(rng, 101, maxw=2), [[50, DEFAULT], [100, DEFAULT], [101, DEFAULT]])


BAD_LINES = ['1\tx', '1', 'word', ' ', '\t', '1\ta\tb\tc\td\t_\t0\troot\t_', '1 a b c d _ 0 root _ _', '1\ta\ta\tN\tN\t_\tzero\troot\t_\t_',
             '1\ta\ta\tN\tN\t_\t1.5\troot\t_\t_', '1\ta\ta\tN\tN\tFoo\t0\troot\t_\t_', 'x',
             '1-2-3\tab\t_\t_\t_\t_\t_\t_\t_\t_', '1-\tab\t_\t_\t_\t_\t_\t_\t_\t_', '1-b\tab\t_\t_\t_\t_\t_\t_\t_\t_', '-2\tab\t_\t_\t_\t_\t_\t_\t_\t_']


def c11_scenarios(tier, rng, gens):
    for name in ('files', 'synfiles'):
        for g in gens[name]:
            yield scen(rng, g, [[rng.choice([1, 2, 50]), DEFAULT]])
    for i in range(500 if tier == 'quick' else 8000):
        n = rng.choice([1, 2, 3, 4])
        lines = file_lines(rng, n, maxw=4)
        kind = rng.choice(['noblank', 'blank2', 'blank0', 'cutmwt', 'shortmwt', 'backmwt', 'head', 'loop', 'roots', 'partial', 'outside', 'bad', 'bad', 'nolast', 'onlyjunk'])
        words = [k for k, x in enumerate(lines) if x['t'] == 'word']
        syn = [k for k in words if lines[k]['head']]
        blanks = [k for k, x in enumerate(lines) if x['t'] == 'blank']
        ranges = [k for k, x in enumerate(lines) if x['t'] == 'range']
        if kind in ('noblank', 'nolast'):
            lines = lines[:-1]
        elif kind == 'blank2':
            lines.insert(rng.choice(blanks), {'t': 'blank'})
        elif kind == 'blank0':
            lines.insert(0, {'t': 'blank'})
        elif kind == 'cutmwt' and ranges:
            k = rng.choice(ranges)
            lines = lines[:k + 1] + ([{'t': 'blank'}] if rng.random() < 0.5 else [])
        elif kind == 'shortmwt' and ranges:
            k = ranges[-1]
            lines[k] = dict(lines[k], n=lines[k]['n'] + 30)
        elif kind == 'backmwt' and ranges:      # a range that ends before it begins is never finished
            k = rng.choice(ranges)
            lines[k] = dict(lines[k], n=rng.choice([0, -1, -3]))
        elif kind in ('head', 'loop', 'roots', 'partial', 'outside') and syn:
            k = rng.choice(syn)
            h = {'head': [rng.randint(0, 6)], 'loop': [rng.randint(1, 3)], 'roots': [0], 'partial': [], 'outside': [rng.randint(5, 20)]}[kind]
            lines[k] = dict(lines[k], head=h)
        elif kind == 'bad':
            raw = rng.choice(BAD_LINES)
            lines.insert(rng.choice([0] + [k + 1 for k in blanks]) if '-' in raw else rng.randint(0, len(lines)), {'t': 'bad', 'raw': raw})
        elif kind == 'onlyjunk':
            lines = [{'t': rng.choice(['comment', 'empty'])} for _ in range(rng.randint(0, 3))]
        # the head/relation columns are always read here: DEFAULT
        yield scen(rng, lines, [[rng.choice([1, 2, 3, 50]), DEFAULT]], cut_nl=False)


# ------------------------------------------------------------------ writer
def clean_doc(rng, n):
    text, toks, sents = rand_text_doc(rng, n)
    ch = list(text)
    for t in toks:
        for k in range(t['s'], t['e']):
            if ch[k] in '\t\n\r':
                ch[k] = rng.choice([' ', 'q', '\u2028', '\x0b'])
        if t['rep']:
            t['rep'] = [cps(form(rng) if rng.random() < 0.95 else '')]
        if t['pos']:
            fs = feats(rng)
            rng.shuffle(fs)
            t['pos'] = [{'u': val(rng), 'x': val(rng), 'f': fs}]
        t['lemma'] = val(rng)
        t['deprel'] = val(rng)
    return ''.join(ch), toks, sents


def c12_scenarios(tier, rng, gens):
    for i in range(450 if tier == 'quick' else 8000):
        docs = [clean_doc(rng, rng.choice([1, 2, 3, 5, 8, 12])) for _ in range(rng.choice([1, 1, 1, 2, 3]))]
        cols = DEFAULT if rng.random() < 0.5 else sorted(rng.sample(ALL, rng.randint(0, 6)))
        yield {'docs': docs, 'cols': cols, 'via': rng.choice(['str', 'file'])}
    for i in range(12):      # the same document several times; long sentences; more than ninety-nine words
        d = clean_doc(rng, rng.choice([1, 2, 4]))
        yield {'docs': [d, d] if i % 2 else [d, clean_doc(rng, 2), d], 'same': True, 'cols': DEFAULT, 'via': rng.choice(['str', 'file'])}
    for n in (104, 130):
        text, toks, _ = clean_doc(rng, n)
        for t in toks:
            t['hd'], t['hs'] = [], []
        yield {'docs': [(text, toks, [[0, n]])], 'cols': DEFAULT, 'via': 'str'}
    yield {'docs': [], 'cols': DEFAULT, 'via': 'str'}
    yield {'docs': [('abc', [], [])], 'cols': DEFAULT, 'via': 'file'}


FIELDS = ['id', 'form', 'lemma', 'upos', 'xpos', 'feats', 'head', 'deprel', 'deps', 'misc']


def parse_out(text):
    """(shape ok, sentences of lines of columns)"""
    if text == '':
        return True, []
    lines = text.split('\n')
    if lines[-1] != '' or len(lines) < 2 or lines[-2] != '':
        return False, []
    out, cur = [], []
    for ln in lines[:-1]:
        if ln == '':
            if not cur:
                return False, []
            out.append(cur)
            cur = []
            continue
        f = ln.split('\t')
        if len(f) != 10:
            return False, []
        d = dict(zip(FIELDS, f))
        d['form'] = cps(d['form'])
        d['feats'] = d['feats'].split('|')
        cur.append(d)
    return not cur, out


def write(docs, cols, via):
    w = CoNLLUWriter() if cols == DEFAULT else CoNLLUWriter([COL[c] for c in cols])
    if via == 'str':
        return w.write_to_str(*docs)
    with Scratch() as path:
        w.write_to_file(path, *docs)
        with open(path, encoding='utf-8', newline='') as f:
            return f.read()


def c12_execute(sc):
    docs = [Document(t, [mk_token(x) for x in toks], [Sentence(a, b) for a, b in sents]) for t, toks, sents in sc['docs']]
    if sc.get('same'):      # equal inputs are one and the same object
        docs = [docs[next(j for j, y in enumerate(sc['docs']) if y == x)] for x in sc['docs']]
    given = [pr_doc(d) for d in docs]
    text, e = attempt(lambda: write(docs, sc['cols'], sc['via']))
    names = sorted({k for d in given for t in d['toks'] for p in t['pos'] for k, _ in p['f']}, key=lambda k: (k.lower(), k))
    spaces = sorted({ord(c) for t, _, _ in sc['docs'] for c in t if c.isspace()})
    shape, out = parse_out(text) if e is None else (False, [])
    yield {'k': 'write', 'given': given, 'cols': sc['cols'], 'spaces': spaces, 'order': names, 'ok': e is None, 'exc': '' if e is None else exc_name(e),
           'shape': shape, 'out': out}


def c13_scenarios(tier, rng, gens):
    for name in ('files', 'synfiles'):
        for g in gens[name]:
            if g[-1]['t'] == 'blank' and well_formed(g):
                yield dict(scen(rng, g, []), limit=rng.choice([1, 2]), cols=DEFAULT)
    for i in range(350 if tier == 'quick' else 6000):
        n = rng.choice([1, 2, 3, 4, 6])
        cols = DEFAULT if rng.random() < 0.6 else sorted(rng.sample(ALL, rng.randint(0, 6)))
        yield dict(scen(rng, file_lines(rng, n), []), limit=rng.choice([1, 2, 3, 50]), cols=cols)
    for n in (130, 250):                     # many sentences: long documents, many documents
        for limit in (3, 100, 120):
            yield dict(scen(rng, file_lines(rng, n), []), limit=limit, cols=DEFAULT)


def c13_execute(sc):
    rng = random.Random(sc['seed'])
    text = render(sc['lines'], rng, sc['nl'])
    docs, err = read(text, sc['limit'], sc['cols'], 'str')
    again, second, first, e = [], '', '', None
    if not err:
        first, e = attempt(lambda: write(docs, sc['cols'], sc['via']))
    if e is None and not err:
        again, err = read(first, sc['limit'], sc['cols'], sc['via'])
        if not err:
            second, e = attempt(lambda: write(again, sc['cols'], sc['via']))
    yield {'k': 'trip', 'lines': sc['lines'], 'limit': sc['limit'], 'cols': sc['cols'], 'again': [io_doc(d) for d in again], 'stable': first == second,
           'err': bool(err) or e is not None, 'exc': err or ('' if e is None else exc_name(e))}


SCENARIOS = {'C09': c09_scenarios, 'C10': c10_scenarios, 'C11': c11_scenarios, 'C12': c12_scenarios, 'C13': c13_scenarios}
EXECUTE = {'C09': exec_read, 'C10': exec_read, 'C11': exec_read, 'C12': c12_execute, 'C13': c13_execute}
