"""Driver for the data model (C01-C08)."""
import itertools
import random

from babylondigger.datamodel import Document, Pos, Sentence, Token, TokenExtras

from common import attempt, boolean, cps, exc_name, num, ocps, onum, opt, ost, pairs, st


# ------------------------------------------------------------------ values
def mk_pos(p):
    p = p[0] if p else None
    return None if p is None else Pos(p['u'][0] if p['u'] else None, p['x'][0] if p['x'] else None, dict(p['f']))


def text_of(c):
    return ''.join(map(chr, c))


def mk_token(t):
    one = lambda o: o[0] if o else None
    return Token(t['s'], t['e'], pos=mk_pos(t.get('pos', [])), lemma=one(t.get('lemma', [])),
                 deprel=one(t.get('deprel', [])), sub_index=t['sub'],
                 text_replacement=text_of(t['rep'][0]) if t['rep'] else None,
                 head_document_index=one(t['hd']), head_sentence_index=one(t['hs']),
                 extras=TokenExtras(dict(t['ex'])) if t.get('ex') else None)


def mk_sents(o):
    return None if not o else [Sentence(a, b) for a, b in o[0]]


def pr_pos(p):
    if p is None:
        return []
    return [{'u': ost(p.upos), 'x': ost(p.xpos), 'f': pairs(p.feats)}]


def pr_tok(t):
    return {'s': num(t.start), 'e': num(t.end), 'sub': num(t.sub_index), 'rep': ocps(t.text_replacement),
            'hd': onum(t._head_document_index), 'hs': onum(t._head_sentence_index), 'pos': pr_pos(t.pos),
            'lemma': ost(t.lemma), 'deprel': ost(t.deprel), 'ex': pairs(t.extras.as_dict())}


def pr_sents(doc):
    return [[num(x.start), num(x.end)] for x in doc.sentences_boundaries]


def tok(s, e, sub=0, rep=None, hd=None, hs=None, **kw):
    t = {'s': s, 'e': e, 'sub': sub, 'rep': [] if rep is None else [cps(rep)], 'hd': opt(hd), 'hs': opt(hs),
         'pos': [], 'lemma': [], 'deprel': [], 'ex': []}
    t.update(kw)
    return t


# ------------------------------------------------------------------ random documents
def rand_layout(rng, ntok, mwt=0.25, gap=0.5):
    """tokens laid out over text, with multiword groups; returns (tokens, text length)"""
    toks, at = [], rng.choice([0, 0, 0, 1, 3])
    while len(toks) < ntok:
        width = rng.randint(1, 4)
        if rng.random() < mwt:
            for k in range(min(rng.choice([1, 2, 2, 3, 4]), ntok - len(toks))):
                toks.append(tok(at, at + width, k, '' if rng.random() < 0.08 else 'w%d' % k))
        else:
            toks.append(tok(at, at + width))
        at += width + (rng.randint(1, 2) if rng.random() < gap else 0)
    return toks, at


def rand_split(rng, n, parts=None):
    cuts = sorted(rng.sample(range(1, n), min(n - 1, parts if parts is not None else rng.randint(0, max(0, n // 2))))) if n > 1 else []
    b = [0] + cuts + [n]
    return [[b[i], b[i + 1]] for i in range(len(b) - 1)]


def mutate_layout(rng, toks, sents):
    """one structural change, good or bad"""
    toks = [dict(t) for t in toks]
    sents = [list(x) for x in sents]
    kind = rng.choice(['none', 'drop', 'dup', 'shift', 'grow', 'sub', 'rep', 'sdrop', 'sgrow', 'sdup', 'sshift', 'swallow'])
    if kind == 'drop' and len(toks) > 1:
        toks.pop(rng.randrange(len(toks)))
    elif kind == 'dup':
        toks.append(dict(rng.choice(toks)))
    elif kind == 'shift':
        t = rng.choice(toks)
        d = rng.choice([-1, 1])
        if t['s'] + d >= 0:
            t['s'] += d
            t['e'] += d
    elif kind == 'grow':
        t = rng.choice(toks)
        t['e'] += rng.randint(1, 3)
    elif kind == 'sub':
        t = rng.choice(toks)
        if t['rep']:
            t['sub'] = rng.randint(0, 3)
    elif kind == 'rep':
        t = rng.choice(toks)
        if t['sub'] == 0:
            t['rep'] = [] if t['rep'] else [cps('zz')]
    elif kind == 'sdrop' and sents:
        sents.pop(rng.randrange(len(sents)))
    elif kind == 'sgrow' and sents:
        x = rng.choice(sents)
        x[rng.randint(0, 1)] += 1
        if x[0] >= x[1]:
            x[1] = x[0] + 1
    elif kind == 'sdup' and sents:
        sents.append(list(rng.choice(sents)))
    elif kind == 'sshift' and sents:
        x = rng.choice(sents)
        x[0] += 1
        x[1] += 1
    elif kind == 'swallow' and toks:
        a, b = min(t['s'] for t in toks), max(t['e'] for t in toks)
        toks.append(tok(a, b))
    return toks, sents


# ------------------------------------------------------------------ C01
def c01_scenarios(tier, rng, gens):
    for s in range(-2, 4):
        for e in range(-2, 5):
            for sub in (0, 1, 2):
                for rep in (None, 'x', ''):
                    yield {'kind': 'tok', 't': tok(s, e, sub, rep)}
            yield {'kind': 'sent', 'x': [s, e]}
    for g in gens['tokens']:
        yield {'kind': 'build', 'toks': g['toks'], 'sents': g['sents'], 'seed': 0}
    for g in gens['sents']:
        yield {'kind': 'build', 'toks': g['toks'], 'sents': g['sents'], 'seed': 0}
    for k in range(2, 9 if tier == 'quick' else 14):      # long multiword tokens: complete, with a gap, with a word twice, with two words exchanged
        group = [tok(3, 7, j, 'w%d' % j) for j in range(k)]
        for kept in [group] + [group[:m] + group[m + 1:] for m in range(k)] + [group[:m] + group[m + 2:] for m in range(k - 1)] + [group + [dict(group[m])] for m in range(k)] \
                + [group[:m] + [dict(group[m], sub=k + 3)] + group[m + 1:] for m in range(k)]:
            for around in (0, 1, 2):
                ts = ([tok(0, 2)] if around else []) + kept + ([tok(8, 9)] if around == 2 else [])
                if ts:
                    yield {'kind': 'build', 'toks': ts, 'sents': [[[0, len(ts)]]], 'seed': 0}
    for i in range(600 if tier == 'quick' else 20000):
        n = rng.choice([1, 2, 3, 4, 5, 6, 8, 10, 13])
        toks, _ = rand_layout(rng, n)
        sents = rand_split(rng, n)
        for _ in range(rng.choice([0, 0, 1, 1, 2])):
            toks, sents = mutate_layout(rng, toks, sents)
        yield {'kind': 'build', 'toks': toks, 'sents': [sents] if rng.random() < 0.8 else [], 'seed': rng.randrange(10 ** 6)}


def build_outcome(toks, sents, **kw):
    doc, e = attempt(lambda: Document('x' * 64, [mk_token(t) for t in toks], mk_sents(sents), **kw))
    if e is not None:
        return None, {'ok': False, 'exc': exc_name(e)}
    return doc, {'ok': True, 'toks': [[num(t.start), num(t.end), num(t.sub_index), ocps(t.text_replacement)] for t in doc.tokens],
                 'sents': pr_sents(doc)}


def c01_execute(sc):
    if sc['kind'] == 'tok':
        _, e = attempt(lambda: mk_token(sc['t']))
        yield {'k': 'tok', 't': sc['t'], 'ok': e is None}
        return
    if sc['kind'] == 'sent':
        _, e = attempt(lambda: Sentence(*sc['x']))
        yield {'k': 'sent', 'x': sc['x'], 'ok': e is None}
        return
    toks, sents = sc['toks'], sc['sents']
    rng = random.Random(sc['seed'])
    outs = [build_outcome(toks, sents)[1]]
    rev = [list(reversed(sents[0]))] if sents else []
    outs.append(build_outcome(list(reversed(toks)), rev)[1])
    if len(toks) > 2:
        for _ in range(2 if sc['seed'] else 1):
            p, q = list(toks), list(sents[0]) if sents else None
            rng.shuffle(p)
            if q is not None:
                rng.shuffle(q)
            outs.append(build_outcome(p, [q] if q is not None else [])[1])
    uniq = []
    for o in outs:
        if o not in uniq:
            uniq.append(o)
    yield {'k': 'build', 'toks': toks, 'sents': sents, 'outs': uniq}


# ------------------------------------------------------------------ C02
def c02_scenarios(tier, rng, gens):
    for g in gens['heads']:
        yield g
    for i in range(500 if tier == 'quick' else 15000):
        n = rng.choice([1, 2, 3, 5, 8, 12])
        toks, _ = rand_layout(rng, n)
        sents = rand_split(rng, n)
        for a, b in sents:
            for j in range(a, b):
                t = toks[j]
                t['deprel'] = opt(rng.choice([None, 'dep', 'x:y']))
                c = rng.random()
                if c < 0.15:
                    continue
                if c < 0.3:
                    hd = hs = -1
                else:
                    hs = rng.randrange(0, b - a) if rng.random() < 0.95 else rng.randint(-3, n + 2)
                    hd = hs + a
                v = rng.random()
                if v < 0.4:
                    t['hs'] = [hs]
                elif v < 0.8:
                    t['hd'] = [hd]
                else:
                    t['hd'], t['hs'] = [hd], [hs]
                    if rng.random() < 0.05:
                        t['hd'] = [rng.randint(-1, n)]
        order = list(range(n))
        rng.shuffle(order)
        yield {'toks': [toks[k] for k in order], 'sents': [sents]}


def c02_execute(sc):
    doc, e = attempt(lambda: Document('x' * 64, [mk_token(t) for t in sc['toks']], mk_sents(sc['sents'])))
    if e is not None:
        o = {'ok': False, 'exc': exc_name(e)}
    else:
        toks = list(doc.tokens)
        sent = [t for s in doc.sentences for t in s.tokens]
        o = {'ok': True, 'toks': [{'hd': onum(t._head_document_index), 'hs': onum(t._head_sentence_index)} for t in toks],
             'has': [boolean(t.has_head) for t in toks], 'root': [boolean(t.is_root) for t in toks],
             'dview': [onum(t.head_index) for t in toks], 'sview': [onum(t.head_index) for t in sent],
             'deprel': [ost(t.deprel) for t in toks]}
    yield {'k': 'heads', 'toks': sc['toks'], 'sents': sc['sents'], 'o': o}


# ------------------------------------------------------------------ C03
def rand_tree(rng, n):
    """heads of a random tree over 0..n-1, one root"""
    order = list(range(n))
    rng.shuffle(order)
    heads = [None] * n
    heads[order[0]] = -1
    for i in range(1, n):
        heads[order[i]] = order[rng.randrange(i)]
    return heads


def c03_scenarios(tier, rng, gens):
    for g in gens['syntax']:
        for heads in itertools.product(g['vals'], repeat=g['n']):
            yield {'heads': list(heads), 'splits': g['splits']}
    for i in range(400 if tier == 'quick' else 20000):
        n = rng.choice([5, 6, 8, 10, 15, 20])
        split = rand_split(rng, n)
        heads = []
        for a, b in split:
            h = [] if rng.random() < 0.1 else rand_tree(rng, b - a)
            heads += [opt(x) for x in h] if h else [[] for _ in range(a, b)]
        for _ in range(rng.choice([0, 0, 1, 1, 2])):
            k = rng.randrange(n)
            heads[k] = rng.choice([[], [-1], [k], [rng.randrange(n)], [n]])
        yield {'heads': heads, 'splits': [split]}
    for n in ([1200] if tier == 'quick' else [1200, 5000]):
        chain = [[-1]] + [[i] for i in range(n - 1)]
        yield {'heads': chain, 'splits': [[[0, n]]]}
        back = [[i + 1] for i in range(n - 1)] + [[-1]]
        yield {'heads': back, 'splits': [[[0, n]]]}
        loop = [[-1]] + [[i] for i in range(n - 1)]
        loop[5] = [n - 1]
        yield {'heads': loop, 'splits': [[[0, n]]]}


def c03_execute(sc):
    runs = []
    n = len(sc['heads'])
    for sents in sc['splits']:
        _, e = attempt(lambda: Document('x' * (n + 1), [mk_token(tok(i, i + 1, hs=h[0] if h else None)) for i, h in enumerate(sc['heads'])],
                                        [Sentence(a, b) for a, b in sents], validate_syntax=True))
        runs.append({'sents': sents, 'ok': e is None, 'exc': '' if e is None else exc_name(e)})
    yield {'k': 'syntax', 'heads': sc['heads'], 'runs': runs}


SCENARIOS = {'C01': c01_scenarios, 'C02': c02_scenarios, 'C03': c03_scenarios}
EXECUTE = {'C01': c01_execute, 'C02': c02_execute, 'C03': c03_execute}


# ------------------------------------------------------------------ C04, C05: histories over live values
HTEXT = ''.join(chr(96 + i) if i % 2 else ' ' for i in range(1, 13))


# what "~falsy" of the specification stands for in the history at hand
FALSY = [None]


def falsy(v):
    return type(v) is type(FALSY[0]) and v == FALSY[0]


class Box:
    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        return isinstance(o, Box) and self.v == o.v

    def __hash__(self):
        return len(self.v)


# how the lists of the specification are wrapped in the history at hand: extras may be of any kind
WRAP = [lambda v: v]
WRAPS = [lambda v: v, lambda v: v, lambda v: (v,), Box, lambda v: {'k': v}, lambda v: [[v]], lambda v: frozenset([Box(v)])]


def inner(w):
    while not (isinstance(w, list) and (not w or isinstance(w[0], str))):
        w = w.v if isinstance(w, Box) else w['k'] if isinstance(w, dict) else next(iter(w))
    return w


def scramble(w):
    inner(w).append('poked')


def xval(v):
    return FALSY[0] if v == ['~falsy'] else WRAP[0](list(v))


def shown(v):
    try:
        return [st(x) for x in inner(v)] if type(v) is type(WRAP[0]([])) else ['!' + repr(v)]
    except Exception:
        return ['!' + repr(v)]


def xpairs(d):
    return [[st(k), ['~falsy'] if falsy(v) else shown(v)] for k, v in sorted(d.items())]


def fpairs(p):
    f = p.feats
    return [[st(k), st(f[k]) if p.feature(k) == f[k] else '!feature'] for k in sorted(f)]


def hp_pos(p):
    return {'u': ost(p.upos), 'x': ost(p.xpos), 'f': fpairs(p)}


def hp_ext(x):
    d = x.as_dict()
    if sorted(x.keys()) != sorted(d) or sorted(iter(x)) != sorted(d) or not all(k in x and x[k] == d[k] for k in d):
        return [['!inconsistent', ['!']]]
    return xpairs(d)


def hp_tok(t, txt=True):
    return {'s': num(t.start), 'e': num(t.end), 'sub': num(t.sub_index), 'rep': ocps(t.text_replacement),
            'hd': onum(t._head_document_index), 'hs': onum(t._head_sentence_index),
            'pos': [] if t.pos is None else [hp_pos(t.pos)], 'lemma': ost(t.lemma), 'deprel': ost(t.deprel),
            'ex': hp_ext(t.extras), 'txt': [cps(t.text)] if txt and hasattr(t, 'text') else []}


def hp_obj(kind, o):
    if kind == 'pos':
        return {'kind': kind, 'v': hp_pos(o)}
    if kind == 'ext':
        return {'kind': kind, 'v': hp_ext(o)}
    if kind == 'tok':
        return {'kind': kind, 'v': hp_tok(o)}
    return {'kind': 'doc', 'v': {'text': cps(o.text), 'toks': [hp_tok(t, False) for t in o.tokens], 'sents': pr_sents(o)}}


def poke(o):
    """attempts to alter what the accessors hand out"""
    tries = []
    if isinstance(o, Document):
        b = o.sentences_boundaries
        tries = [lambda: b.append(Sentence(0, 1)), lambda: b.__setitem__(0, Sentence(0, 9)), lambda: b.reverse(),
                 lambda: b.clear(), lambda: list(o.tokens).clear(), lambda: list(o.sentences).reverse(),
                 lambda: [t.extras.as_dict().clear() for t in o.tokens], lambda: [t.pos.feats.clear() for t in o.tokens if t.pos]]
    elif isinstance(o, Token):
        tries = [lambda: o.extras.as_dict().update(zz=1), lambda: o.pos.feats.update(zz='1'),
                 lambda: [o.extras[k].append('poked') for k in o.extras.keys()],
                 lambda: o.extras.keys().clear(), lambda: o.extras.keys().append('zz'), lambda: o.extras.keys().add('zz'),
                 lambda: o.extras.keys().__setitem__('zz', ['1']), lambda: [scramble(o.extras[k]) for k in list(o.extras)],
                 lambda: [scramble(v) for v in o.extras.as_dict().values()],
                 lambda: Token.update_extras(o, {'zz': ['1']}), lambda: o.extras.update({'yy': ['2']}),
                 lambda: Token.with_morphology(o), lambda: Token.with_syntax(o)]
    elif isinstance(o, Pos):
        tries = [lambda: o.feats.update(zz='1'), lambda: o.feats.clear()]
    for f in tries:
        attempt(f)


def heap_execute(hist):
    FALSY[0] = [None, '', 0, False, {}, ()][sum(len(op['n']) for op in hist) % 6]
    WRAP[0] = WRAPS[sum(len(op['n']) * (i + 1) for i, op in enumerate(hist)) % len(WRAPS)]
    objs, cells = [], []
    opt1 = lambda o: o[0] if o else None
    O = lambda i: None if i == 0 else objs[i - 1][1]
    C = lambda i: None if i == 0 else cells[i - 1][1]

    def toks(c):
        return [objs[i - 1][1] for i in c]

    def step(op):
        n = op['n']
        new, cell = None, None
        if n in ('NewF', 'NewX'):
            cell = (n[-1], {k: (xval(v) if isinstance(v, list) else v) for k, v in op['d']})
        elif n == 'SetF':
            C(op['c'])[op['key']] = op['v']
        elif n == 'DelF':
            C(op['c']).pop(op['key'], None)
        elif n == 'SetX':
            C(op['c'])[op['key']] = xval([op['v']])
        elif n == 'DelX':
            C(op['c']).pop(op['key'], None)
        elif n == 'PushX':
            if op['key'] in C(op['c']) and not falsy(C(op['c'])[op['key']]):
                inner(C(op['c'])[op['key']]).append(op['v'])
        elif n == 'MkPos':
            new = ('pos', Pos(opt1(op['u']), opt1(op['x']), C(op['c'])))
        elif n == 'ReadF':
            cell = ('F', O(op['o']).feats)
        elif n == 'MkExt':
            new = ('ext', TokenExtras(C(op['c'])))
        elif n == 'ReadX':
            cell = ('X', O(op['o']).as_dict())
        elif n == 'ReadItem':
            cell = ('X', {op['key']: O(op['o'])[op['key']]} if op['key'] in O(op['o']) else {})
        elif n == 'UpdExt':
            new = ('ext', O(op['o']).update(C(op['c'])))
        elif n == 'MkTok':
            new = ('tok', Token(2 * op['slot'], 2 * op['slot'] + 1, O(op['p']), opt1(op['lemma']), extras=O(op['x']),
                                sub_index=1 if op['mw'] == 2 else 0, text_replacement='w%d' % op['mw'] if op['mw'] else None))
        elif n == 'WithM':
            t = O(op['o'])
            new = ('tok', t.with_morphology(t, O(op['p']), opt1(op['lemma'])))
        elif n == 'WithS':
            t = O(op['o'])
            new = ('tok', t.with_syntax(t, opt1(op['deprel']), head_document_index=opt1(op['hd']), head_sentence_index=opt1(op['hs'])))
        elif n == 'WithX':
            t = O(op['o'])
            new = ('tok', t.with_extras(t, O(op['x'])))
        elif n == 'UpdX':
            t = O(op['o'])
            new = ('tok', t.update_extras(t, C(op['c'])))
        elif n == 'NewL':
            cell = ('L', list(op['l']))
        elif n == 'PushL':
            C(op['c']).append(op['o'])
        elif n == 'PopL':
            if C(op['c']):
                C(op['c']).pop()
        elif n == 'RevL':
            C(op['c']).reverse()
        elif n == 'MkDoc':
            lst = toks(C(op['c']))
            m = len(lst)
            cut = op['cut'] if m > 1 and 0 < op['cut'] < m else 0
            sents = [Sentence(0, cut), Sentence(cut, m)] if cut else [Sentence(0, m)] if m else []
            d, e = attempt(lambda: Document(HTEXT, lst, sents))
            lst.reverse()
            lst[1:] = []
            sents.reverse()
            sents[:-1] = []
            new = None if e is not None else ('doc', d)
        elif n == 'ReAnn':
            lst = toks(C(op['c']))
            d, e = attempt(lambda: Document.from_document(O(op['o']), lst))
            lst.clear()
            new = None if e is not None else ('doc', d)
        elif n == 'DocTok':
            d = O(op['o'])
            if op['i'] <= d.tokens_count:
                new = ('tok', d.get_token(op['i'] - 1))
        elif n == 'Poke':
            poke(O(op['o']))
        if new is not None:
            objs.append(new)
        if cell is not None:
            cells.append(cell)

    for op in hist:
        # list cells hold object numbers; their tokens are resolved at use
        if 'o' in op and op['o'] > len(objs) or any(op.get(k, 0) > len(objs) for k in ('p', 'x') if isinstance(op.get(k), int)):
            return      # an earlier deviation (already reported) left the history without this object
        if op['n'] == 'NewL' and any(i > len(objs) for i in op['l']):
            return
        kind = {'WithM': 'tok', 'WithS': 'tok', 'WithX': 'tok', 'UpdX': 'tok', 'ReadF': 'pos', 'ReadX': 'ext', 'ReadItem': 'ext', 'UpdExt': 'ext',
                'ReAnn': 'doc', 'DocTok': 'doc', 'PushL': 'tok'}.get(op['n'])
        if kind and objs[op['o'] - 1][0] != kind:
            return
        _, e = attempt(lambda: step(op))
        yield {'k': 'op', 'op': op, 'exc': '' if e is None else exc_name(e),
               'objs': [hp_obj(*o) for o in objs], 'cells': [{'kind': c[0], 'v': c[1] if c[0] == 'L' else xpairs(c[1]) if c[0] == 'X' else pairs(c[1])} for c in cells]}
        if e is not None:
            return


def heap_scenarios(tier, rng, gens):
    for name in ('heap', 'rich', 'derive'):
        for h in gens[name]:
            yield h


SCENARIOS.update(C04=heap_scenarios, C05=heap_scenarios)
EXECUTE.update(C04=heap_execute, C05=heap_execute)


# ------------------------------------------------------------------ C06: navigation and text
BLANKS = [' ', ' ', ' ', '\n', '\t', '\u00a0', '\u3000', '\u2028', '\x85', '\x0b', '\x1c', '\u200b', '-', '\u2009', '\ufeff', '.']
LETTERS = 'abcdefgXYZ\u0416\u0451\u00df\u0130\u4e2d_0\U0001f600'


def rand_text_doc(rng, n, heads=0.6):
    """(text, tokens, sentences) of a well-formed document"""
    toks, _ = rand_layout(rng, n, gap=0.6)
    end = max(t['e'] for t in toks) if toks else rng.randint(0, 3)
    total = end + rng.choice([0, 0, 0, 1, 2])
    text = [rng.choice(BLANKS) for _ in range(total)]
    for t in toks:
        for k in range(t['s'], t['e']):
            text[k] = rng.choice(LETTERS)
        if rng.random() < 0.15 and t['e'] - t['s'] >= 3:
            text[t['s'] + 1] = rng.choice(BLANKS)
        if rng.random() < 0.12:      # words that begin or end with white space
            text[rng.choice([t['s'], t['e'] - 1])] = rng.choice(BLANKS)
    sents = rand_split(rng, n) if n else []
    for a, b in sents:
        if rng.random() < heads:
            tree = rand_tree(rng, b - a)
            view = rng.choice(['hs', 'hd', 'both'])
            for j in range(a, b):
                h = tree[j - a]
                if view != 'hd':
                    toks[j]['hs'] = [h]
                if view != 'hs':
                    toks[j]['hd'] = [h if h == -1 else h + a]
        for j in range(a, b):
            t = toks[j]
            t['lemma'] = opt(rng.choice([None, 'l', 'lem', '_', '']))
            t['deprel'] = opt(rng.choice([None, 'dep', 'root']))
            if rng.random() < 0.6:
                t['pos'] = [{'u': opt(rng.choice(['N', 'V', None])), 'x': opt(rng.choice(['x', None])),
                             'f': sorted(rng.choice([[], [['a', '1']], [['b', '2'], ['a', '1']]]))}]
            if rng.random() < 0.3:
                t['ex'] = sorted(rng.choice([[['MISC', 'm']], [['x', 'y'], ['z', 'w']]]))
    return ''.join(text), toks, sents


def pr_doc(doc):
    return {'text': cps(doc.text), 'toks': [pr_tok(t) for t in doc.tokens], 'sents': pr_sents(doc)}


def c06_scenarios(tier, rng, gens):
    for i in range(500 if tier == 'quick' else 8000):
        n = rng.choice([0, 1, 1, 2, 3, 4, 5, 7, 9])
        text, toks, sents = rand_text_doc(rng, n)
        yield {'text': text, 'toks': toks, 'sents': sents}


def key(t):
    return [num(t.start), num(t.end), num(t.sub_index)]


def okey(t):
    return [] if t is None else [key(t)]


def word_obs(c, i, get):
    t, e = attempt(lambda: get(i))
    if e is not None:
        return {'c': c, 'i': i, 'ok': False, 'exc': exc_name(e)}
    return {'c': c, 'i': i, 'ok': True, 'key': key(t), 'first': boolean(t.is_first), 'last': boolean(t.is_last), 'next': okey(t.next),
            'prev': okey(t.previous), 'text': cps(t.text), 'dtext': cps(t.doc_text), 'space': boolean(t.space_after),
            'hidx': onum(t.head_index), 'head': okey(t.head)}


def sent_keys(s):
    return [key(t) for t in s.tokens]


def sent_obs(i, get):
    s, e = attempt(lambda: get(i))
    if e is not None:
        return {'i': i, 'ok': False, 'exc': exc_name(e)}
    nx, pv = s.next, s.previous
    return {'i': i, 'ok': True, 'toks': sent_keys(s), 'text': cps(s.text), 'first': boolean(s.is_first), 'last': boolean(s.is_last),
            'next': [] if nx is None else [sent_keys(nx)], 'prev': [] if pv is None else [sent_keys(pv)]}


def c06_execute(sc):
    toks = [mk_token(t) for t in sc['toks']]
    sents = [Sentence(a, b) for a, b in sc['sents']]
    doc = Document(sc['text'], list(reversed(toks)), list(reversed(sents)))
    model = {'text': cps(sc['text']), 'toks': sc['toks'], 'sents': sc['sents']}
    n, m = len(toks), len(sents)
    words, ss = [], []
    for i in range(-n - 2, n + 2):
        words.append(word_obs(0, i, doc.get_token))
        words.append(word_obs(0, i, doc.__getitem__))
    for j in range(m):
        s = doc.get_sentence(j)
        k = sc['sents'][j][1] - sc['sents'][j][0]
        for i in range(-k - 2, k + 2):
            words.append(word_obs(j + 1, i, s.get_token))
    for i in range(-m - 2, m + 2):
        ss.append(sent_obs(i, doc.get_sentence))
    yield {'k': 'nav', 'doc': model, 'spaces': sorted({ord(c) for c in sc['text'] if c.isspace()}), 'words': words, 'ss': ss,
           'counts': [num(doc.tokens_count), num(doc.sentences_count)], 'scounts': [num(s.tokens_count) for s in doc.sentences],
           'iter': [key(t) for t in doc.tokens], 'siter': [sent_keys(s) for s in doc.sentences]}


# ------------------------------------------------------------------ C07: re-annotation
def c07_scenarios(tier, rng, gens):
    for i in range(700 if tier == 'quick' else 12000):
        n = rng.choice([0, 1, 1, 2, 3, 4, 6, 9])
        text, toks, sents = rand_text_doc(rng, n)
        new = []
        for t in toks:
            u = dict(t)
            c = rng.random()
            if c < 0.5:
                u['lemma'] = opt(rng.choice([None, 'new', 'q']))
                u['pos'] = [{'u': ['X'], 'x': [], 'f': []}]
            if c < 0.2:
                u['hd'], u['hs'], u['deprel'] = [], [], []
            if rng.random() < 0.06:      # heads that may contradict each other or the sentence
                u['hd'], u['hs'] = opt(rng.choice([None, -1, 0, 1, 2, 5])), opt(rng.choice([None, -1, 0, 1, 2]))
            if u['rep'] and rng.random() < 0.3:
                u['rep'] = [cps('other')]
            new.append(u)
        kind = rng.choice(['same'] * 4 + ['drop', 'droplast', 'dup', 'shift', 'shrink', 'grow', 'empty', 'mwt', 'extra', 'swapspan'])
        if new:
            k = rng.randrange(len(new))
            if kind == 'drop':
                new.pop(k)
            elif kind == 'droplast':
                new.pop()
            elif kind == 'dup':
                new.append(dict(new[k]))
            elif kind == 'shift':
                new[k]['s'] += 1
                new[k]['e'] += 1
            elif kind == 'shrink' and new[k]['e'] - new[k]['s'] > 1:
                new[k]['e'] -= 1
            elif kind == 'grow':
                new[k]['e'] += 1
            elif kind == 'empty':
                new = []
            elif kind == 'mwt':
                if not new[k]['rep']:
                    new[k]['rep'] = [cps('mw')]
                    new.append(dict(new[k], sub=1, rep=[cps('mw2')]))
            elif kind == 'swapspan' and len(new) > 1:
                new[-1]['s'] += 1
                new[-1]['e'] += 2
        if kind == 'extra':
            e = max([t['e'] for t in new], default=0)
            new.append(tok(e, e + 1))
        rng.shuffle(new)
        yield {'text': text, 'toks': toks, 'sents': sents, 'new': new, 'nav': rng.random() < 0.5}


def c07_execute(sc):
    doc = Document(sc['text'], [mk_token(t) for t in sc['toks']], [Sentence(a, b) for a, b in sc['sents']])
    before = pr_doc(doc)
    new = [mk_token(t) for t in sc['new']]
    if sc['nav'] and len(new) == doc.tokens_count and sorted([[t['s'], t['e'], t['sub']] for t in sc['new']]) == [[t.start, t.end, t.sub_index] for t in doc.tokens]:
        # tokens derived from the document's own tokens, as the taggers do
        by = {(t['s'], t['e'], t['sub']): t for t in sc['new']}
        new = []
        for t in doc.tokens:
            u = by[(t.start, t.end, t.sub_index)]
            new.append(t.with_morphology(t, mk_pos(u['pos']), u['lemma'][0] if u['lemma'] else None))
    given = [pr_tok(t) for t in new]
    out, e = attempt(lambda: Document.from_document(doc, new))
    o = {'ok': False, 'exc': exc_name(e)} if e is not None else {'ok': True, 'doc': pr_doc(out)}
    yield {'k': 're', 'doc': before, 'toks': given, 'after': pr_doc(doc), 'o': o}


# ------------------------------------------------------------------ C08: equality, hashing, order
def matrix(vals, f):
    def one(a, b):
        r, e = attempt(lambda: f(a, b))
        if e is not None:
            raise e
        return bool(r)
    return [[one(a, b) for b in vals] for a in vals]


def c08_scenarios(tier, rng, gens):
    for i in range(6 if tier == 'quick' else 40):
        yield {'kind': 'pos', 'seed': rng.randrange(10 ** 6), 'n': 40}
    for i in range(12 if tier == 'quick' else 100):
        yield {'kind': 'tok', 'seed': rng.randrange(10 ** 6), 'n': 30}
    for i in range(8 if tier == 'quick' else 60):
        yield {'kind': 'doc', 'seed': rng.randrange(10 ** 6), 'n': 16}
    for i in range(4):
        yield {'kind': 'ext', 'seed': rng.randrange(10 ** 6), 'n': 14}
        yield {'kind': 'sent', 'seed': rng.randrange(10 ** 6), 'n': 14}


def c08_execute(sc):
    import operator
    rng = random.Random(sc['seed'])
    kind = sc['kind']
    ov = lambda *xs: opt(rng.choice(xs))
    lt = le = gt = ge = hsh = []
    if kind == 'pos':
        vals = [{'u': ov(None, 'A', 'B', ''), 'x': ov(None, '', 'A', 'C'),
                 'f': sorted(rng.choice([[], [['a', '1']], [['a', '2']], [['a', '']], [['b', '1']], [['b', '1'], ['a', '1']], [['a', '1'], ['b', '2']], [['a', '1'], ['b', '']]]))}
                for _ in range(sc['n'])]
        objs = [Pos(v['u'][0] if v['u'] else None, v['x'][0] if v['x'] else None,
                    dict(rng.sample(v['f'], len(v['f']))) if v['f'] or rng.random() < 0.5 else None) for v in vals]
        lt, le, gt, ge = (matrix(objs, f) for f in (operator.lt, operator.le, operator.gt, operator.ge))
        hs = [hash(o) for o in objs]
        hsh = [hs.index(h) for h in hs]
    elif kind == 'tok':
        base = tok(1, 3, lemma=['l'], pos=[{'u': ['A'], 'x': [], 'f': [['a', '1']]}], hd=2, deprel=['d'])
        vals = []
        for _ in range(sc['n']):
            v = dict(base)
            for fld in rng.sample(['s', 'e', 'rep', 'hd', 'hs', 'pos', 'lemma', 'deprel', 'ex'], rng.choice([0, 1, 1, 1, 2, 3])):
                v[fld] = {'s': lambda: rng.choice([0, 1]), 'e': lambda: rng.choice([3, 4]), 'rep': lambda: rng.choice([[], [cps('x')], [cps('y')], [cps('')]]),
                          'hd': lambda: ov(None, 2, 3, -1), 'hs': lambda: ov(None, 1, 2, -1), 'lemma': lambda: ov(None, 'l', 'm', ''),
                          'pos': lambda: rng.choice([[], [{'u': ['A'], 'x': [], 'f': []}], [{'u': ['B'], 'x': [], 'f': [['a', '1']]}], [{'u': [], 'x': [], 'f': []}]]),
                          'deprel': lambda: ov(None, 'd', 'e', ''), 'ex': lambda: rng.choice([[], [['k', 'v']], [['k', 'w']], [['k', '']]])}[fld]()
            if v['rep'] and rng.random() < 0.3:
                v['sub'] = 1
            vals.append(v)
        objs = [mk_token(v) for v in vals]
    elif kind == 'doc':
        r2 = random.Random(sc['seed'] + 1)
        text, toks, sents = rand_text_doc(r2, rng.choice([2, 3, 4]))
        vals, objs = [], []
        for _ in range(sc['n']):
            ts = [dict(t) for t in toks]
            tx, ss = text, sents
            for _ in range(rng.choice([0, 0, 1, 1, 2])):
                c = rng.choice(['text', 'sents', 'lemma', 'head', 'ex'])
                if c == 'text':
                    tx = tx + rng.choice(['', ' ', 'x'])
                elif c == 'sents':
                    ss = rng.choice([[[0, len(ts)]], [[0, 1], [1, len(ts)]]])
                    for t in ts:
                        t['hd'], t['hs'] = [], []
                elif c == 'lemma':
                    rng.choice(ts)['lemma'] = ov('p', 'q')
                elif c == 'head':
                    for t in ts:
                        t['hd'], t['hs'] = [], []
                    rng.choice(ts)['hs'] = ov(0, 1, -1)
                else:
                    rng.choice(ts)['ex'] = rng.choice([[], [['k', 'v']]])
            d = Document(tx, [mk_token(t) for t in ts], [Sentence(a, b) for a, b in ss])
            objs.append(d)
            vals.append(pr_doc(d))
    elif kind == 'ext':
        vals = [sorted(rng.choice([[], [['k', 'v']], [['k', 'w']], [['k', '']], [['j', 'v'], ['k', 'v']], [['j', ''], ['k', 'v']]])) for _ in range(sc['n'])]
        objs = [TokenExtras(dict(rng.sample(v, len(v)))) for v in vals]
    else:
        vals = [rng.choice([[0, 1], [0, 2], [1, 2], [1, 3]]) for _ in range(sc['n'])]
        objs = [Sentence(*v) for v in vals]
    foreign = []
    for x in (None, 1, 'A', (), {}, object(), [1]):
        for o in (objs[0], objs[-1]):
            foreign += [bool(o == x), bool(x == o), not bool(o != x)]
    yield {'k': 'cmp', 'kind': kind, 'vals': vals, 'eq': matrix(objs, operator.eq), 'ne': matrix(objs, operator.ne),
           'lt': lt, 'le': le, 'gt': gt, 'ge': ge, 'hash': hsh, 'foreign': foreign}


SCENARIOS.update(C06=c06_scenarios, C07=c07_scenarios, C08=c08_scenarios)
EXECUTE.update(C06=c06_execute, C07=c07_execute, C08=c08_execute)
