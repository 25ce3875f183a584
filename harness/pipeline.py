"""Driver for pipelines (C29), the UDPipe bridge (C30) and the baselines (C31)."""
import random
import types
import zlib

from babylondigger.datamodel import Document, Token
from babylondigger.parser import ParserInterface, StubParser
from babylondigger.processor import DocumentComplexProcessor, DocumentProcessorInteface
from babylondigger.tagger import StubTagger, StubTaggerTrainer, TaggerInterface

from common import attempt, cps, exc_name, num, ocps, onum, ost
from dm import mk_pos, mk_sents, mk_token, pr_pos, pr_sents, rand_layout, rand_split
from features import rand_pos

ALPHA = 'abcAB1-\u00e9\u0456\U00010400' * 2 + ' \u00a0'


def rand_doc(rng, ntok, annotated=True):
    toks, length = rand_layout(rng, ntok)
    text = ''.join(rng.choice(ALPHA) for _ in range(length))
    covered = set(i for t in toks for i in range(t['s'], t['e']))
    text = ''.join(c if i in covered else ' ' for i, c in enumerate(text))
    sents = rand_split(rng, len(toks)) if toks else []
    for a, b in sents:
        heads = rng.random() < 0.6
        for i in range(a, b):
            t = toks[i]
            if annotated:
                t['pos'] = rng.choice([[], [rand_pos(rng, True)], [rand_pos(rng, False)]])
                t['lemma'] = rng.choice([[], ['lem'], ['\u00e9 x'], [''], ['_'], [' l ']])
                t['deprel'] = rng.choice([[], ['nsubj']])
                t['ex'] = rng.choice([[], [['k', 'v']]])
                if heads:
                    t['hs'] = [rng.choice([-1] + list(range(b - a)))]
    return {'text': text, 'toks': toks, 'sents': sents}


def long_doc(rng, ntok):
    """one sentence of many words, and a short one after it"""
    d = rand_doc(rng, ntok + 2)
    d['sents'] = [[0, ntok], [ntok, ntok + 2]]
    for i, t in enumerate(d['toks']):
        t['hs'] = []
    return d


def mk(d):
    return Document(d['text'], [mk_token(t) for t in d['toks']], mk_sents([d['sents']]) if d['sents'] else None)


def view(doc):
    toks, an = [], []
    for s in doc.sentences:
        for t in s:
            toks.append({'s': num(t.start), 'e': num(t.end), 'sub': num(t.sub_index), 'rep': ocps(t.text_replacement), 'ex': [[k, str(t.extras[k])] for k in sorted(t.extras.keys())]})
            an.append({'form': cps(t.text), 'pos': pr_pos(t.pos), 'lemma': ocps(t.lemma), 'deprel': ost(t.deprel), 'hs': onum(t.head_index)})
    return {'text': cps(doc.text), 'sents': pr_sents(doc), 'toks': toks, 'an': an}


# ------------------------------------------------------------------ C29
class Stage(DocumentProcessorInteface):
    """map: mark, drop: every second one, dup: twice, pair: holds back every first of two, all: everything at the end"""
    def __init__(self, k, kind, log, alike):
        self.k, self.kind, self.log, self.alike = k, kind, log, alike
        self.fail, self.entered, self.says = (-1, None), 0, None

    # processors that compare equal are different processors all the same
    def __eq__(self, other):
        return self is other or (self.alike and isinstance(other, Stage))

    def __hash__(self):
        return 7 if self.alike else id(self)

    def process(self, documents):
        held = []
        for i, d in enumerate(documents):
            if self.kind == 'map':
                yield d + [self.k]
            elif self.kind == 'drop':
                if i % 2:
                    yield d
            elif self.kind == 'dup':
                yield d
                yield d + [self.k]
            elif self.kind == 'pair':
                held.append(d)
                if len(held) == 2:
                    yield held[0]
                    yield held[1]
                    held = []
            else:
                held.append(d)
        for d in held:
            yield d

    def __enter__(self):
        self.entered += 1
        if self.entered == self.fail[0]:
            raise self.fail[1]('enter')
        self.log.append({'t': 'enter', 'i': self.k, 'exc': ''})
        return self

    def __exit__(self, t, e, tb):
        self.log.append({'t': 'exit', 'i': self.k, 'exc': t.__name__ if t else ''})
        return self.says


class Tagging(Stage, TaggerInterface):
    """the same stage behind the tagger interface"""
    def tag(self, documents):
        return Stage.process(self, documents)

    process = TaggerInterface.process


class Parsing(Stage, ParserInterface):
    def parse(self, documents):
        return Stage.process(self, documents)

    process = ParserInterface.process


BODY = {e.__name__: e for e in (OverflowError, GeneratorExit, KeyboardInterrupt, StopIteration, SystemExit)}
FAILURES = {e.__name__: e for e in (KeyError, KeyboardInterrupt, GeneratorExit, SystemExit)}
KINDS = {'stage': Stage, 'tagger': Tagging, 'parser': Parsing}


def c29_scenarios(tier, rng, gens):
    base = {'take': -1, 'fail': -1, 'failure': 'KeyError', 'body': '', 'nest': 0, 'via': 'stage', 'src': -1, 'again': False, 'alike': False, 'says': False}
    for g in gens['chains']:
        yield dict(base, stages=g[0], n=g[1], again=rng.random() < 0.2)
    for _ in range(400 if tier == 'quick' else 6000):
        stages = []
        for k in range(rng.randint(0, 5)):
            stages.append(rng.choice(stages) if stages and rng.random() < 0.15 else [rng.choice(['map', 'drop', 'dup', 'pair', 'all']), k])
        n = rng.randint(0, 7)
        sc = dict(base, stages=stages, n=n, take=rng.choice([-1, -1, 0, 1, 2]), fail=rng.choice([-1, -1, -1] + list(range(len(stages)))), failure=rng.choice(sorted(FAILURES)), body=rng.choice([''] * 5 + sorted(BODY)),
                  nest=rng.randint(0, len(stages)), via=rng.choice(['stage', 'tagger', 'parser']), again=rng.random() < 0.2, alike=rng.random() < 0.2, says=rng.random() < 0.2)
        if rng.random() < 0.15:
            sc.update(src=rng.randint(0, n), take=-1)
        yield sc
    for k in (7, 9, 12, 17) * (2 if tier == 'quick' else 20):        # long chains
        kinds = ['map'] * k
        for i in rng.sample(range(k), 2):
            kinds[i] = rng.choice(['drop', 'dup', 'pair', 'all'])
        yield dict(base, stages=[[t, i] for i, t in enumerate(kinds)], n=rng.randint(1, 4), take=rng.choice([-1, -1, 1]), fail=rng.choice([-1, -1, k - 1]), nest=rng.choice([0, k - 2]), via=rng.choice(['stage', 'tagger', 'parser']))


def c29_execute(sc):
    log, out = [], []
    cls = KINDS[sc['via']]
    made = {}
    stages = [made.setdefault(k, cls(k, kind, log, sc['alike'])) for kind, k in sc['stages']]
    if sc['fail'] >= 0:
        k = sc['stages'][sc['fail']][1]
        made[k].fail = (sum(1 for _, x in sc['stages'][:sc['fail'] + 1] if x == k), FAILURES[sc['failure']])
    if sc['says']:
        for k in made:
            made[k].says = True          # says that the failure is dealt with
    n = sc['nest']
    # a pipeline may hold pipelines
    whole = DocumentComplexProcessor([DocumentComplexProcessor(stages[:n])] + stages[n:]) if n else DocumentComplexProcessor(stages)

    def feed():
        for i in range(sc['n']):
            if i == sc['src']:
                break
            log.append({'t': 'pull', 'i': i, 'exc': ''})
            yield [100 + i]
        if sc['src'] >= 0:
            raise LookupError('source')

    def go():
        with whole as entered:
            log.append({'t': 'body', 'i': int(entered is whole), 'exc': ''})
            if sc['take'] == 0:
                return
            for d in whole.process(feed()):
                log.append({'t': 'out', 'i': len(out), 'exc': ''})
                out.append(d)
                if len(out) == sc['take']:
                    break
            if sc['body']:
                raise BODY[sc['body']]()
    for again in range(2 if sc['again'] else 1):
        del log[:], out[:]
        e = None
        try:
            go()
        except BaseException as x:
            e = x
        yield {'k': 'chain', 'stages': sc['stages'], 'n': sc['n'], 'take': sc['take'], 'fail': -1 if again else sc['fail'], 'failure': sc['failure'], 'body': sc['body'], 'src': sc['src'], 'log': list(log),
               'out': list(out), 'exc': type(e).__name__ if e else ''}


# ------------------------------------------------------------------ C30
class FakeModel(object):
    """what UDPipe would say is chosen from the words it is given"""
    def __init__(self, log, script):
        self.log, self.script = log, script

    def look(self, s):
        return [{'form': cps(w.form), 'lemma': cps(w.lemma), 'u': w.upostag, 'x': w.xpostag, 'f': sorted(x.split('=', 1) for x in w.feats.split('|')) if w.feats else [], 'head': w.head, 'deprel': w.deprel}
                for w in list(s.words)[1:]]

    def act(self, op, s, options):
        before = self.look(s)
        rng = random.Random('%s %s %s' % (self.script['seed'], op, zlib.crc32(repr([w['form'] for w in before]).encode())))
        fixed, heads = self.script.get('heads'), []
        for i in range(len(before)):
            w = s.words[i + 1]          # iterating would give copies
            if op == 'tag':
                w.upostag, w.xpostag = rng.choice(['', 'N', 'V', '_']), rng.choice(['', 'x', '_'])
                w.feats = rng.choice(['', 'A=p', 'A=p|B=q', 'Case[x]=Nom,Acc'])
                w.lemma = rng.choice(['', 'l', '\u00e9 x', '_', ' l'])
            else:
                h = fixed[i] if fixed and len(fixed) == len(before) else rng.choice([-1, 0] + list(range(len(before) + 1)))
                w.head = h
                heads.append(h)
                w.deprel = rng.choice(['', 'nsubj', '_', 'acl:relcl'])
        after = self.look(s)
        assert all(a['head'] == h for a, h in zip(after, heads))
        self.log.append({'op': op, 'opts': options, 'before': before, 'after': after})
        return True

    def tag(self, s, options):
        return self.act('tag', s, options)

    def parse(self, s, options):
        return self.act('parse', s, options)


def c30_scenarios(tier, rng, gens):
    for g in gens['heads']:
        d = rand_doc(rng, len(g))
        d['sents'] = [[0, len(g)]] if g else []
        for t in d['toks']:
            t['hs'] = []
        yield {'cls': ['parser', 'both'][len(g) % 2], 'docs': [d], 'script': {'seed': rng.randrange(10 ** 6), 'heads': g}, 'opts': ''}
    for n in (105, 140) if tier == 'quick' else (105, 140, 260, 300):
        yield {'cls': rng.choice(['parser', 'both']), 'docs': [long_doc(rng, n), rand_doc(rng, 3)], 'script': {'seed': rng.randrange(10 ** 6), 'heads': [rng.choice([-1, 0, n, n - 1, rng.randint(1, n)]) for _ in range(n)]}, 'opts': 'beam_size=5'}
    for _ in range(200 if tier == 'quick' else 5000):
        yield {'cls': rng.choice(['tagger', 'parser', 'both']), 'docs': [rand_doc(rng, rng.randint(0, 8)) for _ in range(rng.randint(0, 3))], 'script': {'seed': rng.randrange(10 ** 6)}, 'opts': rng.choice(['', 'beam_size=5']),
               'via': rng.choice(['init', 'load'])}


def c30_execute(sc):
    from unittest import mock
    from babylondigger.wrappers import udpipe1_2 as W
    cls = {'tagger': W.UDPipeTagger, 'parser': W.UDPipeParser, 'both': W.UDPipeTaggerParser}[sc['cls']]
    log, flow = [], []
    model = FakeModel(log, sc['script'])
    docs = [mk(d) for d in sc['docs']]
    if sc.get('via') == 'load':
        loader = types.SimpleNamespace(load=lambda path: model if path == '/m' else None)
        with mock.patch('ufal.udpipe.Model', loader), mock.patch.object(W, 'Model', loader, create=True):
            p = cls.load_udpipe('/m', sc['opts'])
    else:
        p = cls(model, sc['opts'])

    def feed():
        for i, d in enumerate(docs):
            flow.append(['pull', i])
            yield d
    call = {'tagger': ['process', 'tag'], 'parser': ['process', 'parse'], 'both': ['process', 'parse']}[sc['cls']][sc['script']['seed'] % 2]
    outs = []

    def go():
        for d in getattr(p, call)(feed()):
            flow.append(['out', len(outs)])
            outs.append(view(d))
    _, e = attempt(go)
    yield {'k': 'ud', 'cls': sc['cls'], 'opts': sc['opts'], 'docs': [view(d) for d in docs], 'log': log, 'out': outs, 'flow': flow, 'exc': exc_name(e) if e else ''}


# ------------------------------------------------------------------ C31
def c31_scenarios(tier, rng, gens):
    for op in ('tag', 'parse', 'train'):
        yield {'op': op, 'docs': [long_doc(rng, 130), rand_doc(rng, 2)], 'pos': [rand_pos(rng, True)], 'deprel': 'dep'}
    for _ in range(250 if tier == 'quick' else 5000):
        yield {'op': rng.choice(['tag', 'parse', 'train']), 'docs': [rand_doc(rng, rng.choice([0, 1, 2, 3, 5, 8])) for _ in range(rng.randint(1, 3))], 'pos': rng.choice([[], [rand_pos(rng, True)]]),
               'deprel': rng.choice([None, 'dep'])}


def c31_execute(sc):
    docs = [mk(d) for d in sc['docs']]
    base = {'docs': [view(d) for d in docs], 'pos': sc['pos'], 'deprel': ost(sc['deprel']), 'flow': []}
    if sc['op'] == 'train':
        if not any(d['toks'] for d in sc['docs']):
            return
        taggers = list(StubTaggerTrainer().train(docs))
        for t in taggers:
            yield dict(base, k='trained', n=len(taggers), out=[view(d) for d in t.process(iter(docs))])
        return
    p = StubTagger(mk_pos(sc['pos'])) if sc['op'] == 'tag' else StubParser(sc['deprel'])
    flow, outs = [], []

    def feed():
        for i, d in enumerate(docs):
            flow.append(['pull', i])
            yield d
    with p as entered:                     # like every processor
        for d in entered.process(feed()):
            flow.append(['out', len(outs)])
            outs.append(view(d))
    yield dict(base, k=sc['op'], out=outs, flow=flow)


SCENARIOS = {'C29': c29_scenarios, 'C30': c30_scenarios, 'C31': c31_scenarios}
EXECUTE = {'C29': c29_execute, 'C30': c30_execute, 'C31': c31_execute}
