"""Driver for whole experiments on the real TensorFlow (C39): the evaluation script with method neural, the same
experiment in another process, and the method neural_pretrained on the models that were left."""
import contextlib
import io
import json
import os
import random
import runpy
import subprocess
import sys
import tempfile
import warnings
from unittest import mock

import tfreal

tf = tfreal.install()

from babylondigger.datamodel import Document, Token  # noqa: E402
import babylondigger.evaluation.evaluation  # noqa: E402,F401
from babylondigger.evaluation.conllu_io import CoNLLUWriter  # noqa: E402
from babylondigger.evaluation.dataset import CoNLLUDataSet  # noqa: E402
from babylondigger.neural.tagger.neural_tagger import NeuralTagger  # noqa: E402

from common import cps, exc_name, tables  # noqa: E402
from features import train_morfessor  # noqa: E402

SCENARIO_SECONDS = 280
LETTERS = 'abcdeA\u00e9-'


# ------------------------------------------------------------------ data
def word_of(rng):
    return ''.join(rng.choice(LETTERS) for _ in range(rng.randint(1, 4)))


def entry(rng, w):
    """lemma and tags that follow from the word, mostly"""
    last = w[-1]
    lemma = w[:-1] + {'a': 'o', 'b': '', 'c': 'c'}.get(last, 'x') if len(w) > 1 else w
    feats = {'a': 'Case=Nom|Number=Sing', 'b': 'Case=Gen', 'c': '_', 'd': 'Number=Plur'}.get(last, 'Gender=Fem')
    upos = 'NOUN' if last in 'ab' else 'VERB'
    if rng.random() < 0.15:
        upos, feats = rng.choice(['NOUN', 'VERB', 'X']), '_'
    return [w, lemma, upos, rng.choice(['n', 'v']) if rng.random() < 0.2 else upos[0].lower(), feats, rng.random() < 0.8]


def bank(rng, words, sentences, fresh):
    out = []
    for _ in range(sentences):
        out.append([entry(rng, word_of(rng) if rng.random() < fresh else rng.choice(words)) for _ in range(rng.randint(1, 5))])
    return out


def render(b, rng):
    """with comments, empty nodes and multiword tokens now and then"""
    out = []
    for s in b:
        if rng.random() < 0.3:
            out.append('# text = ' + ' '.join(w[0] for w in s))
        i, upto = 0, 0
        while i < len(s):
            w, lemma, u, x, f, sp = s[i]
            if i >= upto and i + 1 < len(s) and rng.random() < 0.12:
                upto = i + 2
                out.append('\t'.join(['%d-%d' % (i + 1, upto), w + s[i + 1][0][:2], '_', '_', '_', '_', '_', '_', '_', '_' if sp else 'SpaceAfter=No']))
            misc = '_' if sp or i < upto else 'SpaceAfter=No'
            out.append('\t'.join([str(i + 1), w, lemma, u, x, f, str(i), 'dep' if i else 'root', '_', misc]))
            if i + 1 >= upto and rng.random() < 0.05:
                out.append('\t'.join(['%d.1' % (i + 1), 'zz', 'zz', 'X', 'x', '_', '_', '_', '_', '_']))
            i += 1
        out.append('')
    return '\n'.join(out) + '\n'


def treebank(path):
    """a file as the scorer sees it; nothing if it is not a file of words"""
    try:
        with open(path, encoding='utf-8', newline='') as f:
            text = f.read()
    except OSError:
        return []
    return parse(text)


def parse(text):
    out, cur, left = [], [], 0
    for ln in text.split('\n'):
        if not ln:
            if cur:
                out.append(cur)
                cur = []
            continue
        c = ln.split('\t')
        if ln.startswith('#') and not cur or len(c) == 10 and '.' in c[0]:
            continue
        if len(c) != 10:
            return []
        if '-' in c[0]:
            a, b = c[0].split('-')
            left = int(b) - int(a) + 1
            cur.append({'form': cps(c[1]), 'mw': True, 'words': []})
            continue
        w = {'lf': c[1].lower(), 'lemma': c[2], 'upos': c[3], 'xpos': c[4], 'feats': '|'.join(sorted(c[5].split('|'))), 'rel': 'dep', 'head': 0}
        if left:
            left -= 1
            cur[-1]['words'].append(w)
        else:
            cur.append({'form': cps(c[1]), 'mw': False, 'words': [w]})
    return out


# ------------------------------------------------------------------ configuration
def segments(rng, seg, root):
    agg = rng.choice(['cnn', 'rnn', 'average', 'self-attention'])
    f = {'segmenter': seg, 'embed_size': 4, 'min_frequency': rng.choice([1, 1, 2]), 'trainable': True, 'aggregator': agg, 'highway_layer': rng.random() < 0.5}
    f['aggregator_config'] = {'cnn': {'cnn_kernels': [{'size': 3, 'count': 5, 'dilation': 1}, {'size': 2, 'count': 4, 'dilation': 2}]}, 'rnn': {'lstm_cell_size': 3, 'bilstm_layer_count': 1}}.get(agg, {})
    if seg == 'morfessor':
        f['segmenter_config'] = {'path': os.path.join(root, 'morfessor.bin')}
    return f


def hyperparams(rng, root, ne):
    feats = {}
    kinds = rng.sample(['file', 'words', 'char', 'morfessor'], rng.choice([1, 2, 3, 4]))
    if 'file' in kinds:
        feats['word_embedding'] = {'we_dense_size': 5, 'path': os.path.join(root, 'words.vec'), 'trainable': rng.random() < 0.5, 'lowercase': rng.random() < 0.5}
    if 'words' in kinds:
        feats['word_trained_embedding'] = {'trainable': True, 'size': 6, 'min_frequency': rng.choice([1, 2]), 'lowercase': rng.random() < 0.5}
    if 'char' in kinds:
        feats['word_characters'] = segments(rng, 'char', root)
    if 'morfessor' in kinds:
        feats['morfessor_subwords'] = segments(rng, 'morfessor', root)
    shared = rng.choice(['WE_charCNN', 'BiLSTM', 'BiLSTM_CNN', 'Dilated_CNN'])
    conf = {}
    if rng.random() < 0.5 or shared == 'BiLSTM':
        conf['skip_connection'] = 'concat'
    if shared.startswith('BiLSTM'):
        conf.update(lstm_cell_size=4, bilstm_layer_count=rng.choice([1, 2]))
    if shared in ('BiLSTM_CNN', 'Dilated_CNN'):
        conf['cnn_kernels'] = [{'size': 3, 'count': 6, 'dilation': d} for d in rng.choice([[1], [1, 2]])]
    if rng.random() < 0.5:
        conf['sparse_input_prob'] = 0
    source = {'WE_charCNN': 'word_features', 'BiLSTM': 'bilstm_and_word_features', 'BiLSTM_CNN': 'bilstm_cnn', 'Dilated_CNN': 'dilated_cnn'}[shared]
    split = rng.choice(['pos_joint', 'pos_XF', 'pos_UXF', 'pos_gran'])
    nn = {'general': {'optimizer': {'type': rng.choice(['Adam', 'RMSProp', 'GD']), 'initial_lr': rng.choice([0.02, 0.1]), 'lr_decay': rng.choice([0.0, 0.1])}},
          'shared_part': {'builder': shared, 'config': conf, 'features_config': feats},
          'pos': {'builder': 'pos_dense', 'config': {'shared_name': source, 'splitting': split, 'dense_size': 8}}}
    if rng.random() < 0.6:
        nn['general']['optimizer']['lr_decrease_factor'] = rng.choice([1, 2, 10])
    if rng.random() < 0.5:
        nn['pos']['config']['loss_weights'] = {'default': 0.2, 'UPOS': 0.5, 'XPOS': 0.5, 'FEATS': 0.2}
    builder = rng.choice(['lemma_suffix', 'lemma_combo', 'lemma_dense'])
    nn['lemma'] = {'builder': builder, 'config': {'shared_name': source, 'dense_size': 8, 'loss_weights': {'LEMMA': 1.0}}}
    if builder == 'lemma_combo':
        nn['lemma']['config'].update(cnn_bilstm_dense_size=4, cnn_kernels=[{'size': 3, 'count': 6, 'dilation': 1}, {'size': 3, 'count': 5, 'dilation': 2}])
        nn['lemma']['features_config'] = {'input_subwords': {'min_frequency': 1, 'embed_size': 5, 'trainable': True, 'segmenter': 'char', 'highway_layer': rng.random() < 0.5},
                                          'output_subwords': {'min_frequency': 1, 'max_word_length': 6, 'segmenter': 'char'}}
    elif builder == 'lemma_suffix':
        nn['lemma']['features_config'] = {'lemma_suffix_transformation': {'rules_threshold': rng.choice([0, 1])}}
    tasks = rng.choice([['pos', 'lemma'], ['pos', 'lemma'], ['lemma', 'pos'], ['pos'], ['lemma']])
    return {'epochs': ne, 'dropout': rng.choice([1.0, 0.7, 0.5]), 'batch_size': rng.choice([1, 2, 3, 8]), 'tasks': tasks, 'nn_config': nn}


# ------------------------------------------------------------------ running
def prepare(sc, root):
    rng = random.Random(sc['rseed'])
    words = [word_of(rng) for _ in range(14)]
    for name, n, fresh in (('train', sc['size'], 0.1), ('dev', 5, 0.3), ('test', 4, 0.3)):
        with open(os.path.join(root, name + '.conllu'), 'w', encoding='utf-8') as f:
            f.write(render(bank(rng, words, n, fresh), rng))
    with open(os.path.join(root, 'words.vec'), 'w', encoding='utf-8') as f:
        known = sorted(set(words[:9] + [word_of(rng) for _ in range(4)]))
        f.write('%d 3\n' % len(known))
        for w in known:
            f.write(w + ''.join(' %.3f' % rng.uniform(-1, 1) for _ in range(3)) + '\n')
    # words of the feature's file only matter to configurations that use them
    train_morfessor(os.path.join(root, 'morfessor.bin'), words + ['ab', 'aab', 'abab'])
    h = hyperparams(rng, root, sc['ne'])
    if sc['still']:
        o = h['nn_config']['general']['optimizer']
        o.update(type='GD', initial_lr=1e-6)
        o.pop('lr_decrease_factor', 0)
    return h


def run_script(sc, root, hypers, method, results, dispose):
    """one run of the script; what it printed and wrote"""
    settings = {'train_set': {'path': os.path.join(root, 'train.conllu')}, 'model_dir': os.path.join(root, 'models'),
                'dev_set': {'path': os.path.join(root, 'dev.conllu'), 'results_path': os.path.join(root, results, 'dev')},
                'test_set': {'path': os.path.join(root, 'test.conllu'), 'results_path': os.path.join(root, results, 'test')},
                'random_seed': sc['seeds'] if sc['seedlist'] else sc['seeds'][0], 'cmp_metric': {'fields': sc['fields'], 'metric': sc['metric']}, 'metric_printer': {'fields': sc['printer']}}
    if sc['shuffler']:
        settings['train_set']['shuffler'] = sc['shuffler']
    argv = ['x', '--method', method]
    for name, v in (('settings', settings), ('hyperparams', hypers)):
        p = os.path.join(root, name + '.json')
        with open(p, 'w') as f:
            json.dump(v, f)
        argv += ['--' + name, p]
    out, exc = io.StringIO(), ''
    before = tfreal.open_sessions()
    with mock.patch.object(sys, 'argv', argv + (['--delete_after'] if dispose else [])), contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        try:
            runpy.run_module('babylondigger.evaluation.evaluation', run_name='__main__')
        except Exception as e:
            exc = exc_name(e) + ': ' + str(e)[:200]
        except SystemExit as e:
            exc = 'SystemExit' if e.code else ''
    at = lambda part, s, name: treebank(os.path.join(root, results, part, 'params-0', str(s), name))
    return {'exc': exc, 'open': tfreal.open_sessions() - before, 'tables': tables(out.getvalue()),
            'dev': [[at('dev', s, 'epoch-%d-dev.conll' % e) for e in range(sc['ne'])] for s in sc['seeds']],
            'test': [at('test', s, 'best-test.conll') for s in sc['seeds']],
            'left': os.path.exists(os.path.join(root, 'models'))}


def again(path, root):
    out = []
    with NeuralTagger.load(path) as tagger:
        for part in ('dev', 'test'):
            plain = [Document.from_document(d, [Token.with_syntax(Token.with_morphology(t)) for t in d.tokens]) for d in CoNLLUDataSet(os.path.join(root, part + '.conllu'))]
            docs = list(tagger.tag(iter(plain)))
            out.append(parse(CoNLLUWriter().write_to_str(*docs)))
    return {'dev': out[0], 'test': out[1]}


def scenarios(tier, rng, gens):
    for i in range(16 if tier == 'quick' else 200):
        seeds = rng.sample([0, 1, 7, 42, 12345, 54321], rng.choice([1, 2]))
        fields = rng.choice([['UPOS'], ['Lemmas'], ['UPOS', 'Feats', 'Lemmas'], ['UPOS', 'Feats', 'Lemmas'], ['XPOS', 'AllTags']])
        still = i % 8 == 7                  # training that stands still for more than five epochs
        if still:
            del seeds[1:]
        yield {'still': still, 'seeds': seeds, 'seedlist': len(seeds) > 1 or rng.random() < 0.5, 'ne': 7 if still else rng.choice([1, 2, 2, 3]), 'fields': fields, 'metric': rng.choice(['f1', 'f1', 'aligned_accuracy', 'precision', 'recall']),
               'printer': rng.choice([['UPOS', 'Feats', 'Lemmas'], ['Words', 'UPOS', 'XPOS', 'Lemmas'], ['Tokens', 'AllTags', 'Sentences'], ['Lemmas']]), 'size': rng.choice([3, 6, 10]),
               'shuffler': rng.choice([None, {'seed': 12345, 'max_batch_size': 100}, {'seed': 0, 'max_batch_size': 2}, {'seed': 5}]), 'rseed': rng.randrange(10 ** 6)}


def execute(sc):
    with tempfile.TemporaryDirectory() as root, tempfile.TemporaryDirectory() as other:
        hypers = prepare(sc, root)
        first = run_script(sc, root, hypers, 'neural', 'r', False)
        reload = []
        if not first['exc']:
            reload = [[again(os.path.join(root, 'models', 'params-0', str(s), 'epoch-%d' % e), root) for e in range(sc['ne'])] for s in sc['seeds']]
        base = {'k': 'run', 'seeds': sc['seeds'], 'list': sc['seedlist'], 'ne': sc['ne'], 'fields': sc['fields'], 'printer': sc['printer'],
                'dev': treebank(os.path.join(root, 'dev.conllu')), 'test': treebank(os.path.join(root, 'test.conllu'))}
        yield dict(base, run=first, reload=reload, lemma='lemma' in hypers['tasks'], pos='pos' in hypers['tasks'])
        if first['exc']:
            return
        job = os.path.join(root, 'job.json')
        with open(job, 'w') as f:
            json.dump({'sc': sc, 'root': root, 'other': other}, f)
        p = subprocess.run([sys.executable, os.path.abspath(__file__), job], env=dict(os.environ, PYTHONHASHSEED='4711'), capture_output=True, text=True, timeout=200)
        if p.returncode:
            raise RuntimeError('another process failed: ' + p.stderr[-1500:])
        for name, r in json.loads(p.stdout.strip().split('\n')[-1]):
            yield {'k': name, 'first': first, 'run': r}


def main(path):
    with open(path) as f:
        job = json.load(f)
    sc, out = job['sc'], []
    out.append(['pretrained', run_script(sc, job['root'], {}, 'neural_pretrained', 'r' if sc['rseed'] % 2 else 'p', False)])
    hypers = prepare(sc, job['other'])
    out.append(['repeated', run_script(sc, job['other'], hypers, 'neural', 'r', True)])
    print(json.dumps(out))


SCENARIOS = {'C39': scenarios}
EXECUTE = {'C39': execute}

if __name__ == '__main__':
    main(sys.argv[1])
