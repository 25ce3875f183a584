"""Executes the scenarios of one property in the real code and writes what was observed.

Only executes and projects: no verdict is computed here.
"""
import argparse
import importlib
import json
import os
import random
import signal
import sys
import traceback


class Timeout(BaseException):
    pass


def _alarm(*_):
    raise Timeout()


def main():
    ap = argparse.ArgumentParser()
    for x in ('module', 'prop', 'tier', 'seed', 'shard', 'out', 'replay'):
        ap.add_argument('--' + x)
    ap.add_argument('--gen', action='append', default=[])
    a = ap.parse_args()
    gens = {}
    for g in a.gen:
        name, path = g.split('=', 1)
        with open(path, encoding='utf-8') as f:
            gens[name] = json.load(f)
    shard, n = map(int, a.shard.split('/'))
    out = open(a.out, 'w', encoding='utf-8')
    base = {'sid': 0}

    def emit(r):
        k = r.pop('k')
        out.write(json.dumps({'k': k, 'sid': base['sid'], **r}, ensure_ascii=False) + '\n')

    import guard
    guard.install()
    try:
        sys.argv = ['harness']
        try:
            mod = importlib.import_module(a.module)
        except BaseException as e:
            tb = traceback.extract_tb(e.__traceback__)
            if any(f.filename.startswith(os.environ['VERIF_REPO'] + '/') for f in tb):
                emit({'k': 'crash', 'exc': 'import failed: ' + traceback.format_exc()[-1500:]})
                out.write('{"k":"end"}\n')
                out.close()
                return
            raise
        rng = random.Random('%s/%s' % (a.prop, a.seed))
        if a.replay:
            with open(a.replay, encoding='utf-8') as f:
                rep = json.load(f)
            want = rep['sid']
        else:
            want = None
        signal.signal(signal.SIGALRM, _alarm)
        execute = mod.EXECUTE[a.prop]
        limit = getattr(mod, 'SCENARIO_SECONDS', 60)
        for i, sc in enumerate(mod.SCENARIOS[a.prop](a.tier, rng, gens)):
            if want is not None:
                if i != want:
                    continue
            elif i % n != shard:
                continue
            base['sid'] = i
            signal.alarm(limit)
            try:
                for r in execute(sc):
                    emit(r)
            except Timeout:
                emit({'k': 'crash', 'exc': 'timeout', 'sc': json.dumps(sc, default=str)[:3000]})
            except Exception:
                text = traceback.format_exc()
                if 'HARNESS-FAULT' in text:
                    raise
                emit({'k': 'crash', 'exc': text[-1500:], 'sc': json.dumps(sc, default=str)[:3000]})
            finally:
                signal.alarm(0)
            out.flush()
        out.write('{"k":"end"}\n')
        out.close()
    except BaseException:
        print('HARNESS-FAULT')
        traceback.print_exc()
        sys.exit(3)


main()
