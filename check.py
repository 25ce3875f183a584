#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough] [--replay FILE]"""
import argparse
import os
import sys
import traceback

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import registry  # noqa: E402
import vlib  # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--replay')
    a = ap.parse_args()
    if a.replay:
        import json
        with open(a.replay) as f:
            rep = json.load(f)
        a.tier, a.seed = rep['tier'], rep['seed']
    try:
        return vlib.Check(a.pid, registry.CHECKS[a.pid], a.tier, a.seed, a.replay).run()
    except vlib.MachineryError as e:
        print('MACHINERY ERROR:', e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2


if __name__ == '__main__':
    sys.exit(main())
