"""run.py <property id> [--tier quick|thorough] [--replay FILE]
   run.py --list"""
import argparse
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import boot  # noqa: E402


def load(root):
    for f in sorted(os.listdir(os.path.join(root, 'checks'))):
        if f.endswith('.py') and not f.startswith('_'):
            importlib.import_module('checks.' + f[:-3])


def main():
    boot.reexec()
    ap = argparse.ArgumentParser()
    ap.add_argument('pid', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'),
                    choices=['quick', 'thorough'])
    ap.add_argument('--replay')
    ap.add_argument('--list', action='store_true')
    a = ap.parse_args()
    try:
        seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    except ValueError:
        seed = 1
    try:
        boot.setup()
        load(boot.ROOT)
        from lib import harness
    except Exception:
        import traceback
        traceback.print_exc()
        return 3
    if a.list:
        print('\n'.join(sorted(harness.REGISTRY)))
        return 0
    if a.pid not in harness.REGISTRY:
        print(f'unknown property {a.pid}', file=sys.stderr)
        return 3
    return harness.main(harness.REGISTRY[a.pid], a.tier, seed, a.replay)


if __name__ == '__main__':
    sys.exit(main())
