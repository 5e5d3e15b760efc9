"""Which lines of hwtypes do the quick checks execute?

usage: cov.py [ids]   prints the executable lines no check reached"""
import dis
import os
import subprocess
import sys
import tempfile
import types
import json

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')


def executable(path):
    def walk(code):
        for _, _, no in code.co_lines():
            if no:
                yield no
        for c in code.co_consts:
            if isinstance(c, types.CodeType):
                # executed lines inside functions only
                yield from walk(c)

    def functions(code, inside=False):
        for c in code.co_consts:
            if isinstance(c, types.CodeType):
                fn = bool(c.co_flags & 0x2)
                if fn:
                    yield from (n for n in walk(c) if n != c.co_firstlineno)
                else:
                    yield from functions(c)
    with open(path) as f:
        return set(functions(compile(f.read(), path, 'exec')))


def main():
    ids = sys.argv[1:] or [c['property'] for c in json.load(
        open(os.path.join(ROOT, 'MANIFEST.json')))['checks']]
    with tempfile.TemporaryDirectory() as tmp:
        for i in ids:
            subprocess.run([sys.executable, os.path.join(ROOT, 'run.py'), i],
                           env=dict(os.environ, VERIF_COV=tmp), cwd=ROOT,
                           stdout=subprocess.DEVNULL)
        seen = set()
        for f in os.listdir(tmp):
            for ln in open(os.path.join(tmp, f)):
                n, i = ln.rsplit(':', 1)
                seen.add((n, int(i)))
    total = hit = 0
    for n in sorted(os.listdir(os.path.join(REPO, 'hwtypes'))):
        if n.endswith('.py'):
            p = os.path.join(REPO, 'hwtypes', n)
            want = executable(p)
            miss = sorted(x for x in want if (n, x) not in seen)
            total += len(want)
            hit += len(want) - len(miss)
            print(f'{n}: {len(want) - len(miss)}/{len(want)}')
            src = open(p).read().splitlines()
            for x in miss:
                print(f'   {x}: {src[x - 1].strip()}')
    print(f'total {hit}/{total}')


main()
