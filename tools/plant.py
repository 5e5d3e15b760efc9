"""Turn a list of planted-bug specs into /verif/seeded/<id>/ (development aid, not a check).

    plant.py SPEC.py [--only ID,...] [--jobs J] [--checks]

SPEC.py defines BUGS, a list of dicts: id, prop, edits [(file, old, new), ...], demo
(Python text run with cwd a repository), needs, breaks.  A bug is kept when the patch
touches original lines, the project's stable tests pass with it, and the demo passes
without and fails with it.
"""
import argparse
import json
import os
import re
import runpy
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mutate
from mutate import sh, tests_pass, trial

BASE = '80b9860'
SEEDED = '/verif/seeded'
DEMO_SH = '''#!/bin/bash
# exit 0: the behaviour holds; nonzero: it does not.  cwd is the repository.
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python "$here/demo.py"
'''
DEMO_HEAD = '''import os
import sys
import warnings
warnings.simplefilter('ignore')
import hwtypes
assert os.path.realpath(hwtypes.__file__).startswith(os.path.realpath(os.getcwd())), hwtypes.__file__
'''


def one(b, checks):
    d = tempfile.mkdtemp(prefix='plant-')
    try:
        repo = os.path.join(d, 'repo')
        subprocess.run(['git', 'clone', '-q', '/repo', repo], check=True)
        for f, old, new in b['edits']:
            p = os.path.join(repo, 'hwtypes', f)
            s = open(p).read()
            if s.count(old) != 1:
                return b['id'], f'edit matches {s.count(old)} times: {old!r:.60}'
            open(p, 'w').write(s.replace(old, new))
        demo = os.path.join(d, 'demo')
        os.mkdir(demo)
        open(demo + '/demo.py', 'w').write(DEMO_HEAD + b['demo'])
        open(demo + '/demo.sh', 'w').write(DEMO_SH)
        os.chmod(demo + '/demo.sh', 0o755)
        _, diff = sh(['git', 'diff'], repo)
        # original lines only
        _, bl = sh(['git', 'diff', '-U0'], repo)
        cur, removed = None, 0
        for ln in bl.splitlines():
            if ln.startswith('--- a/'):
                cur = ln[6:]
            m = re.match(r'@@ -(\d+)(?:,(\d+))? ', ln)
            if m:
                n = int(m[2]) if m[2] is not None else 1
                if n == 0:
                    continue
                removed += n
                _, bm = sh(['git', 'blame', '-s', '--abbrev=8',
                            '-L', f'{m[1]},+{n}', 'HEAD', '--', cur], repo)
                for x in bm.splitlines():
                    if not x.lstrip('^').startswith(BASE) and not x.startswith('^'):
                        return b['id'], 'touches own line: ' + x
        if not removed:
            return b['id'], 'patch only adds lines'
        c, o = sh([demo + '/demo.sh'], repo, timeout=300)
        if c == 0:
            return b['id'], 'demo passes with the patch'
        fail = o.strip().splitlines()[-1:] if o.strip() else ['?']
        sh(['git', 'stash', '-q'], repo)
        c2, o2 = sh([demo + '/demo.sh'], repo, timeout=300)
        sh(['git', 'stash', 'pop', '-q'], repo)
        if c2 != 0:
            return b['id'], 'demo fails on the clean tree: ' + o2[-400:]
        ok, tail = tests_pass(repo)
        if not ok:
            return b['id'], 'tests fail: ' + tail[-200:].replace('\n', ' ')
        out = os.path.join(SEEDED, b['id'])
        if os.path.isdir(out):
            shutil.rmtree(out)
        os.makedirs(out)
        open(out + '/patch.diff', 'w').write(diff)
        shutil.copy(demo + '/demo.sh', out)
        shutil.copy(demo + '/demo.py', out)
        json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']},
                  open(out + '/meta.json', 'w'), indent=1)
        res = 'KEPT (' + fail[0][:70] + ')'
        if checks:
            def ap(r):
                c, o = sh(['git', 'apply', out + '/patch.diff'], r)
                return None if c == 0 else o
            r = trial(ap, b['id'], [b['prop']], tests=False)
            res += ' ' + r['status'] + ' ' + json.dumps(r.get('msgs'))[:160]
        return b['id'], res
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--only')
    ap.add_argument('--jobs', type=int, default=3)
    ap.add_argument('--checks', action='store_true')
    ap.add_argument('spec')
    a = ap.parse_args()
    bugs = runpy.run_path(a.spec)['BUGS']
    if a.only:
        bugs = [b for b in bugs if b['id'] in a.only.split(',')]
    with ThreadPoolExecutor(a.jobs) as ex:
        for i, r in ex.map(lambda b: one(b, a.checks), bugs):
            print(i, r, flush=True)


if __name__ == '__main__':
    main()
