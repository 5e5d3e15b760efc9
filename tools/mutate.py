"""Mutation runs over scratch copies of the repository (development aid, not a check).

    mutate.py list FILE...                      count the mutants
    mutate.py run OUT.jsonl [--n N] [--seed S] [--jobs J] FILE...
    mutate.py patch OUT.jsonl DIFF...           the same for given patches

Every mutant is tried on the project's tests first; a survivor is then given to the
checks of its file, until one reports a violation.
"""
import argparse
import ast
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('MUT_REPO', '/repo')
PY = '/opt/venv/bin/python'
CHECKS = {
    'bit_vector.py': 'B01 B02 B03 B04 B05 B06 B09 B10 B07 B08 F02 A07 A11',
    'bit_vector_abc.py': 'B11 B10 B04 B01 B02 B08 S01 S02 S07 F07 B09 A07 M03',
    'bit_vector_util.py': 'B07 B08 S07 B11',
    'fp_vector.py': 'F01 F02 F03 F04 F05 F06 F07',
    'fp_vector_abc.py': 'F06 F01 F04 F07 F03 F05',
    'smt_bit_vector.py': 'S01 S03 S04 S05 S06 S07 F07',
    'smt_fp_vector.py': 'F07 F06',
    'smt_int.py': 'S05 S03',
    'smt_utils.py': 'S06',
    'z3_bit_vector.py': 'S02 S03',
    'adt.py': 'A01 A02 A03 A09 A05 A08 A04 A10 A11',
    'adt_meta.py': 'A04 A06 A01 A02 A03 A05 A07 M01 M02 A09 M03 A10 A11',
    'adt_util.py': 'A07 A08 B11',
    'modifiers.py': 'M01 M02 A07 M03',
    'util.py': 'U01 A01 A02 A04',
    'compatibility.py': 'B04', '__init__.py': 'B10',
}
CMP = {ast.Lt: ['<=', '>'], ast.LtE: ['<', '>='], ast.Gt: ['>=', '<'],
       ast.GtE: ['>', '<='], ast.Eq: ['!='], ast.NotEq: ['=='], ast.Is: ['is not'],
       ast.IsNot: ['is'], ast.In: ['not in'], ast.NotIn: ['in']}
BIN = {ast.Add: ['-'], ast.Sub: ['+'], ast.Mult: ['+'], ast.FloorDiv: ['%', '*'],
       ast.Mod: ['//'], ast.LShift: ['>>'], ast.RShift: ['<<'], ast.BitAnd: ['|', '^'],
       ast.BitOr: ['&', '^'], ast.BitXor: ['|', '&'], ast.Div: ['*'], ast.Pow: ['*']}


def mutants(src):
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    offs = [0]
    for ln in lines:
        offs.append(offs[-1] + len(ln.encode()))
    b = src.encode()

    def span(n):
        return (offs[n.lineno - 1] + n.col_offset,
                offs[n.end_lineno - 1] + n.end_col_offset)

    def text(n):
        i, j = span(n)
        return b[i:j].decode()
    out = []

    def rep(n, new, why):
        i, j = span(n)
        new = new.replace('\n', ' ') if not isinstance(n, ast.stmt) else new
        out.append((i, j, new, f'{n.lineno}: {why}: {text(n)[:60]!r} -> {new[:60]!r}'))
    methods = sorted({n.attr for n in ast.walk(tree) if isinstance(n, ast.Attribute)})
    for n in ast.walk(tree):
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for o in CMP.get(type(n.ops[0]), []):
                rep(n, f'{text(n.left)} {o} {text(n.comparators[0])}', 'cmp')
        elif isinstance(n, ast.BinOp):
            for o in BIN.get(type(n.op), []):
                rep(n, f'({text(n.left)} {o} {text(n.right)})', 'bin')
            if isinstance(n.op, (ast.Sub, ast.FloorDiv, ast.Mod, ast.LShift, ast.RShift)):
                rep(n, f'({text(n.right)} {_op(n.op)} {text(n.left)})', 'swap')
        elif isinstance(n, ast.BoolOp):
            o = 'or' if isinstance(n.op, ast.And) else 'and'
            rep(n, '(' + f' {o} '.join(text(v) for v in n.values) + ')', 'bool')
            for k in range(len(n.values)):
                rep(n, '(' + f' {"and" if o == "or" else "or"} '.join(
                    text(v) for i, v in enumerate(n.values) if i != k) + ')', 'drop')
        elif isinstance(n, ast.UnaryOp):
            rep(n, text(n.operand), 'unary')
        elif isinstance(n, ast.Constant) and not isinstance(n.value, str):
            v = n.value
            if v is True or v is False:
                rep(n, str(not v), 'const')
            elif type(v) is int:
                rep(n, str(v + 1), 'const')
                if v:
                    rep(n, str(v - 1), 'const')
        elif isinstance(n, (ast.If, ast.IfExp, ast.While)):
            rep(n.test, f'not ({text(n.test)})', 'cond')
            rep(n.test, 'False', 'cond')
            if not isinstance(n, ast.While):
                rep(n.test, 'True', 'cond')
        elif isinstance(n, (ast.Assign, ast.AugAssign)) or (
                isinstance(n, ast.Expr) and isinstance(n.value, ast.Call)):
            rep(n, 'pass', 'del')
        elif isinstance(n, ast.Raise):
            rep(n, 'pass', 'del')
        elif isinstance(n, ast.Return) and n.value is not None:
            rep(n, 'return None', 'ret')
        elif isinstance(n, ast.Call):
            a = [text(x) for x in n.args]
            if len(a) >= 2 and not any(isinstance(x, ast.Starred) for x in n.args):
                sw = [a[1], a[0]] + a[2:] + [text(k.value) if k.arg is None else
                                              f'{k.arg}={text(k.value)}' for k in n.keywords]
                rep(n, f'{text(n.func)}({", ".join(sw)})', 'args')
            if n.keywords:
                for k in n.keywords:
                    if k.arg:
                        kk = [f'{x.arg}={text(x.value)}' if x.arg else f'**{text(x.value)}'
                              for x in n.keywords if x is not k]
                        rep(n, f'{text(n.func)}({", ".join(a + kk)})', 'kwdrop')
            if isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) \
                    and n.func.attr.startswith(('bv', 'fp_', 'BV', 'SBV')):
                near = [m for m in methods if m != n.func.attr and
                        _near(m, n.func.attr)]
                for m in near[:3]:
                    rep(n.func, f'{text(n.func.value)}.{m}', 'method')
        elif isinstance(n, ast.Slice):
            for part in (n.lower, n.upper):
                if part is not None:
                    rep(part, f'({text(part)})+1', 'slice')
        elif isinstance(n, ast.Attribute) and n.attr in ('size', 'fields'):
            pass
        elif isinstance(n, ast.Name) and n.id in ('self', 'other', 'cls') \
                and isinstance(n.ctx, ast.Load):
            if n.id in ('self', 'other'):
                rep(n, {'self': 'other', 'other': 'self'}[n.id], 'name')
        elif isinstance(n, (ast.FunctionDef,)) and n.decorator_list:
            for d in n.decorator_list:
                if text(d) in ('bv_cast', 'bit_cast', 'int_cast', 'fp_cast',
                               'set_context'):
                    i, j = span(d)
                    out.append((i - 1, j, '#', f'{d.lineno}: decorator {text(d)}'))
    res = []
    for i, j, new, why in out:
        m = (b[:i] + new.encode() + b[j:]).decode()
        try:
            if ast.dump(ast.parse(m)) == ast.dump(tree):
                continue
        except SyntaxError:
            continue
        res.append((m, why))
    return res


def _op(o):
    return {ast.Sub: '-', ast.FloorDiv: '//', ast.Mod: '%', ast.LShift: '<<',
            ast.RShift: '>>'}[type(o)]


def _near(a, b):
    return len(a) == len(b) and sum(x != y for x, y in zip(a, b)) == 1


def sh(cmd, cwd, env=None, timeout=900):
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE,
                         stderr=subprocess.STDOUT, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out.decode(errors='replace')
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return -1, 'timeout'


STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])


def tests_pass(repo, quickfail=True):
    env = dict(PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
               PYTHONPATH=f'{repo}:/opt/vp/plugin', PYTEST_ADDOPTS='')
    code, out = sh([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '-p', 'vp_stable',
                    '--timeout=60', '-x', '--disable-warnings', 'tests'], repo, env, 200)
    m = re.search(r'(\d+) passed', out)
    return code == 0 and m is not None and int(m.group(1)) >= len(STABLE), out[-300:]


def trial(apply, label, checks, stop=True, tests=True, seeds=tuple(map(int, os.environ.get('SEEDS', '1').split(','))), shrink=False,
          workers=1):
    d = tempfile.mkdtemp(prefix='trial-')
    try:
        repo, ver = os.path.join(d, 'repo'), os.path.join(d, 'verif')
        shutil.copytree(REPO, repo, ignore=shutil.ignore_patterns('.git', '__pycache__'))
        err = apply(repo)
        if err:
            return dict(label=label, status='error', detail=err)
        if tests:
            ok, tail = tests_pass(repo)
            if not ok:
                return dict(label=label, status='killed-by-tests')
        shutil.copytree(ROOT, ver, ignore=shutil.ignore_patterns(
            '.git', '__pycache__', 'seeded', 'replays', 'evidence', '.hypothesis'))
        caught, msgs = [], {}
        for c in checks:
            for s in seeds:
                env = dict(VERIF_REPO=repo, VERIF_WORKERS=str(workers), VERIF_SEED=str(s),
                           VERIF_TIER='quick')
                if not shrink:
                    env['VERIF_NOSHRINK'] = '1'
                code, out = sh([PY, 'run.py', c, '--tier', 'quick'], ver, env, 1500)
                if code == 1:
                    caught.append(c)
                    msgs[c] = [ln for ln in out.splitlines() if ln.startswith('---')][:1]
                elif code != 0:
                    msgs[c] = [f'exit {code}: {out[-300:]}']
            if caught and stop:
                break
        return dict(label=label, status='caught' if caught else 'MISSED',
                    by=caught, msgs=msgs)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('cmd')
    ap.add_argument('args', nargs='*')
    ap.add_argument('--n', type=int, default=10**9)
    ap.add_argument('--seed', type=int, default=0)
    ap.add_argument('--jobs', type=int, default=7)
    ap.add_argument('--checks')
    ap.add_argument('--all', action='store_true')
    ap.add_argument('--skip')
    ap.add_argument('--missed', help='only those recorded as missed in this file')
    a = ap.parse_args()
    if a.cmd == 'list':
        for f in a.args:
            ms = mutants(open(os.path.join(REPO, 'hwtypes', f)).read())
            print(f, len(ms))
        return
    out, rest = a.args[0], a.args[1:]
    todo = []
    skip = set()
    if a.skip:
        for fn in a.skip.split(','):
            skip |= {json.loads(ln)['label'] for ln in open(fn)}
    only = None
    if a.missed:
        only = {r['label'] for r in map(json.loads, open(a.missed)) if r['status'] == 'MISSED'}
    if a.cmd == 'run':
        for f in rest:
            for m, why in mutants(open(os.path.join(REPO, 'hwtypes', f)).read()):
                label = f'{f}:{why}'
                if label in skip or only is not None and label not in only:
                    continue

                def ap_(repo, f=f, m=m):
                    with open(os.path.join(repo, 'hwtypes', f), 'w') as fh:
                        fh.write(m)
                todo.append((ap_, label, (a.checks or CHECKS[f]).split(), True))
        random.Random(a.seed).shuffle(todo)
        todo = todo[:a.n]
    else:
        for p in rest:
            p, _, cs = p.partition('@')

            def ap_(repo, p=p):
                code, o = sh(['git', 'apply', os.path.abspath(p)], repo)
                return None if code == 0 else o
            todo.append((ap_, p, (cs or a.checks).split(), not a.all))
    with open(out, 'a') as fh, ThreadPoolExecutor(a.jobs) as ex:
        def go(t):
            r = trial(t[0], t[1], t[2], stop=t[3])
            fh.write(json.dumps(r) + '\n')
            fh.flush()
            return r
        tally = {}
        for r in ex.map(go, todo):
            tally[r['status']] = tally.get(r['status'], 0) + 1
            if r['status'] not in ('killed-by-tests', 'caught'):
                print(json.dumps(r), flush=True)
        print(tally)


if __name__ == '__main__':
    main()
