"""Runner for generated checks.

A check is a list of Subs.  A Sub has a Hypothesis strategy producing *plain
Python literals* (a case) and a pure oracle `check(case, ctx)`, which raises on
a violation.  Generation and judging are separate, so a shrunk case is replayed
without Hypothesis: `run.py <id> --replay FILE`.
"""
import ast
import hashlib
import json
import os
import pickle
import re
import resource
import select
import signal
import sys
import tempfile
import time
import traceback

from . import boot


class Violation(Exception):
    """the property does not hold on this case; `finding` names the known
    finding this disagreement is exactly an instance of, if any"""

    def __init__(self, msg, finding=None):
        super().__init__(msg)
        self.finding = finding


class HarnessError(Exception):
    """the check itself is wrong; never reported as a violation"""


def require(cond, *msg):
    if not cond:
        raise Violation(' '.join(m if isinstance(m, str) else _safe(m) for m in msg))


def _safe(x):
    try:
        s = repr(x)
    except Exception as e:
        s = f'<unprintable {type(x).__name__}: {type(e).__name__}>'
    return s if len(s) < 400 else s[:400] + '...'


def expect_raises(exc, fn, what):
    """fn() must raise exc (a class or a tuple); returns the exception"""
    try:
        r = fn()
    except exc as e:
        return e
    except Exception as e:
        raise Violation(f'{what}: expected {_exc_names(exc)}, got '
                        f'{type(e).__name__}: {_safe(e)}')
    raise Violation(f'{what}: expected {_exc_names(exc)}, got value {_safe(r)}')


def _exc_names(exc):
    return '/'.join(e.__name__ for e in exc) if isinstance(exc, tuple) else exc.__name__


class Ctx:
    """what one case tells the evidence"""

    def __init__(self):
        self.labels = {}
        self.trivial = False
        self.findings = set()

    def label(self, *names):
        for n in names:
            self.labels[n] = self.labels.get(n, 0) + 1

    def mark_trivial(self):
        self.trivial = True


class Sub:
    def __init__(self, name, strategy, check, quick, thorough=None,
                 enumerate_cases=None, shards=None, batch=False):
        self.name = name
        self.strategy = strategy          # () -> SearchStrategy, or None
        self.check = check                # (case, ctx) -> None
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 25
        self.enumerate_cases = enumerate_cases   # (tier) -> iterable of cases
        self.shards = shards


class Check:
    def __init__(self, pid, subs, rule, assumptions=(), findings=()):
        self.pid, self.subs, self.rule = pid, subs, rule
        self.assumptions = list(assumptions)
        # finding key -> zero-argument demonstration, returning a description
        # if the defect is still there and None if it is gone
        self.findings = dict(findings)


REGISTRY = {}


def register(check):
    if check.pid in REGISTRY:
        raise HarnessError(f'{check.pid} registered twice')
    REGISTRY[check.pid] = check
    return check


# ---------------------------------------------------------------- findings
def known_findings(pid):
    path = os.path.join(boot.ROOT, 'known_findings.json')
    with open(path) as f:
        data = json.load(f)
    return {e['key']: e for e in data['findings'] if e['property'] == pid}


# ---------------------------------------------------------------- one case
class _Hang(BaseException):
    """a case used more CPU time than any case of the unchanged tree comes near"""


CASE_CPU_S = 60


def _on_hang(*_):
    raise _Hang


def judge(sub, case, ctx, known):
    """Run the oracle on a case.  Returns None, or (message, kind, tb)."""
    signal.signal(signal.SIGPROF, _on_hang)
    try:
        signal.setitimer(signal.ITIMER_PROF, CASE_CPU_S)
        try:
            sub.check(case, ctx)
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
        return None
    except _Hang:
        return (f'no answer after {CASE_CPU_S} s of CPU time', 'hang',
                traceback.format_exc())
    except HarnessError:
        raise
    except Violation as e:
        if e.finding is not None and e.finding in known:
            ctx.findings.add(e.finding)
            ctx.label('known-finding:' + e.finding)
            return None
        return (str(e), 'oracle', traceback.format_exc())
    except (KeyboardInterrupt, SystemExit):
        raise
    except Exception as e:
        # An exception the oracle did not ask for: on the unchanged tree no
        # generated case produces one, so it comes from the code under test.
        return (f'unexpected {type(e).__name__}: {_safe(e)}', 'exception',
                traceback.format_exc())


class _Found(Exception):
    pass


class _Stop(BaseException):
    """ends a shard; Hypothesis lets it through"""


def _case_hash(case):
    return hashlib.blake2b(repr(case).encode(), digest_size=8).digest()


def _shorten(case, n=300):
    s = repr(case)
    return s if len(s) <= n else s[:n] + '...'


def run_shard(check, sub_idx, shard, nshards, seed, tier):
    """Runs in a child.  Returns a result dict."""
    sub = check.subs[sub_idx]
    known = known_findings(check.pid)
    n = 2 * sub.quick if tier == 'quick' else sub.thorough
    res = dict(sub=sub.name, shard=shard, evaluations=0, labels={}, samples=[],
               nontrivial=set(), trivial=0, violation=None, findings={},
               exhaustive=False)
    last = {}

    def one(case):
        ctx = Ctx()
        res['evaluations'] += 1
        bad = judge(sub, case, ctx, known)
        for k, v in ctx.labels.items():
            res['labels'][k] = res['labels'].get(k, 0) + v
        for f in ctx.findings:
            res['findings'].setdefault(f, _shorten(case))
        if ctx.trivial:
            res['trivial'] += 1
        else:
            h = _case_hash(case)
            if h not in res['nontrivial']:
                res['nontrivial'].add(h)
                k = len(res['nontrivial'])
                if k in (3, 40, 400, 4000):
                    res['samples'].append(_shorten(case))
        if bad is not None:
            last['case'], last['bad'] = case, bad
            if bad[1] == 'hang':            # not shrunk: every attempt is slow
                raise _Stop
            raise _Found(bad[0])

    try:
        if sub.enumerate_cases is not None:
            for i, case in enumerate(sub.enumerate_cases(tier)):
                if i % nshards == shard:
                    one(case)
            res['exhaustive'] = True
        if sub.strategy is not None:
            _hypothesis(sub, one, max(1, n // nshards), seed, shard)
    except (_Found, _Stop):
        pass
    if last:
        res['violation'] = dict(case=last['case'], message=last['bad'][0],
                                kind=last['bad'][1], tb=last['bad'][2])
    return res


def _hypothesis(sub, one, n, seed, shard):
    import hypothesis
    from hypothesis import HealthCheck, Phase, Verbosity, given, settings
    from hypothesis.internal.conjecture import engine
    engine.MAX_SHRINKING_SECONDS = 60
    s = int.from_bytes(hashlib.blake2b(
        f'{seed}/{sub.name}/{shard}'.encode(), digest_size=6).digest(), 'big')

    @hypothesis.seed(s)
    @settings(max_examples=n, database=None, deadline=None, derandomize=False,
              phases=(Phase.generate,) + (() if os.environ.get('VERIF_NOSHRINK')
                                          else (Phase.shrink,)),
              print_blob=False,
              verbosity=Verbosity.quiet, report_multiple_bugs=False,
              suppress_health_check=[HealthCheck.too_slow,
                                     HealthCheck.data_too_large,
                                     HealthCheck.large_base_example])
    @given(sub.strategy())
    def prop(case):
        one(case)

    try:
        prop()
    except _Found:
        raise
    except hypothesis.errors.Flaky:
        # depends on what ran before it in this process; the runner decides
        raise _Found('flaky')
    except BaseExceptionGroup as g:
        m, rest = g.split(_Found)
        if m is not None:
            raise _Found('several')
        raise


# ---------------------------------------------------------------- processes
MEM_LIMIT = 3 << 30


def _child(fn, path):
    code = 0
    try:
        resource.setrlimit(resource.RLIMIT_AS, (MEM_LIMIT, MEM_LIMIT))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        with boot.coverage():
            out = ('ok', fn())
    except BaseException as e:
        out = ('error', f'{type(e).__name__}: {e}\n{traceback.format_exc()}')
        code = 4
    with open(path, 'wb') as f:
        pickle.dump(out, f)
    sys.stdout.flush()
    os._exit(code)


def run_parallel(tasks, workers, budget_s, stop):
    """tasks: list of callables run in forked children.  Yields (index,
    ('ok', value) | ('error', text) | ('budget', None))."""
    tmp = tempfile.mkdtemp(prefix='verif-')
    running = {}
    t0 = time.monotonic()
    results = {}
    nxt = 0
    try:
        while nxt < len(tasks) or running:
            while nxt < len(tasks) and len(running) < workers:
                path = os.path.join(tmp, f'{nxt}.pkl')
                sys.stdout.flush()
                sys.stderr.flush()
                pid = os.fork()
                if pid == 0:
                    signal.signal(signal.SIGINT, signal.SIG_DFL)
                    _child(tasks[nxt], path)
                running[pid] = (nxt, path)
                nxt += 1
            pid, status = os.waitpid(-1, os.WNOHANG)
            if pid == 0:
                if time.monotonic() - t0 > budget_s:
                    for p, (i, _) in running.items():
                        os.kill(p, signal.SIGKILL)
                        os.waitpid(p, 0)
                        results[i] = ('budget', None)
                    for i in range(nxt, len(tasks)):
                        results[i] = ('budget', None)
                    running = {}
                    break
                time.sleep(0.01)
                continue
            if pid not in running:
                continue
            i, path = running.pop(pid)
            try:
                with open(path, 'rb') as f:
                    results[i] = pickle.load(f)
            except Exception:
                results[i] = ('error', f'worker died with status {status}')
            if stop(results[i]):
                for p, (j, _) in running.items():
                    os.kill(p, signal.SIGKILL)
                    os.waitpid(p, 0)
                running = {}
                break
    finally:
        for p in running:
            try:
                os.kill(p, signal.SIGKILL)
                os.waitpid(p, 0)
            except OSError:
                pass
        for f in os.listdir(tmp):
            os.unlink(os.path.join(tmp, f))
        os.rmdir(tmp)
    return results


# ---------------------------------------------------------------- main
def write_replay(check, sub, v, extra):
    d = os.path.join(boot.ROOT, 'replays')
    os.makedirs(d, exist_ok=True)
    case = repr(v['case'])
    name = f'{check.pid}-{sub.name}-{hashlib.sha1(case.encode()).hexdigest()[:8]}.json'
    path = os.path.join(d, name)
    with open(path, 'w') as f:
        json.dump(dict(property=check.pid, sub=sub.name, case=case,
                       message=v['message'], kind=v['kind'],
                       traceback=v['tb'], **extra), f, indent=1)
        f.write('\n')
    return path


def replay_case(check, sub, case):
    return judge(sub, case, Ctx(), known_findings(check.pid))


def main(check, tier, seed, replay=None):
    if replay:
        with open(replay) as f:
            r = json.load(f)
        sub = next(s for s in check.subs if s.name == r['sub'])
        case = ast.literal_eval(r['case'])
        bad = replay_case(check, sub, case)
        if bad is None and r.get('history'):
            h = r['history']
            out = run_shard(check, check.subs.index(sub), h['shard'],
                            h['nshards'], h['seed'], h['tier'])
            if out['violation']:
                v = out['violation']
                bad = (v['message'], v['kind'], v['tb'])
        if bad is None:
            print(f'replay {replay}: holds')
            return 0
        print(bad[2])
        print(f'VIOLATION property={check.pid} replay={replay}')
        return 1

    t0 = time.monotonic()
    workers = int(os.environ.get('VERIF_WORKERS', '0')) or min(8, os.cpu_count() or 1)
    only = os.environ.get('VERIF_SUB')
    plan = []
    for i, sub in enumerate(check.subs):
        if only and sub.name != only:
            continue
        k = sub.shards or 8
        plan += [(i, s, k) for s in range(k)]
    # long subs first would be better for packing, but order must be stable
    tasks = [(lambda a=a: run_shard(check, *a, seed, tier)) for a in plan]
    budget = 780 if tier == 'quick' else 6 * 3600
    results = run_parallel(tasks, workers, budget,
                           lambda r: r[0] == 'ok' and r[1]['violation'])
    status, lines = 0, []
    errors, budget_hit, viol = [], 0, None
    agg = {}
    for i, (kind, val) in sorted(results.items()):
        if kind == 'error':
            errors.append(f'{check.subs[plan[i][0]].name}[{plan[i][1]}]: {val}')
        elif kind == 'budget':
            budget_hit += 1
        else:
            a = agg.setdefault(val['sub'], dict(
                evaluations=0, labels={}, samples=[], nontrivial=set(),
                trivial=0, findings={}, exhaustive=True))
            a['evaluations'] += val['evaluations']
            a['trivial'] += val['trivial']
            a['nontrivial'] |= val['nontrivial']
            a['samples'] += val['samples']
            a['exhaustive'] &= val['exhaustive']
            for k, v in val['labels'].items():
                a['labels'][k] = a['labels'].get(k, 0) + v
            for k, v in val['findings'].items():
                a['findings'].setdefault(k, v)
            if val['violation'] and viol is None:
                viol = (i, val['violation'])
    known = known_findings(check.pid)
    if viol is not None:
        i, v = viol
        sub = check.subs[plan[i][0]]
        extra = {}
        again = run_parallel([lambda: replay_case(check, sub, v['case'])], 1,
                             300, lambda r: False)[0]
        if again[0] != 'ok' or again[1] is None:
            # only fails after what ran before it: keep the whole shard
            extra['history'] = dict(shard=plan[i][1], nshards=plan[i][2],
                                    seed=seed, tier=tier)
        if v['kind'] == 'exception' and extra and 'MemoryError' in v['message']:
            errors.append('unreproducible MemoryError: ' + v['tb'])
        else:
            path = write_replay(check, sub, v, extra)
            print(f'--- {check.pid}/{sub.name}: {v["message"]}')
            print(f'--- minimal case: {_shorten(v["case"], 2000)}')
            lines.append(f'VIOLATION property={check.pid} replay={path}')
            status = 1
    observed = {}
    for key, demo in sorted(check.findings.items()):
        if key not in known:
            continue
        try:
            d = demo()
        except Exception as e:
            d = f'{type(e).__name__}: {e}'
        if d:
            observed[key] = d
            print(f'KNOWN-FINDING: property={check.pid} {key}: {d}')
    wall = time.monotonic() - t0
    ev = sum(a['evaluations'] for a in agg.values())
    nt = sum(len(a['nontrivial']) for a in agg.values())
    samples = []
    for name, a in sorted(agg.items()):
        samples += [f'{name}: {s}' for s in a['samples'][:4]]
    evidence = dict(
        property=check.pid, tier=tier, seed=seed, level='exploration',
        coverage=dict(
            evaluations=ev, distinct_nontrivial=nt, rule=check.rule,
            samples=samples or ['(none)'],
            subchecks={name: dict(
                evaluations=a['evaluations'],
                distinct_nontrivial=len(a['nontrivial']), trivial=a['trivial'],
                enumerated=a['exhaustive'],
                distribution=dict(sorted(a['labels'].items())))
                for name, a in sorted(agg.items())},
            known_findings_observed=observed, shards_over_budget=budget_hit),
        assumptions=check.assumptions, wall_s=round(wall, 2),
        violations=1 if status == 1 else 0)
    os.makedirs(os.path.join(boot.ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(boot.ROOT, 'evidence', check.pid + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1)
        f.write('\n')
    if errors and status == 0:
        for e in errors:
            print('HARNESS ERROR:', e, file=sys.stderr)
        status = 3
    elif budget_hit and status == 0:
        print(f'INCONCLUSIVE: {budget_hit} shards over the time budget',
              file=sys.stderr)
        status = 2
    for ln in lines:
        print(ln)
    print(f'{check.pid} {tier} seed={seed}: {ev} cases, {nt} distinct '
          f'non-trivial, {wall:.1f}s -> exit {status}')
    return status
