"""Process set-up shared by every check: pinned hashing, no stale bytecode,
hwtypes from /repo, hypothesis from the pre-installed tools venv."""
import contextlib
import os
import sys

sys.set_int_max_str_digits(0)

PY = '/opt/venv/bin/python'
REPO = os.environ.get('VERIF_REPO', '/repo')
TOOLS_SITE = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


@contextlib.contextmanager
def coverage():
    """with VERIF_COV=DIR, note which lines of hwtypes this process executes"""
    out = os.environ.get('VERIF_COV')
    if not out:
        yield
        return
    mon, seen = sys.monitoring, set()
    root = os.path.join(REPO, 'hwtypes') + os.sep

    def line(code, no):
        if code.co_filename.startswith(root):
            seen.add((code.co_filename[len(root):], no))
        return mon.DISABLE
    mon.use_tool_id(mon.COVERAGE_ID, 'verif')
    mon.register_callback(mon.COVERAGE_ID, mon.events.LINE, line)
    mon.set_events(mon.COVERAGE_ID, mon.events.LINE)
    try:
        yield
    finally:
        mon.set_events(mon.COVERAGE_ID, 0)
        with open(os.path.join(out, str(os.getpid())), 'w') as f:
            f.writelines(f'{n}:{i}\n' for n, i in sorted(seen))


class EnvError(Exception):
    """the sandbox, not the code under test, is at fault"""


def reexec():
    """Re-run under the project's interpreter with a pinned environment."""
    want = {'PYTHONHASHSEED': '0', 'PYTHONDONTWRITEBYTECODE': '1',
            'VERIF_BOOTED': '1'}
    if os.environ.get('VERIF_BOOTED') == '1':
        return
    env = dict(os.environ)
    env.update(want)
    for k in ('PYTHONPATH', 'PYTHONHOME', 'PYTHONSTARTUP', 'PYTHONWARNINGS',
              'PYTHONOPTIMIZE'):
        env.pop(k, None)
    exe = PY if os.path.exists(PY) else sys.executable
    os.execve(exe, [exe, '-X', 'pycache_prefix=/nonexistent-verif-pycache']
              + sys.argv, env)


class _ToolsFinder:
    """Lets only hypothesis and its one dependency in from the tools venv:
    putting the whole site-packages on the path changes how pysmt imports."""
    NAMES = {'hypothesis', '_hypothesis_globals', '_hypothesis_ftz_detector',
             'sortedcontainers', 'attr', 'attrs', 'atheris'}

    @classmethod
    def find_spec(cls, name, path=None, target=None):
        if path is None and name.split('.')[0] in cls.NAMES:
            from importlib.machinery import PathFinder
            return PathFinder.find_spec(name, [TOOLS_SITE])
        return None


def setup():
    os.environ['HYPOTHESIS_NO_PLUGINS'] = '1'
    sys.dont_write_bytecode = True
    if REPO in sys.path:
        sys.path.remove(REPO)
    sys.path.insert(0, REPO)
    try:
        import hypothesis  # noqa: F401
    except ImportError:
        sys.meta_path.append(_ToolsFinder)
        try:
            import hypothesis  # noqa: F401
        except ImportError as e:
            raise EnvError(f'hypothesis is not importable: {e}')
    import warnings
    warnings.simplefilter('ignore')
    import hwtypes
    here = os.path.realpath(os.path.dirname(hwtypes.__file__))
    if here != os.path.realpath(os.path.join(REPO, 'hwtypes')):
        raise EnvError(f'hwtypes imported from {here}, not {REPO}')
