"""Environment set-up, recording and helpers shared by every check."""
import contextlib
import gc
import hashlib
import json
import logging
import os
import random
import shutil
import sys
import tempfile
import warnings

REPO = os.environ.get('VT_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

sys.dont_write_bytecode = True
_src = os.path.join(REPO, 'src')
if sys.path[0] != _src:
    sys.path.insert(0, _src)

from . import inject  # noqa: E402,F401  (wraps sqlite3.connect)
import toron  # noqa: E402

if not os.path.realpath(toron.__file__).startswith(os.path.realpath(_src) + os.sep):
    sys.stderr.write(f'toron imported from {toron.__file__}, expected {_src}\n')
    os._exit(3)

warnings.simplefilter('ignore')
logging.disable(logging.CRITICAL)


class Violation(Exception):
    """A property was observed to be broken."""

    def __init__(self, message, mech=None, data=None):
        super().__init__(message)
        self.message = message
        self.mech = mech
        self.data = data


class Inconclusive(Exception):
    """The oracle could not decide (environment problem, timeout)."""


class Rec(object):
    """Counters, signatures and samples observed by one worker/case."""

    def __init__(self):
        self.counters = {}
        self.sigs = set()
        self.samples = []
        self.evals = 0

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def ev(self, n=1):
        """Count one oracle evaluation."""
        self.evals += n

    def sig(self, obj):
        """Record a distinct non-trivial situation."""
        if len(self.sigs) < 200000:
            if not isinstance(obj, (str, bytes)):
                obj = repr(obj)
            if isinstance(obj, str):
                obj = obj.encode('utf-8', 'surrogatepass')
            self.sigs.add(int.from_bytes(hashlib.blake2b(obj, digest_size=8).digest(), 'big'))

    def sample(self, text):
        if len(self.samples) < 3:
            self.samples.append(str(text)[:600])

    def fail(self, message, mech=None, **data):
        raise Violation(message, mech=mech, data=data or None)

    def check(self, cond, message, mech=None, **data):
        self.evals += 1
        if not cond:
            raise Violation(message() if callable(message) else message, mech=mech, data=data or None)

    def eq(self, actual, expected, what):
        self.evals += 1
        if actual != expected:
            raise Violation(f'{what}:\n   observed {brief(actual)}\n   expected {brief(expected)}')

    def dump(self):
        return {'counters': self.counters, 'sigs': self.sigs,
                'samples': self.samples, 'evals': self.evals}


def brief(obj, limit=1500):
    text = repr(obj)
    return text if len(text) <= limit else text[:limit] + f'...[{len(text)} chars]'


def rng_for(*parts):
    return random.Random('|'.join(str(p) for p in parts))


# ---------------------------------------------------------------- scratch

_scratch = None


def scratch_root():
    """Return this process's scratch directory (created on first use)."""
    global _scratch
    if _scratch is None or _scratch[0] != os.getpid():
        base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else '/tmp'
        try:
            if shutil.disk_usage(base).free < 512 * 1024 * 1024:
                base = '/tmp'
        except OSError:
            base = '/tmp'
        parent = os.environ.get('VT_SCRATCH')
        if not parent or not os.path.isdir(parent):
            parent = base
        path = tempfile.mkdtemp(prefix='vt-', dir=parent)
        _scratch = (os.getpid(), path)
    return _scratch[1]


@contextlib.contextmanager
def case_dir():
    """A fresh directory for one case; also used as TMPDIR while active."""
    path = tempfile.mkdtemp(prefix='case-', dir=scratch_root())
    tmp = os.path.join(path, 'tmp')
    os.mkdir(tmp)
    old_env = os.environ.get('TMPDIR')
    old_tempdir = tempfile.tempdir
    old_cwd = os.getcwd()
    os.environ['TMPDIR'] = tmp
    tempfile.tempdir = tmp
    work = os.path.join(path, 'work')
    os.mkdir(work)
    os.chdir(work)
    try:
        yield CaseDir(path, work, tmp)
    finally:
        os.chdir(old_cwd)
        tempfile.tempdir = old_tempdir
        if old_env is None:
            os.environ.pop('TMPDIR', None)
        else:
            os.environ['TMPDIR'] = old_env
        gc.collect()
        shutil.rmtree(path, ignore_errors=True)


class CaseDir(object):
    def __init__(self, root, work, tmp):
        self.root, self.work, self.tmp = root, work, tmp
        self._n = 0

    def path(self, name=None):
        self._n += 1
        return os.path.join(self.work, name or f'f{self._n}.toron')

    def aux(self, name=None):
        """A path outside the work and temp dirs (for the monitor's own files)."""
        self._n += 1
        return os.path.join(self.root, name or f'aux{self._n}')


def file_bytes(path):
    with open(path, 'rb') as f:
        return f.read()


def canon(obj):
    return json.dumps(obj, sort_keys=True, default=repr, ensure_ascii=True)
