"""C19: spaces never affect files or spaces they should not."""
import contextlib
import errno
import gc
import hashlib
import os
import pathlib
import resource
import shutil
import signal

import toron

from vt import flow, gen, hist, inject, model, ops, query, store, views
from vt import state as S
from vt.base import Violation, brief, case_dir, rng_for, scratch_root
from vt.checks.c07 import cover, sources

PROPERTY = 'C19'
LEVEL = 'fault_enumeration'
RULE = ('Worlds of several files and several spaces opened from them (in memory, cached, read-only, '
        'read-write): after every event (an operation, a batch of reads, a reader, a save, a failing '
        'save, a refused open) the bytes of every file, the directory listings and the contents of '
        'every other space must be as before; saves are failed at database statements, at file-system '
        'calls, by a file-size limit at any byte and by bad destinations. A situation is one (event, '
        'access mode, outcome, how many other spaces share its file).')
ASSUMPTIONS = ['a save that fails only after the finished file was moved into place (flushing the '
               'directory) leaves the complete new content',
               'saving to the very path of a read-only binding is not a change through it']
MIN = {'events': 6917, 'ops_mem': 900, 'ops_cache': 500, 'ops_rw': 500, 'ops_ro': 900,
       'ro_refused': 400, 'ro_would_change': 400, 'saves_ok': 500, 'save_faults': 900,
       'fault_sql': 150, 'fault_os': 150, 'fault_size': 100, 'fault_dest': 114,
       'readers_checked': 150, 'others_checked': 15000, 'reads': 363, 'bad_opens': 200,
       'sources_deleted': 8, 'bystanders': 400, 'tmp_clean': 300, 'flows_with_rows': 150}
MIX = gen.mix(1.0)
CASE_LIMIT = 120

inject.ENABLED = True


def plan(tier, seed):
    return hist.plan(PROPERTY, tier, seed, 480, 5000, steps=30 if tier == 'quick' else 45,
                     bulk=(80, 140))


def digest(path):
    with open(path, 'rb') as f:
        return hashlib.blake2b(f.read(), digest_size=12).hexdigest()


def listing(root):
    """{relative path: digest or 'dir'} of everything below root."""
    out = {}
    for base, dirs, files in os.walk(root):
        for n in dirs:
            out[os.path.relpath(os.path.join(base, n), root)] = 'dir'
        for n in files:
            p = os.path.join(base, n)
            out[os.path.relpath(p, root)] = digest(p)
    return out


def is_database(path):
    with open(path, 'rb') as f:
        return f.read(15) == b'SQLite format 3'


class Actor(object):
    def __init__(self, name, space, mode, path):
        self.name, self.space, self.mode, self.path = name, space, mode, path
        self.state = None
        self.readers = []

    def __repr__(self):
        return f'{self.name} ({self.mode} of {os.path.basename(self.path or "-")})'


class OsFault(object):
    """Fails the n-th file-system call of the main thread while active."""
    NAMES = ('replace', 'rename', 'chmod', 'open', 'fsync', 'link', 'truncate', 'write')

    def __init__(self, at, exc):
        self.at, self.exc, self.n, self.fired = at, exc, 0, None

    def __enter__(self):
        self.real = {}
        for name in self.NAMES:
            if hasattr(os, name):
                f = self.real[name] = getattr(os, name)
                setattr(os, name, self.wrap(name, f))
        return self

    def wrap(self, name, f):
        def call(*args, **kwds):
            self.n += 1
            if self.n == self.at:
                self.fired = name
                raise self.exc()
            return f(*args, **kwds)
        return call

    def __exit__(self, *exc):
        for name, f in self.real.items():
            setattr(os, name, f)


@contextlib.contextmanager
def size_limit(n):
    old = resource.getrlimit(resource.RLIMIT_FSIZE)
    sig = signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
    resource.setrlimit(resource.RLIMIT_FSIZE, (n, old[1]))
    try:
        yield
    finally:
        resource.setrlimit(resource.RLIMIT_FSIZE, old)
        signal.signal(signal.SIGXFSZ, sig)


class World(object):
    def __init__(self, spec, rec, rng, d):
        self.rec, self.rng, self.d = rec, rng, d
        self.others = sources(rng, rec)
        self.env = ops.Env(self.others)
        ids = {k: [r[0] for r in s.select_index()] for k, s in self.others.items()}
        self.gen = gen.Gen(rng, self.env, weights=MIX, size=spec['size'], wild=spec['wild'], other_ids=ids)
        self.gen.bulk = spec.get('bulk', 0)
        rec.count('bulk_histories', bool(self.gen.bulk))
        self.actors = []
        self.log = []
        self.n = 0
        self.other_states = None

    # ------------------------------------------------------------ monitor
    def bound(self, path):
        return [a for a in self.actors if a.path == path and a.mode in ('ro', 'rw')]

    def read(self, a):
        if a.mode in ('ro', 'rw') and self.rng.random() < 0.7:
            return S.read_state(a.path)
        return S.space_state(a.space)

    def before(self):
        if self.rng.random() < 0.1:
            self.bystander()
        return listing(self.d.work)

    def bystander(self):
        """A file of somebody else, named like one of the spaces' files."""
        path = self.rng.choice(self.files(all=True) or [os.path.join(self.d.work, 'new.toron')])
        stem = os.path.splitext(path)[0]
        d, name = os.path.split(path)
        p = self.rng.choice([stem + '.temp', stem + '.tmp', path + '.temp', path + '.tmp', path + '~', path + '.bak',
                             stem + '-.temp', stem, os.path.join(d, '.' + name), os.path.join(d, 'temp'),
                             stem + '.temp', path + '.new', path + '.part', stem + '.bak'])
        if not os.path.lexists(p) and not p.endswith('.toron'):
            with open(p, 'w') as f:
                f.write('somebody else was here')
            self.rec.count('bystanders')

    def settle(self, what, pre, changed=(), files=(), new=(), gone=()):
        """After an event only *changed* actors and *files* may be different."""
        rec = self.rec
        post = listing(self.d.work)
        rel = lambda p: os.path.relpath(p, self.d.work)
        files, new, gone = ({rel(p) for p in x} for x in (files, new, gone))
        for name in sorted(set(pre) | set(post)):
            if name in files and name in post and name in pre:
                continue
            if name in new and name in post:
                continue
            if name in gone and name not in post:
                continue
            rec.check(pre.get(name) == post.get(name),
                      lambda: f'{what}: {name!r} went from {pre.get(name)} to {post.get(name)}')
        for a in self.actors:
            st = self.read(a)
            if a in changed or (a.mode in ('ro', 'rw') and rel(a.path) in files):
                a.state = st
                if a.readers:
                    a.readers = []
                continue
            now = S.full(st)
            rec.check(now == S.full(a.state), lambda: f'{what}: changed {a}: {S.diff(S.full(a.state), now)}')
            a.state = st
            rec.count('others_checked')
        for a in self.actors:
            if self.rng.random() < 0.35:
                views.light(rec, a.space, a.state, f'{what}: listing {a}')
                rec.count('others_listed')
        rec.count('events')

    def note(self, text):
        self.log.append(text[:500])

    # ------------------------------------------------------------- actors
    def start(self, path, mode):
        if mode == 'new':
            space = toron.DataSpace(cache_to_drive=self.rng.random() < 0.5)
        else:
            if mode == 'ro' and self.rng.random() < 0.3:
                os.chmod(path, 0o444)
            try:
                space = store.load(path, {'rw': 'file'}.get(mode, mode))
            finally:
                if mode == 'ro':
                    os.chmod(path, 0o644)
        self.n += 1
        a = Actor(f'#{self.n}', space, mode if mode != 'new' else 'mem', path if mode != 'new' else None)
        a.state = self.read(a)
        self.actors.append(a)
        return a

    def files(self, all=False):
        out = sorted(os.path.join(self.d.work, n) for n in listing(self.d.work) if n.endswith('.toron'))
        return out if all else [p for p in out if is_database(p)]

    # ------------------------------------------------------------- events
    def ev_open(self):
        files = self.files()
        if not files or len(self.actors) > 6:
            return self.ev_close()
        path = self.rng.choice(files)
        mode = self.rng.choice(['mem', 'cache', 'ro', 'ro', 'rw'])
        pre = self.before()
        a = self.start(path, mode)
        self.note(f'open {a}')
        self.settle(f'opening {a}', pre)
        expect = S.full(S.read_state(path))
        self.rec.check(S.full(a.state) == expect,
                       lambda: f'opening {a}: contents differ from the file: {S.diff(expect, S.full(a.state))}')
        self.rec.sig(('open', mode, len(self.bound(path)), a.space.domain != ''))

    def ev_close(self):
        if len(self.actors) < 3:
            return
        a = self.actors.pop(self.rng.randrange(len(self.actors)))
        pre = self.before()
        text = f'closing {a}'
        self.note(text)
        a.readers, a.space = [], None
        a = None
        gc.collect()
        self.settle(text, pre)

    def ev_op(self):
        a = self.rng.choice(self.actors)
        if a.mode == 'ro':
            return self.refused(a)
        op = self.gen.op(a.state)
        pre = self.before()
        try:
            ops.apply(a.space, op, self.env)
            out = 'ok'
        except Exception as e:      # noqa: BLE001
            out = f'{type(e).__name__}: {e}'
        self.note(f'{a}: {brief(op, 300)} -> {out[:80]}')
        self.rec.count(f'ops_{a.mode}')
        self.settle(f'{brief(op, 600)} on {a}', pre, [a], [a.path] if a.mode == 'rw' else ())
        if a.mode == 'rw':
            # every other binding of the file sees the same contents
            for b in self.bound(a.path):
                self.rec.check(S.full(b.state) == S.full(a.state),
                               lambda: f'{a} and {b} show different contents: '
                                       f'{S.diff(S.full(a.state), S.full(b.state))}')
        self.rec.sig(('op', a.mode, op['op'], out[:20], len(self.bound(a.path))))

    def refused(self, a):
        """An operation through a read-only binding."""
        rec = self.rec
        op = self.gen.op(a.state)
        copy = self.d.aux()
        shutil.copyfile(a.path, copy)
        twin = toron.read_file(copy)
        before = S.full(a.state)
        try:
            ops.apply(twin, op, self.env)
            expected = None
        except Exception as e:      # noqa: BLE001
            expected = e
        would = S.full(S.space_state(twin)) != before
        twin = None
        os.unlink(copy)
        pre = self.before()
        try:
            ops.apply(a.space, op, self.env)
            err = None
        except Exception as e:      # noqa: BLE001
            err = e
        self.note(f'{a}: {brief(op, 300)} -> {err!r}'[:400])
        what = f'{brief(op, 600)} on {a}'
        self.settle(what, pre)
        rec.count('ops_ro')
        rec.count('ro_would_change', would)
        rec.count('ro_refused', err is not None)
        if would or expected is not None:
            rec.check(err is not None, lambda: f'{what}: accepted through a read-only binding '
                                               f'(elsewhere it {"changes the contents" if would else "is refused"})')
        rec.sig(('ro', op['op'], would, err is None, type(err).__name__))

    def ev_read(self):
        a = self.rng.choice(self.actors)
        pre = self.before()
        snap = query.snapshot(a.space, self.others, self.rng.choice([(), ('[category]',)]))
        self.rec.count('reads')
        self.rec.count('flows_with_rows', snap['disaggregated'][0] == 'ok' and
                       len(snap['disaggregated'][1][1]) > 0)
        self.note(f'read {a}')
        self.settle(f'reading everything from {a}', pre)
        self.rec.sig(('read', a.mode, len(self.bound(a.path))))

    def ev_reader(self):
        """A reader opened now and finished later gives the contents of its own space."""
        a = self.rng.choice(self.actors)
        pre = self.before()
        sel = self.rng.choice([(), ('[category]',)])
        try:
            r = a.space(*sel)
            rows = sorted((tuple(x) for x in r), key=repr)
            late = a.space(*sel)
        except Exception as e:      # noqa: BLE001
            self.note(f'reader of {a}: {e!r}')
            return self.settle(f'a refused reader of {a}', pre)
        head = []
        if self.rng.random() < 0.5:
            for row in late:
                head.append(tuple(row))
                if len(head) >= 2:
                    break
        a.readers.append((late, rows, head))
        self.note(f'reader of {a} ({len(rows)} rows)')
        self.settle(f'opening a reader of {a}', pre)

    def ev_finish(self):
        todo = [(a, r) for a in self.actors for r in a.readers]
        if not todo:
            return self.ev_reader()
        a, (late, rows, head) = self.rng.choice(todo)
        pre = self.before()
        # drop it for good whatever happens
        a.readers = [r for r in a.readers if r[0] is not late]
        got = sorted(head + [tuple(x) for x in late], key=repr)
        late.close()
        late = None
        self.rec.check(got == rows, lambda: f'a reader of {a}, finished after other spaces changed, gave '
                                            f'{brief(got, 400)} instead of {brief(rows, 400)}; '
                                            f'{self.log[-6:]}')
        self.rec.count('readers_checked')
        self.note(f'reader of {a} finished')
        self.settle(f'finishing a reader of {a}', pre)

    def destination(self, a):
        """A path no other space is bound to."""
        files = [p for p in self.files(True) if not self.bound(p)]
        if files and self.rng.random() < 0.6 and len(self.files()) > 1:
            return self.rng.choice(files)
        sub = os.path.join(self.d.work, self.rng.choice(['.', '.', 'sub', 'sub dir']))
        os.makedirs(sub, exist_ok=True)
        return os.path.normpath(os.path.join(sub, f's{self.rng.randint(0, 40)}.toron'))

    def ev_save(self):
        a = self.rng.choice(self.actors)
        path = self.destination(a)
        if self.bound(path):
            return
        existed = os.path.exists(path)
        pre = self.before()
        a.space.to_file(path, fsync=self.rng.random() < 0.4)
        self.rec.count('saves_ok')
        self.note(f'{a} saved to {os.path.basename(path)}')
        self.settle(f'saving {a} to {path!r}', pre, (), [path], [path])
        now = S.full(S.read_state(path))
        self.rec.check(now == S.full(a.state), lambda: f'saving {a} to {path!r}: {S.diff(S.full(a.state), now)}')
        self.rec.sig(('save', a.mode, existed))

    def ev_failing_save(self):
        rng, rec = self.rng, self.rec
        a = rng.choice(self.actors)
        path = self.destination(a)
        if self.bound(path):
            return
        if not os.path.exists(path) and rng.random() < 0.3:
            with open(path, 'wb') as f:
                f.write(b'something else' * rng.randint(0, 4000))
        kind = rng.choice(['sql', 'sql', 'os', 'os', 'size', 'dest'])
        fsync = rng.random() < 0.6
        getattr(self, 'fail_' + kind)(a, path, fsync)

    def fail_sql(self, a, path, fsync):
        rng = self.rng
        probe = inject.Plan()
        scrap = self.d.aux()
        inject.arm(probe)
        try:
            a.space.to_file(scrap, fsync=fsync)
        finally:
            inject.disarm()
        os.unlink(scrap)
        if not probe.n:
            return
        at = rng.randint(1, probe.n)
        p = inject.Plan(at, rng.choice(['err', 'kbd', 'mid', 'kbd']))
        inject.arm(p)
        try:
            self.attempt(a, path, fsync, 'sql', lambda: p.fired and f'{p.kind} at {at}/{probe.n} {p.fired[:60]!r}')
        finally:
            inject.disarm()

    def fail_os(self, a, path, fsync):
        exc = self.rng.choice([lambda: OSError(errno.EIO, 'injected'), lambda: OSError(errno.ENOSPC, 'injected'),
                               lambda: PermissionError(errno.EACCES, 'injected'),
                               lambda: KeyboardInterrupt('injected')])
        f = OsFault(self.rng.randint(1, 6), exc)
        self.attempt(a, path, fsync, 'os', lambda: f.fired and f'{exc()!r} from call {f.at} ({f.fired})', f)

    def fail_size(self, a, path, fsync):
        scrap = self.d.aux()
        a.space.to_file(scrap, fsync=False)
        full = os.path.getsize(scrap)
        os.unlink(scrap)
        n = self.rng.choice([0, 1, 4096, full - 1, full // 2, self.rng.randrange(full)])
        self.attempt(a, path, fsync, 'size', lambda: f'file size limited to {n} of {full}', size_limit(n))

    def fail_dest(self, a, path, fsync):
        rng = self.rng
        what = rng.choice(['directory', 'missing directory', 'file as directory', 'nul', 'denied', 'denied file'])
        ctx, exists = None, ''
        if what == 'directory':
            path = os.path.join(self.d.work, 'a dir.toron')
            os.makedirs(os.path.join(path, 'x'), exist_ok=True)
        elif what == 'missing directory':
            path = os.path.join(self.d.work, 'nowhere', 'x.toron')
        elif what == 'file as directory':
            path = os.path.join(rng.choice(self.files()), 'x.toron')
        elif what == 'nul':
            path = path + '\0x'
        else:
            return self.denied(a, path, fsync, what)
        try:
            self.attempt(a, path, fsync, 'dest', lambda: what, ctx, must=True)
        finally:
            if what == 'directory':
                shutil.rmtree(path)

    def denied(self, a, path, fsync, what):
        """Without the permission to write there (a process of an unprivileged user)."""
        if a.mode != 'mem':
            return
        if not os.path.exists(path):
            toron.DataSpace().to_file(path, fsync=False)
        dirname = os.path.dirname(path)
        self.actors_modes = None
        pre = self.before()
        os.chmod(path, 0o444)
        old = {}
        for p in (scratch_root(), os.path.dirname(self.d.work), self.d.work, dirname,
                  os.environ.get('VT_SCRATCH')):
            if p and os.path.isdir(p):
                old[p] = os.stat(p).st_mode & 0o7777
                os.chmod(p, 0o755)
        if what == 'denied file':
            os.chmod(dirname, 0o777)
        pid = os.fork()
        if not pid:
            code = 9
            try:
                os.setgroups([])
                os.setgid(65534)
                os.setuid(65534)
                try:
                    a.space.to_file(path, fsync=fsync)
                    code = 1
                except Exception:       # noqa: BLE001
                    code = 0
            finally:
                os._exit(code)
        code = os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1])
        os.chmod(path, 0o644)
        for p, m in old.items():
            os.chmod(p, m)
        if code == 9:
            return self.rec.count('no_unprivileged_user')
        self.note(f'{a} not allowed to save to {os.path.basename(path)} ({what})')
        self.rec.count('fault_dest')
        self.rec.count('save_faults')
        self.rec.check(code == 0, f'saving {a} to {path!r} without permission ({what}) succeeded')
        self.settle(f'saving {a} to {path!r} without permission ({what})', pre)
        self.rec.sig(('denied', what, fsync))

    def attempt(self, a, path, fsync, kind, fired, ctx=None, must=False):
        rec = self.rec
        pre = self.before()
        existed = os.path.exists(path) if '\0' not in path else False
        err = None
        with (ctx or contextlib.nullcontext()):
            try:
                a.space.to_file(path, fsync=fsync)
            except (Exception, KeyboardInterrupt) as e:     # noqa: BLE001
                e.__traceback__ = None
                err = e
        inject.disarm()
        hit = fired()
        what = f'saving {a} to {path!r} (fsync={fsync}, fault: {hit}) -> {err!r}'
        self.note(what)
        rec.count('save_faults', bool(hit))
        rec.count(f'fault_{kind}', bool(hit))
        rec.sig(('fault', kind, str(hit)[:40], a.mode, fsync, existed, type(err).__name__))
        if err is None:
            rec.check(not must, lambda: f'{what}: accepted')
            self.settle(what, pre, (), [path], [path])
            now = S.full(S.read_state(path))
            rec.check(now == S.full(a.state), lambda: f'{what}: {S.diff(S.full(a.state), now)}')
            rec.count('saved_anyway')
            return
        done = False
        if hit and kind == 'os' and fsync:
            # the file may already have been moved into place
            name = os.path.relpath(path, self.d.work)
            post = listing(self.d.work)
            if name in post and post[name] != pre.get(name):
                now = S.full(S.read_state(path))
                rec.check(now == S.full(a.state), lambda: f'{what}: the destination holds neither its '
                                                          f'previous nor the new content')
                done = True
                rec.count('failed_after_move')
        self.settle(what, pre, (), [path] if done else (), [path] if done else ())

    def ev_bad_open(self):
        """Opening what is no space is refused and touches nothing."""
        rng = self.rng
        kind = rng.choice(['garbage', 'empty', 'missing', 'directory', 'database'])
        path = os.path.join(self.d.work, f'bad {kind}')
        if kind == 'garbage':
            with open(path, 'wb') as f:
                f.write(bytes(rng.randrange(256) for _ in range(rng.choice([3, 100, 5000]))))
        elif kind == 'empty':
            open(path, 'wb').close()
        elif kind == 'directory':
            os.makedirs(path, exist_ok=True)
        elif kind == 'database':
            import sqlite3
            con = sqlite3.Connection(path)
            con.execute('CREATE TABLE IF NOT EXISTS t (x)')
            con.commit()
            con.close()
        mode = rng.choice(['mem', 'cache', 'ro', 'file'])
        form = rng.choice([path, os.fsencode(path), pathlib.Path(path)])
        pre = self.before()
        try:
            store.load(form, mode)
            err = None
        except Exception as e:      # noqa: BLE001
            e.__traceback__ = None
            err = e
        gc.collect()
        self.note(f'open {kind} as {mode} -> {err!r}')
        what = f'opening {kind} as {mode}'
        self.rec.check(err is not None, f'{what}: accepted')
        self.settle(what, pre)
        self.rec.count('bad_opens')
        self.rec.sig(('bad', kind, mode, type(err).__name__))
        if kind == 'directory':
            os.rmdir(path)
        elif os.path.exists(path):
            os.unlink(path)

    def ev_delete_file(self):
        """Removing the file a space was read from does not matter to that space."""
        paths = [p for p in self.files() if not self.bound(p)]
        if len(paths) < 2:
            return
        path = self.rng.choice(paths)
        pre = self.before()
        os.unlink(path)
        self.note(f'deleted {os.path.basename(path)}')
        if any(a.path == path for a in self.actors):
            self.rec.count('sources_deleted')
        self.settle(f'deleting {path!r}', pre, (), (), (), [path])


EVENTS = {'ev_op': 12, 'ev_open': 4, 'ev_close': 1.2, 'ev_read': 1.5, 'ev_reader': 2, 'ev_finish': 2,
          'ev_save': 2, 'ev_failing_save': 4, 'ev_bad_open': 0.8, 'ev_delete_file': 1.2}


def seed_file(w, spec):
    """One file with contents reached by a random history."""
    space = toron.DataSpace()
    st = S.space_state(space)

    def step(op):
        nonlocal st
        try:
            ops.apply(space, op, w.env)
        except Exception:       # noqa: BLE001
            pass
        st = S.space_state(space)
    for f in gen.base_ops(w.gen, w.rng):
        op = f(st)
        if op:
            step(op)
    for _ in range(w.rng.randint(0, 6)):
        step(w.gen.op(st))
    if w.rng.random() < 0.7:
        for op in flow.heal(st, w.gen, 0.9):
            step(op)
        if st.links:
            step(cover(st, w.gen, w.rng))
    space.to_file(w.d.path(), fsync=False)


def run_case(spec, rec):
    rng = rng_for('case', spec['seed'])
    with case_dir() as d:
        w = World(spec, rec, rng, d)
        try:
            for _ in range(rng.randint(1, 2)):
                seed_file(w, spec)
            path = w.files()[0]
            for mode in rng.sample(['mem', 'cache', 'ro', 'rw'], 3):
                w.start(path, mode)
            if rng.random() < 0.2:
                w.start(None, 'new')
            base = {k: S.full(S.space_state(s)) for k, s in w.others.items()}
            names, weights = list(EVENTS), list(EVENTS.values())
            for _ in range(spec['steps']):
                getattr(w, rng.choices(names, weights)[0])()
            for k, s in w.others.items():
                now = S.full(S.space_state(s))
                rec.check(now == base[k], lambda: f'space {k}, only referred to, changed: {S.diff(base[k], now)}')
            w.actors = []
            gc.collect()
            left = sorted(os.listdir(d.tmp))
            rec.check(not left, lambda: f'temporary files left behind: {left}')
            rec.count('tmp_clean')
        except Violation as e:
            tail = '\n'.join(f'      {x}' for x in w.log[-8:])
            raise Violation(f'{e.message}\n   world {spec["seed"]}:\n{tail}', mech=e.mech)
        finally:
            inject.disarm()
            w.actors = []
            w.others = None
            gc.collect()
        rec.sample(f'world {spec["seed"]}: ' + '; '.join(x[:120] for x in w.log[-4:]))
