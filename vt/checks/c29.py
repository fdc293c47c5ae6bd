"""C29: what was committed or saved survives a power failure."""
import gc
import os
import shutil

import toron

from vt import crash, gen, hist, oldfmt, power
from vt import state as S
from vt.base import Violation, brief, case_dir, file_bytes, rng_for
from vt.checks import c05

PROPERTY = 'C29'
LEVEL = 'fault_enumeration'
RULE = ('All calls that change or flush files made by operations on a bound file (also one of an older '
        'format, upgraded when opened) or by a flushing save are recorded with their data; at every moment '
        'of the recording the file system is left as a power failure may leave it - unflushed data lost, '
        'kept in part, out of order or torn, unflushed names lost or kept - and the files are opened. '
        'A situation is one (operation, last call, kind of loss, state found).')
ASSUMPTIONS = ['flushed data of a file and flushed names of a directory survive; sectors of 512 bytes are written whole',
               'changes of the names in one directory reach the drive in their order',
               'of a bound file, the last change may be undone when the removal of its journal was not yet flushed '
               '(the documented limit of SQLite on file systems that do not order it)',
               'saves with fsync=False promise nothing']
MIN = {'recordings': 80, 'failures': 8000, 'failures_lossy': 4000, 'found_before': 1500, 'found_after': 100,
       'saves': 20, 'save_failures': 1000, 'saved_old': 300, 'saved_new': 100, 'upgrades': 5,
       'upgrade_failures': 500, 'flushes': 400, 'undone': 10}
CASE_LIMIT = 240
MIX = gen.mix(1.0, label_order=0.5, attr_order=0.5)


def prepare(scratch):
    crash.build(scratch, 'recorder')


def plan(tier, seed):
    n = 260 if tier == 'quick' else 2500
    out = []
    for spec in hist.plan(PROPERTY, tier, seed, n, n, steps=8, bulk=()):
        rng = rng_for('c29', spec['seed'])
        spec['kind'] = rng.choice(['ops', 'ops', 'ops', 'save', 'save', 'old'])
        spec['big'] = rng.random() < 0.06
        spec['all'] = tier != 'quick'
        out.append(spec)
    return out


def contents(st, old=False):
    """*old*: the moment of the upgrade, given to files without a date, is not compared."""
    if old:
        st = st.copy()
        st.props.pop('created_date', None)
    return c05.contents(st)


class Case(c05.Case):
    ZYGOTE = 'recorder'

    def record(self, steps, target, copies):
        """(events, disk as it was) of one recorded run."""
        self.fresh(*copies)
        log = os.path.join(self.d.root, 'calls')
        r = self.z.record(self.watch, steps, log, target)
        self.rec.check(r.error is None and not r.died, lambda: f'{steps}: {r.error}')
        events = power.parse(log)
        os.unlink(log)
        after = {p: bytes(f.now) for p, f in power.Disk(self.watch).names.items()}
        self.fresh(*copies)
        disk = power.Disk(self.watch)
        try:
            for e in events:
                disk.step(e)
            same = {p: bytes(f.now) for p, f in disk.names.items()} == after
        except LookupError:
            same = False
        if not same or not r.count:
            # files changed in ways that are not recorded: nothing can be said
            self.rec.count('recordings_incomplete')
            return None, r
        self.rec.count('recordings')
        self.rec.count('flushes', sum(e.kind == 's' for e in events))
        return events, r

    def moments(self, events, copies, limit):
        """(number of events, disk, kinds of loss) for a choice of moments."""
        rng = self.rng
        every = range(1, len(events) + 1)
        if self.spec['all']:
            limit *= 6
        pick = set(every) if len(events) <= limit else set(rng.sample(every, limit))
        for n, e in enumerate(events, 1):       # around flushes, removals and renames
            if e.kind in 'sruk' and len(pick) < 2 * limit:
                pick |= {n, max(1, n - 1)}
        pick |= set(list(every)[-10:])
        self.fresh(*copies)
        disk = power.Disk(self.watch)
        marks = 0
        for n, e in enumerate(events, 1):
            disk.step(e)
            marks += e.kind == 'k'
            if n in pick:
                data, moves = disk.unflushed()
                kinds = [('none', 'all')]
                if data:
                    kinds += [('some', 'all')] * (3 if self.spec['all'] else 1)
                if moves:
                    kinds.append((rng.choice(['none', 'all']), 'some'))
                if data and moves:
                    kinds.append(('some', 'some'))
                yield n, marks, disk, kinds, e

    def leave(self, files):
        """Put the files on the drive."""
        shutil.rmtree(self.watch, ignore_errors=True)
        os.mkdir(self.watch)
        for p, data in files.items():
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, 'wb') as f:
                f.write(data)

    # ------------------------------------------------------- bound files
    def operations(self, base=None):
        rec, rng = self.rec, self.rng
        base = base or self.base
        target = os.path.join(self.watch, 'bound.toron')
        copies = [(base, 'bound.toron')]
        old = base != self.base
        self.fresh(*copies)
        space = toron.bind_file(target, mode='rw')
        states = [contents(S.read_state(target), old)]
        steps, results = [], []
        for _ in range(rng.choice([1, 1, 2]) if not old else rng.choice([0, 0, 1])):
            op = self.draw(S.read_state(target))
            steps.append(op)
            results.append(self.apply(space, op))
            states.append(contents(S.read_state(target), old))
        space = None
        gc.collect()
        events, r = self.record(steps, target, copies)
        rec.check([x[:40] for x in r.returned] == [x[:40] for x in results],
                  lambda: f'the same operations give {r.returned} and {results}')
        if not events:
            return
        rec.count('upgrades' if old else 'op_sequences')
        for n, k, disk, kinds, e in self.moments(events, copies, 60):
            for data, moves in kinds:
                files = disk.failure(rng, data, moves)
                before = [states[k]]
                if k + 1 < len(states):
                    before.append(states[k + 1])
                allowed = list(before)
                if moves == 'some':
                    j = k
                    while j > 0 and states[j] == states[k]:
                        j -= 1
                    allowed.append(states[j])
                op = steps[k]['op'] if k < len(steps) else 'end'
                what = (f'power lost after call {n} of {len(events)} ({e}), {k} of {len(steps)} operations returned '
                        f'({brief(steps[k] if k < len(steps) else steps[-1:], 400)}), unflushed data {data}, '
                        f'names {moves}, older format {old}')
                rec.count('failures')
                rec.count('upgrade_failures', old)
                rec.count('failures_lossy', files != {p: bytes(f.now) for p, f in disk.names.items()})
                self.leave(files)
                rec.check(target in files, lambda: f'{what}: the file is gone')
                how = rng.choice(['rw', 'rw', 'rw', 'read', 'cache'])
                try:
                    s = {'rw': lambda: toron.bind_file(target, mode='rw'), 'read': lambda: toron.read_file(target),
                         'cache': lambda: toron.read_file(target, cache_to_drive=True)}[how]()
                    st = S.space_state(s)
                except Exception as x:      # noqa: BLE001
                    rec.fail(f'{what}: opening it again ({how}) raises {type(x).__name__}: {x}; files {sorted(files)}')
                s = None
                got = contents(st, old)
                rec.check(not st.problems, lambda: f'{what}, opened {how}: {st.problems}')
                rec.check(got in allowed, lambda: f'{what}, opened {how}: neither the state before nor after; '
                                                  f'{S.diff(allowed[0], got)} / {S.diff(allowed[-1], got)}')
                if got not in before:
                    rec.count('undone')
                elif before[0] != before[-1]:
                    rec.count('found_before' if got == before[0] else 'found_after')
                rec.sig(('op', op, e.kind, data, moves, got == states[k], how, len(files), old))

    def older(self):
        old = self.d.aux('older.toron')
        try:
            if self.rng.random() < 0.5:
                raise ValueError
            oldfmt.to_020(self.base, old, self.rng)
        except ValueError:              # contents the oldest format cannot hold
            old = self.d.aux('older-030.toron')
            oldfmt.to_030(self.base, old)
        self.operations(old)

    # --------------------------------------------------------------- saves
    def saves(self):
        rec, rng = self.rec, self.rng
        kind = rng.choice(['mem', 'mem', 'cache', 'bound'])
        over = rng.choice([None, 'space', 'space', 'text', 'self'])
        if over == 'self':
            kind = 'bound'
        old = None
        if over == 'self':
            old = self.base
        elif over == 'space':
            old = self.d.aux('old.toron')
            s = toron.read_file(self.base)
            s.set_domain('older contents')
            s.to_file(old, fsync=False)
            s = None
        elif over == 'text':
            old = self.d.aux('old.toron')
            with open(old, 'wb') as f:
                f.write(b'just some text\n' * rng.choice([1, 1000]))
        src = self.d.aux('src.toron')
        shutil.copyfile(self.base, src)
        dest = os.path.join(self.watch, 'saved.toron')
        step = {'save': dest, 'fsync': True, 'from': None if kind == 'bound' else src, 'cache': kind == 'cache'}
        target = (dest if over == 'self' else src) if kind == 'bound' else None
        want = c05.look(self.base)[0]
        copies = [(old, 'saved.toron')] if old else []
        before = file_bytes(old) if old else None
        events, r = self.record([step], target, copies)
        rec.check(r.returned == ['ok'], lambda: f'{step}: {r.returned}')
        if not events:
            return
        rec.count('saves')
        for n, k, disk, kinds, e in self.moments(events, copies, 40):
            for data, moves in kinds + [('none', 'some')] * 2:
                files = disk.failure(rng, data, moves)
                what = (f'power lost after call {n} of {len(events)} ({e}) of saving ({kind}, over {over}), '
                        f'unflushed data {data}, names {moves}, {"after" if k else "before"} it returned')
                rec.count('failures')
                rec.count('save_failures')
                rec.count('failures_lossy', files != {p: bytes(f.now) for p, f in disk.names.items()})
                if dest not in files:
                    rec.check(old is None, lambda: f'{what}: the existing file is gone')
                    rec.check(not k, lambda: f'{what}: there is no file')
                    got = 'none'
                elif old is not None and files[dest] == before:
                    rec.check(not k or over == 'self', lambda: f'{what}: the file is the old one')
                    got = 'old'
                else:
                    self.leave(files)
                    try:
                        have, bad = c05.look(dest)
                    except Exception as x:      # noqa: BLE001
                        rec.fail(f'{what}: the file is neither the old one nor readable: {x!r}, '
                                 f'{len(files[dest])} bytes')
                    rec.check(have == want and not bad, lambda: f'{what}: the file is neither the old one nor the new '
                                                                f'one: {S.diff(want, have)} {bad}')
                    got = 'new'
                rec.count('saved_new' if got == 'new' else 'saved_old')
                rec.sig(('save', kind, over, e.kind, data, moves, got, k))


def run_case(spec, rec):
    rng = rng_for('case', spec['seed'])
    with case_dir() as d:
        c = None
        try:
            c = Case(spec, rec, rng, d)
            {'ops': c.operations, 'save': c.saves, 'old': c.older}[spec['kind']]()
        except Violation as e:
            tail = '\n'.join(f'      {x}' for x in (c.log if c else [])[-25:])
            raise Violation(f'{e.message}\n   case {spec["seed"]}:\n{tail}', mech=e.mech)
        rec.sample(f'case {spec["seed"]}: {spec["kind"]}; ' + '; '.join(x[:160] for x in c.log[-3:]))
