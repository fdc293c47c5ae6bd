"""C22: concurrent users of one file see and make only whole operations."""
import gc
import json
import os
import shutil
import time

import toron

from vt import cli, gen, hist, inject, ops, query
from vt import state as S
from vt.base import Violation, brief, case_dir, rng_for

PROPERTY = 'C22'
LEVEL = 'exploration'
RULE = ('Two bindings of one file: while one operation (or read, or save) is under way, another is run '
        'to its end at each database event in turn; several bindings take turns; the same in the middle of a command line edit; and several processes '
        'work at once with random delays. Every outcome must be explained by some serial order of the '
        'operations that succeeded, consistent with time. A situation is one (operation, other '
        'operation, event, outcomes).')
ASSUMPTIONS = ['an operation or read may fail because the file is locked, then it has no effect']
MIN = {'gaps': 1500, 'gaps_both_ok': 200, 'gaps_one_failed': 300, 'read_gaps': 1500, 'read_gaps_written': 200,
       'turns': 208, 'turn_reads': 1500, 'histories': 40, 'process_ops': 300, 'process_ok': 150,
       'overlaps': 60, 'command_gaps': 600, 'command_gaps_both_ok': 250, 'command_backups': 300, 'process_reads': 40, 'kept_iterators': 60}
CASE_LIMIT = 240

inject.ENABLED = True
MIX = gen.mix(1.0)
# Reads made of one database query (or of one transaction).
SINGLE = ('domain', 'index_columns', 'partitions', 'attributes', 'max_index_id', 'groups', 'default', 'links', 'save')
READS = ('domain', 'index_columns', 'label order', 'partitions', 'attributes', 'index', 'groups', 'links',
         'quantities', 'quantities2', 'without index', 'unmatched', 'all weights', 'disaggregated',
         'disaggregated whole')


def plan(tier, seed):
    n = 300 if tier == 'quick' else 4000
    out = []
    for k, spec in enumerate(hist.plan(PROPERTY, tier, seed, n, n, steps=8, bulk=())):
        rng = rng_for('c22', spec['seed'])
        spec['kind'] = rng.choice(['gap', 'gap', 'gap', 'read', 'read', 'turns', 'processes', 'processes', 'command'])
        if k % 5 == 4:
            spec['kind'] = 'stale'
        spec['deep'] = tier != 'quick'
        out.append(spec)
    return out


class Gap(inject.Plan):
    """Runs something in the middle of an operation."""
    def __init__(self, at=None, call=None):
        super().__init__(at)
        self.call = call
        self.done = False
        self.sqls = []

    def event(self, letter, sql=''):
        self.n += 1
        self.trace.append(letter)
        self.sqls.append(sql)
        if self.at is not None and self.n == self.at and not self.done:
            self.done = True
            inject.disarm()
            try:
                self.call()
            finally:
                inject.arm(self)
        return False


def full(st):
    return S.full(st)


class Commands(object):
    """Another binding changes the file in the middle of a command line edit."""
    KINDS = ['c_add_attribute', 'c_update_weight'] * 3 + \
        ['c_add_label', 'c_add_weight', 'c_add_partition', 'c_update_label', 'c_update_attribute', 'c_rename_label',
         'c_rename_domain', 'c_index_load', 'c_quantity_load']

    def __init__(self, spec, rec, rng, d):
        from vt.checks.c26 import World
        self.spec, self.rec, self.rng = spec, rec, rng
        self.w = World(rec, rng, d)
        self.log = self.w.log
        self.base = {p: d.aux(f'base{i}') for i, p in enumerate(self.w.paths)}
        for p, b in self.base.items():
            shutil.copyfile(p, b)

    def reset(self):
        for p, b in self.base.items():
            shutil.copyfile(b, p)
            k = self.backup(p)
            if os.path.isfile(k):
                os.remove(k)

    @staticmethod
    def backup(path):
        return os.path.join(os.path.dirname(path), 'backup-' + os.path.basename(path))

    def draw(self):
        """A command editing one file and another edit of the same file."""
        w, rng = self.w, self.rng
        for _ in range(200):
            kind = rng.choice(self.KINDS)
            a = getattr(w, kind)(rng.randrange(3))
            if a is None or len(a.files) != 1:
                continue
            i = a.files[0]
            if os.path.isdir(self.backup(w.paths[i])):
                continue
            if rng.random() < 0.5:
                # a related one
                b = getattr(w, kind)(i)
            else:
                b = getattr(w, rng.choice(self.KINDS))(i)
            if b is None or b.files != [i]:
                continue
            return a, b, i
        return None

    def other(self, b, path):
        """The other edit through the API or as a command, without its backup."""
        try:
            if self.api:
                b.api(toron.bind_file(path, mode='rw'))
                return 'ok'
            r = cli.run(b.argv if '--no-backup' in b.argv else b.argv + ['--no-backup'], b.stdin)
            return 'ok' if r.ok else f'exit {r.code!r}: {r.exc!r} {r.err[-200:]}'
        except Exception as e:      # noqa: BLE001
            return f'{type(e).__name__}: {e}'

    def command(self, a):
        r = cli.run(a.argv, a.stdin)
        return 'ok' if r.ok else f'exit {r.code!r}: {r.exc!r} {r.err[-200:]}'

    def run(self):
        rec, rng, w = self.rec, self.rng, self.w
        for _ in range(4 if self.spec['deep'] else 3):
            drawn = self.draw()
            if drawn is None:
                continue
            a, b, i = drawn
            p = w.paths[i]
            self.api = rng.random() < 0.5

            def serial(*todo):
                self.reset()
                for f in todo:
                    if f() != 'ok':
                        return None
                return full(S.read_state(p))
            x = serial()
            fa, fb = serial(lambda: self.command(a)), serial(lambda: self.other(b, p))
            fab = serial(lambda: self.command(a), lambda: self.other(b, p))
            fba = serial(lambda: self.other(b, p), lambda: self.command(a))
            self.reset()
            counter = Gap()
            inject.arm(counter)
            try:
                self.command(a)
            finally:
                inject.disarm()
            n = counter.n
            pts = range(1, n + 1)
            if not self.spec['deep'] and n > 36:
                pts = rng.sample(pts, 36)
            for at in pts:
                self.reset()
                res = {}
                plan = Gap(at, lambda: res.update(b=self.other(b, p)))
                inject.TIMEOUT = 0.01
                inject.arm(plan)
                try:
                    res['a'] = self.command(a)
                finally:
                    inject.disarm()
                    inject.TIMEOUT = None
                gc.collect()
                what = (f'{"the operation of " if self.api else ""}{brief(b.argv[1:], 300)} {brief(b.stdin, 300)} at '
                        f'event {at} of {n} ({plan.trace[at - 1:at]}) of {brief(a.argv[1:], 300)} '
                        f'{brief(a.stdin, 300)}: {res.get("b")} / {res["a"]}')
                st = S.read_state(p)
                rec.check(not st.problems, lambda: f'{what}: {st.problems}')
                got = full(st)
                oka, okb = res['a'] == 'ok', res.get('b') == 'ok'
                allowed = [fab, fba] if oka and okb else [fa] if oka else [fb] if okb else [x]
                allowed = [v for v in allowed if v is not None]
                rec.check(got in allowed, lambda: f'{what}: no serial order explains the contents; '
                          + (f'from one: {S.diff(allowed[0], got)}' if allowed else 'in none do they all succeed'))
                k = self.backup(p)
                if os.path.isfile(k):
                    kept = full(S.read_state(k))
                    rec.check(kept == x or okb and kept == fb, lambda: f'{what}: the backup is neither the contents '
                              f'before nor those in between: {S.diff(x, kept)}')
                    rec.count('command_backups')
                rec.count('command_gaps')
                rec.count('command_gaps_both_ok', oka and okb)
                rec.sig(('command', a.kind, b.kind, res['a'][:12], str(res.get('b'))[:12], plan.trace[at - 1:at]))
            self.log.append(f'{a.kind} / {b.kind}')


class Case(object):
    def __init__(self, spec, rec, rng, d):
        self.spec, self.rec, self.rng, self.d = spec, rec, rng, d
        from vt.checks.c07 import sources
        self.others = sources(rng, rec)
        self.env = ops.Env(self.others)
        ids = {k: [r[0] for r in s.select_index()] for k, s in self.others.items()}
        self.gen = gen.Gen(rng, self.env, weights=MIX, size=spec['size'], wild=0.03, other_ids=ids)
        self.log = []
        space = toron.DataSpace()
        for f in gen.base_ops(self.gen, rng):
            op = f(S.space_state(space))
            if op:
                self.apply(space, op)
        for _ in range(rng.randint(0, spec['steps'])):
            self.apply(space, self.gen.op(S.space_state(space)))
        self.base = d.aux('base.toron')
        space.to_file(self.base, fsync=False)

    def apply(self, space, op):
        try:
            ops.apply(space, op, self.env)
            res = 'ok'
        except Exception as e:      # noqa: BLE001
            res = f'{type(e).__name__}: {e}'
        self.log.append(f'{brief(op, 300)} -> {res[:60]}')
        return res

    def draw(self, st):
        for _ in range(6):
            op = self.gen.op(st)
            if op.get('rows', True):
                break
        return self.fixed(st, op)

    @staticmethod
    def fixed(st, op):
        """The operation with its mapping levels as bytes, so that nothing is read to make it."""
        if 'mapping_level' not in op.get('columns', ()):
            return op
        pos = list(op['columns']).index('mapping_level')
        rows = []
        for r in op['rows']:
            r = list(r)
            if pos < len(r) and r[pos] is not None and r[pos] != '!' and not isinstance(r[pos], str):
                r[pos] = ops.level_bytes(st.columns, r[pos]).hex()
            rows.append(r)
        return dict(op, rows=rows)

    def serial(self, *todo):
        """The state after the operations one after another, or None if one fails."""
        p = self.d.path()
        shutil.copyfile(self.base, p)
        s = toron.bind_file(p, mode='rw')
        for op in todo:
            if self.apply(s, op) != 'ok':
                return None
        s = None
        return full(S.read_state(p))

    def copy(self):
        p = self.d.path()
        shutil.copyfile(self.base, p)
        return p

    # ------------------------------------------------------------ gaps
    def gaps(self):
        rec, rng = self.rec, self.rng
        start = S.read_state(self.base)
        x = full(start)
        for _ in range(3 if self.spec['deep'] else 2):
            a, b = self.draw(start), self.draw(start)
            if rng.random() < 0.3:
                b = self.draw(start) if rng.random() < 0.5 else dict(a)
            fa, fb, fab, fba = self.serial(a), self.serial(b), self.serial(a, b), self.serial(b, a)
            p = self.copy()
            s = toron.bind_file(p, mode='rw')
            counter = Gap()
            inject.arm(counter)
            try:
                self.apply(s, a)
            finally:
                inject.disarm()
            s = None
            n = counter.n
            pts = range(1, n + 1)
            if not self.spec['deep'] and n > 16:
                pts = rng.sample(pts, 16)
            for at in pts:
                p = self.copy()
                s1, s2 = toron.bind_file(p, mode='rw'), toron.bind_file(p, mode='rw')
                res = {}
                plan = Gap(at, lambda: res.update(b=self.apply(s2, b)))
                inject.TIMEOUT = 0.01
                inject.arm(plan)
                try:
                    res['a'] = self.apply(s1, a)
                finally:
                    inject.disarm()
                    inject.TIMEOUT = None
                s1 = s2 = None
                gc.collect()
                what = (f'{brief(b, 400)} at event {at} of {n} ({plan.trace[at - 1:at]}) of {brief(a, 400)}: '
                        f'{res.get("b")} / {res["a"]}')
                st = S.read_state(p)
                rec.check(not st.problems, lambda: f'{what}: {st.problems}')
                got = full(st)
                oka, okb = res['a'] == 'ok', res.get('b') == 'ok'
                if 'b' not in res:
                    rec.count('not_reached')
                allowed = [fab, fba] if oka and okb else [fa] if oka else [fb] if okb else [x]
                allowed = [v for v in allowed if v is not None]
                rec.check(got in allowed, lambda: f'{what}: no serial order explains the contents; '
                          + (f'from one: {S.diff(allowed[0], got)}' if allowed else 'in none do they all succeed'))
                rec.count('gaps')
                rec.count('gaps_both_ok', oka and okb)
                rec.count('gaps_one_failed', oka != okb)
                rec.sig((a['op'], b['op'], res['a'][:24], str(res.get('b'))[:24], plan.trace[at - 1:at]))

    # ------------------------------------------------- just before it begins
    FAMILIES = [{'insert_index', 'update_index', 'delete_index', 'insert_weights', 'update_weights',
                 'delete_weights', 'add_group', 'edit_group', 'drop_group', 'set_default'},
                {'insert_index', 'update_index', 'delete_index', 'add_link', 'edit_link', 'drop_link',
                 'insert_mappings', 'insert_mappings2', 'update_mappings', 'delete_mappings', 'reify'},
                {'add_columns', 'drop_columns', 'rename_columns', 'rename_label', 'label_order',
                 'add_partition', 'add_partitions', 'drop_partitions', 'set_domain', 'set_attrs',
                 'attr_order'},
                {'insert_quantities', 'insert_quantities2', 'delete_without_index', 'delete_unmatched',
                 'set_attrs', 'attr_order', 'delete_index', 'update_index', 'drop_columns'},
                {'label_order', 'add_columns', 'drop_columns', 'rename_columns'}, {'label_order'},
                {'attr_order', 'set_attrs'}, {'attr_order'},
                {'add_partition', 'add_partitions', 'drop_partitions'},
                {'add_group', 'edit_group', 'drop_group', 'set_default'},
                {'add_link', 'edit_link', 'drop_link'}]

    def draw_named(self, st, names):
        for _ in range(8):
            name = self.rng.choice(names)
            op = getattr(self.gen, 'g_' + name)(st)
            if op is not None and op.get('rows', True):
                return self.fixed(st, dict(op, op=name))
        return self.draw(st)

    def stale(self):
        """What an operation looked at before it began must not matter: another binding changes the
        file right before each of its transactions."""
        rec, rng = self.rec, self.rng
        start = S.read_state(self.base)
        pairs = 60 if self.spec['deep'] else 30
        every = sorted(gen.DEFAULT_MIX)
        single = {}

        def alone(op):
            key = repr(op)
            if key not in single:
                single[key] = self.serial(op)
            return single[key]
        for _ in range(pairs // 3):
            fam = sorted(rng.choice(self.FAMILIES)) if rng.random() < 0.8 else every
            for _ in range(5):
                a = self.draw_named(start, fam)
                fa = alone(a)
                if fa is not None:
                    break
            else:
                continue
            counter = Gap()
            s = toron.bind_file(self.copy(), mode='rw')
            inject.arm(counter)
            try:
                self.apply(s, a)
            finally:
                inject.disarm()
            s = None
            begins = [i + 1 for i, q in enumerate(counter.sqls)
                      if isinstance(q, str) and q.lstrip()[:5].upper() == 'BEGIN'][:3] or [1]
            for _ in range(3):
                b = self.draw_named(start, fam)
                fb = alone(b)
                if fb is None or fb == full(start):
                    continue
                fab, fba = self.serial(a, b), self.serial(b, a)
                for at in begins:
                    p = self.copy()
                    s1, s2 = toron.bind_file(p, mode='rw'), toron.bind_file(p, mode='rw')
                    res = {}
                    plan = Gap(at, lambda: res.update(b=self.apply(s2, b)))
                    inject.TIMEOUT = 0.01
                    inject.arm(plan)
                    try:
                        res['a'] = self.apply(s1, a)
                    finally:
                        inject.disarm()
                        inject.TIMEOUT = None
                    s1 = s2 = None
                    st = S.read_state(p)
                    what = (f'{brief(b, 400)} right before a transaction (event {at}) of {brief(a, 400)}: '
                            f'{res.get("b")} / {res["a"]}')
                    rec.check(not st.problems, lambda: f'{what}: {st.problems}')
                    got = full(st)
                    oka, okb = res['a'] == 'ok', res.get('b') == 'ok'
                    allowed = [fab, fba] if oka and okb else [fa] if oka else [fb] if okb else [full(start)]
                    allowed = [v for v in allowed if v is not None]
                    rec.check(got in allowed, lambda: f'{what}: no serial order explains the contents; '
                              + (f'from one: {S.diff(allowed[0], got)}' if allowed
                                 else 'in none do they all succeed'))
                    rec.count('stale_gaps')
                    rec.count('stale_both_ok', oka and okb)
                    rec.sig(('stale', a['op'], b['op'], oka, okb))

    # ------------------------------------------------------------ reads
    def reader(self, space, name):
        """A function doing one read, by name."""
        if name == 'save':
            p = self.d.path()

            def save():
                space.to_file(p, fsync=False)
                return full(S.read_state(p))
            return save
        if name == 'info':
            return lambda: repr(space).partition('\n')[2]
        return query.queries(space, self.others)[name]

    def names(self, space):
        return [k for k in query.queries(space, self.others) if k not in ('unique_id',)] + ['save', 'info']

    def ask(self, f):
        try:
            return ('ok', f())
        except Exception as e:      # noqa: BLE001
            return ('raised', type(e).__name__, str(e)[:200])

    def reads(self):
        """Another binding changes the file in the middle of a read."""
        rec, rng = self.rec, self.rng
        start = S.read_state(self.base)
        keep = toron.read_file(self.base)
        mixed = {}
        for _ in range(3):
            for _ in range(8):
                b = self.draw(start)
                fb = self.serial(b)
                if fb is not None and fb != full(start):
                    break
            p = self.copy()
            s = toron.bind_file(p, mode='rw')
            if self.apply(s, b) != 'ok':
                continue
            after = toron.read_file(p)
            s = None
            names = self.names(keep)
            for name in names if self.spec['deep'] else rng.sample(names, min(9, len(names))):
                one = self.ask(self.reader(keep, name))
                two = self.ask(self.reader(after, name)) if name in self.names(after) else ('raised', 'gone')
                counter = Gap()
                p = self.copy()
                s = toron.bind_file(p, mode='ro')
                f = self.reader(s, name)
                inject.arm(counter)
                try:
                    self.ask(f)
                finally:
                    inject.disarm()
                n = counter.n
                pts = range(1, n + 1)
                if not self.spec['deep'] and n > 10:
                    pts = rng.sample(pts, 10)
                for at in pts:
                    p = self.copy()
                    s1, s2 = toron.bind_file(p, mode=rng.choice(['ro', 'rw'])), toron.bind_file(p, mode='rw')
                    f = self.reader(s1, name)
                    res = {}
                    plan = Gap(at, lambda: res.update(b=self.apply(s2, b)))
                    inject.TIMEOUT = 0.01
                    inject.arm(plan)
                    try:
                        got = self.ask(f)
                    finally:
                        inject.disarm()
                        inject.TIMEOUT = None
                    f = s1 = s2 = None
                    gc.collect()
                    okb = res.get('b') == 'ok'
                    what = f'{brief(b, 500)} ({res.get("b")}) at event {at} of {n} of reading {name}'
                    rec.check(full(S.read_state(p)) == (fb if okb else full(start)),
                              lambda: f'{what}: the contents are not those of the operation')
                    rec.count('read_gaps')
                    rec.count('read_gaps_written', okb)
                    rec.sig(('read', name.split()[0], b['op'], got[0], okb))
                    if got[0] == 'raised':
                        rec.count('reads_refused')
                        continue
                    allowed = [one] + ([two] if okb else [])
                    rec.ev(1)
                    if got not in allowed:
                        kind = name.split(' of ')[0].split(' from ')[0].split(' k')[0]
                        kind = 'get_mapping' if name.startswith('get_mapping') else kind
                        mixed.setdefault(kind, f'{what}: {brief(got, 500)} is neither the result before '
                                               f'{brief(one, 500)} nor after {brief(two, 500)}')
        # Those of a single query first: the others can be listed as known.
        for kind in sorted(mixed, key=lambda k: (k not in SINGLE, k)):
            raise Violation(mixed[kind], mech='mixed-read-' + kind.replace(' ', '-'))

    # ------------------------------------------------------------ taking turns
    @staticmethod
    def later_labels(name, rows, want, n):
        """The known way a reader is mixed: it asks for each record's labels when it gets there."""
        k = len(want[0]) - n if want else 1     # what follows the labels (columns may have been added)
        bare = [sorted((tuple(r[len(r) - k:]) for r in rs), key=repr) for rs in (rows, want)]
        return 'mixed-read-disaggregated' if name == 'reader' and bare[0] == bare[1] else None

    def turns(self):
        """Several bindings, one operation at a time, iterators left open."""
        rec, rng = self.rec, self.rng
        p = self.copy()
        modes = ['rw', 'rw', 'ro']
        spaces = [toron.bind_file(p, mode=m) for m in modes]
        mine = toron.read_file(self.base)
        for _ in range(16):
            k = rng.choice([0, 0, 1])
            now = S.space_state(mine)
            x_columns = now.columns
            op = self.draw(now)
            held = None
            if rng.random() < 0.35:
                # an iterator somebody started and has not finished
                k2 = rng.choice([0, 1, 2])
                name = rng.choice(['index', 'quantities', 'without', 'reader'])
                want = query.queries(mine, self.others)
                it = {'index': lambda: spaces[k2].select_index(header=True),
                      'quantities': lambda: spaces[k2].select_quantities(),
                      'without': lambda: spaces[k2].select_quantities_without_index(),
                      'reader': lambda: spaces[k2]()}[name]
                try:
                    it = iter(it())
                    # two rows: a heading may come from a query of its own
                    first = [tuple(x) for x in (next(it, None), next(it, None)) if x is not None]
                    key = {'index': 'index', 'quantities': 'quantities', 'without': 'without index',
                           'reader': 'disaggregated'}[name]
                    held = (it, first, self.ask(want[key]), name)
                except Exception:       # noqa: BLE001
                    held = None
            inject.TIMEOUT = 0.01
            try:
                b = self.apply(spaces[k], op)
            finally:
                inject.TIMEOUT = None
            if 'locked' in b and held:
                rec.count('locked_by_iterator')
                got = full(S.read_state(p))
                rec.check(got == full(S.space_state(mine)), lambda: f'{brief(op, 500)}: {b}, but the contents changed')
            else:
                a = self.apply(mine, op)
                rec.check(a == b, lambda: f'{brief(op, 500)} through binding {k}: {b}; alone: {a}')
            rec.count('turns')
            if held:
                it, first, want, name = held
                try:
                    rows = first + [tuple(r) for r in it]
                    rec.count('kept_iterators')
                    if want[0] == 'ok':
                        w = want[1][1] if name == 'reader' else want[1]
                        if sorted(rows, key=repr) != sorted(w, key=repr):
                            raise Violation(f'an iterator ({name}) opened before {brief(op, 500)} ({b}) gives '
                                            f'{brief(rows, 500)}, not {brief(w, 500)}',
                                            mech=self.later_labels(name, rows, w, len(x_columns)))
                        rec.ev(1)
                except Violation:
                    raise
                except Exception:       # noqa: BLE001
                    rec.count('kept_iterators_refused')
                it = held = None
                gc.collect()
            x, y = full(S.space_state(mine)), full(S.read_state(p))
            rec.check(x == y, lambda: f'after {brief(op, 500)} through binding {k}: {S.diff(x, y)}')
            s = rng.choice(spaces)
            want = query.snapshot(mine, self.others, only=READS)
            got = query.snapshot(s, self.others, only=READS)
            rec.check(got == want, lambda: f'after {brief(op, 500)} another binding reads {query.differences(want, got)[:3]}')
            rec.count('turn_reads', len(got))
            rec.sig(('turn', op['op'], b[:20], k))

    # ------------------------------------------------------------ processes
    def processes(self):
        rec, rng = self.rec, self.rng
        start = S.read_state(self.base)
        for _ in range(3 if self.spec['deep'] else 2):
            path = self.copy()
            n = rng.choice([2, 2, 3])
            work = [[self.draw(start) if rng.random() < 0.75 else {'op': 'read', 'name': rng.choice(SINGLE)}
                     for _ in range(rng.choice([1, 2, 3]))] for _ in range(n)]
            if rng.random() < 0.5:
                # everybody wants the same
                work[1][0] = work[0][0]
            go = time.monotonic() + 0.03
            kids = []
            for i in range(n):
                r, w = os.pipe()
                pid = os.fork()
                if pid == 0:
                    try:
                        os.close(r)
                        self.worker(path, work[i], rng_for(self.spec['seed'], i), go, w)
                    finally:
                        os._exit(0)
                os.close(w)
                kids.append((pid, r))
            events = []
            for i, (pid, r) in enumerate(kids):
                with os.fdopen(r) as f:
                    lines = [json.loads(x) for x in f]
                _, status = os.waitpid(pid, 0)
                rec.check(status == 0 and len(lines) == len(work[i]),
                          lambda: f'process {i} ended with {status} after {lines}')
                for j, e in enumerate(lines):
                    events.append(dict(e, who=i, op=work[i][j]))
            self.explain(path, events)
            rec.count('histories')

    def worker(self, path, todo, rng, go, out):
        """One process: its operations with random delays at database events."""
        class Slow(inject.Plan):
            def event(self, letter, sql=''):
                if rng.random() < 0.12:
                    time.sleep(rng.choice([0, 0.001, 0.003, 0.008]))
                return False
        inject.TIMEOUT = rng.choice([None, 0.05, 0.3])
        spaces = [toron.bind_file(path, mode='rw') for _ in range(rng.choice([1, 2]))]
        while time.monotonic() < go:
            time.sleep(0.001)
        inject.arm(Slow())
        for op in todo:
            s = rng.choice(spaces)
            t0 = time.monotonic()
            extra = None
            if op['op'] == 'read':
                got = self.ask(self.reader(s, op['name']))
                res, extra = got[0] if got[0] == 'ok' else str(got), repr(got[1]) if got[0] == 'ok' else None
            else:
                res = self.apply(s, op)
            os.write(out, (json.dumps({'res': res, 'got': extra, 't0': t0, 't1': time.monotonic()}) + '\n').encode())
            if rng.random() < 0.3:
                time.sleep(rng.choice([0.001, 0.004]))

    def explain(self, path, events):
        """Find a serial order of what succeeded that respects time and gives what was seen."""
        rec = self.rec
        st = S.read_state(path)
        rec.check(not st.problems, lambda: f'{st.problems} after {self.story(events)}')
        final = full(st)
        done = [e for e in events if e['res'] == 'ok']
        rec.count('process_ops', len(events))
        rec.count('process_ok', len(done))
        rec.count('process_reads', sum(e['op']['op'] == 'read' for e in done))
        rec.count('overlaps', sum(a['t0'] < b['t1'] and b['t0'] < a['t1'] for i, a in enumerate(events)
                                  for b in events[:i] if a['who'] != b['who']))
        for e in events:
            if e['res'] != 'ok':
                rec.count('process_locked', 'locked' in e['res'])
        order = sorted(range(len(done)), key=lambda i: done[i]['t0'])
        done = [done[i] for i in order]
        tried = set()
        best = [None]

        def go(left, snap):
            if not left:
                same = full(S.read_state(snap)) == final
                if not same and best[0] is None:
                    best[0] = S.diff(full(S.read_state(snap)), final)
                return same
            for i in sorted(left):
                # nothing left over may have ended before this one started
                if any(done[j]['t1'] < done[i]['t0'] for j in left if j != i):
                    continue
                nxt = self.advance(done[i], snap)
                if nxt is None:
                    continue
                key = (left - {i}, repr(full(S.read_state(nxt))))
                if key in tried:
                    continue
                tried.add(key)
                if go(left - {i}, nxt):
                    return True
            return False
        ok = go(frozenset(range(len(done))), self.base)
        rec.check(ok, lambda: f'no serial order explains what was seen ({best[0]}): {self.story(events)}')
        rec.ev(len(tried))
        rec.sig(tuple((e['who'], e['op']['op'], e['res'][:20]) for e in sorted(events, key=lambda e: e['t1'])))

    def advance(self, e, snap):
        """The file after one more operation, or None if it does not fit here."""
        s = toron.read_file(snap)
        if e['op']['op'] == 'read':
            got = self.ask(self.reader(s, e['op']['name']))
            return snap if got[0] == 'ok' and repr(got[1]) == e['got'] else None
        try:
            ops.apply(s, e['op'], self.env)
        except Exception:       # noqa: BLE001
            return None
        p = self.d.path()
        s.to_file(p, fsync=False)
        return p

    def story(self, events):
        t = min(e['t0'] for e in events)
        return '\n' + '\n'.join(f'      process {e["who"]} {e["t0"] - t:.4f}-{e["t1"] - t:.4f}: {brief(e["op"], 500)} -> '
                                f'{e["res"][:200]} {brief(e["got"], 300) if e["got"] else ""}'
                                for e in sorted(events, key=lambda e: e['t0']))


def run_case(spec, rec):
    rng = rng_for('case', spec['seed'])
    with case_dir() as d:
        c = None
        try:
            if spec['kind'] == 'command':
                c = Commands(spec, rec, rng, d)
                c.run()
                return
            c = Case(spec, rec, rng, d)
            {'gap': c.gaps, 'read': c.reads, 'turns': c.turns, 'stale': c.stale, 'processes': c.processes}[spec['kind']]()
        except Violation as e:
            raise Violation(f'{e.message}\n   case {spec["seed"]} ({spec["kind"]})', mech=e.mech)
        finally:
            inject.disarm()
            inject.TIMEOUT = None
        rec.sample(f'case {spec["seed"]}: {spec["kind"]}; ' + '; '.join(x[:160] for x in c.log[-3:]))
