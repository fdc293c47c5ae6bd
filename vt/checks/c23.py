"""C23: readers return a stable snapshot, once, and clean up after themselves."""
import gc
import os
import subprocess
import sys

import toron
from toron.reader import pivot_reader, pivot_reader_to_pandas

from vt import flow, gen, hist
from vt import state as S
from vt.base import REPO, Violation, brief, case_dir, rng_for
from vt.checks import c02

PROPERTY = 'C23'
LEVEL = 'exploration'
RULE = ('Several readers over one space are iterated in pieces, pivoted, converted, translated, closed '
        'and dropped in random order while quantities and weights change; what each delivers is '
        'compared with the rows a twin delivered at its creation, and the temporary directory with '
        'the set of readers and spaces alive; a situation is one (storage, reader kinds, action '
        'sequence) combination.')
ASSUMPTIONS = ['records are neither added nor removed while a reader is alive',
               'a reader is translated before its iteration starts',
               'rows without any of the pivoted attributes are not part of a pivot']
MIN = {'readers': 2000, 'on_drive': 600, 'exhausted': 1200, 'rows': 5000, 'edits': 1502, 'pivots': 500,
       'partial_pivots': 150, 'frames': 300, 'translated': 150, 'failed_translations': 80,
       'closed_early': 200, 'dropped': 300, 'edits_during': 1500, 'cleanups': 400,
       'space_dropped': 40,
       'process_exits': 6}
MIX = gen.mix(0.0, insert_quantities2=3, insert_quantities=1.5, delete_unmatched=0.3,
              update_weights=2.5, insert_weights=0.5, edit_group=1, add_group=0.6, set_default=1,
              delete_weights=0.3)
SELS = [(), (), (), ('[category]',), ('[year="2020"]',), (':not([kind])',)]
SUMS = [None, None, ['category'], ['year', 'kind'], 'category']


def plan(tier, seed):
    n = 12 if tier == 'quick' else 60
    return (hist.plan(PROPERTY, tier, seed, 700, 9000, steps=30) +
            [dict(seed=f'C23-{seed}-x{i}', exits=EXITS[i % len(EXITS)]) for i in range(n)])


EXITS = ['pass', 'sys.exit(3)', 'raise ValueError("injected")', 'os.kill(os.getpid(), signal.SIGINT)',
         'def f(): raise KeyboardInterrupt\nf()', 's = None', 'rs = None']
PROGRAM = '''
import os, signal, sys
sys.path.insert(0, {src!r})
import toron
from toron.reader import pivot_reader
s = toron.DataSpace(cache_to_drive=True)
s.add_index_columns('A', 'B')
s.insert_index([('A', 'B')] + [(a, b) for a in 'xyz' for b in '123'])
s.add_weight_group('g', make_default=True)
s.insert_weights('g', [('A', 'B', 'g')] + [(a, b, 1) for a in 'xyz' for b in '123'])
s.add_partition_definition({{'A'}})
s.insert_quantities(value='value', attributes=['k'],
                    data=[('A', 'B', 'k', 'value'), ('x', '', 'm', 5), ('y', '1', 'n', 7)])
rs = []
for n in range({readers}):
    r = s(cache_to_drive=True)
    for _ in range(n):
        next(r, None)
    rs.append(r)
p = pivot_reader(rs[0], ['k'])
next(p)
t = toron.DataSpace(cache_to_drive=True)
print('FILES', len(os.listdir(os.environ['TMPDIR'])), flush=True)
{end}
'''


def process_exit(spec, rec):
    """Files go away however the process ends (short of being killed)."""
    rng = rng_for('case', spec['seed'])
    with case_dir() as d:
        n = rng.randint(1, 4)
        code = PROGRAM.format(src=os.path.join(REPO, 'src'), readers=n, end=spec['exits'])
        p = subprocess.run([sys.executable, '-c', code], capture_output=True, text=True, timeout=50,
                           env=dict(os.environ, TMPDIR=d.tmp, PYTHONDONTWRITEBYTECODE='1'), cwd=d.work)
        rec.check(f'FILES {n + 2}' in p.stdout, lambda: f'{spec["exits"]}: {n} readers on drive and two '
                                                        f'cached spaces: {p.stdout[-300:]} {p.stderr[-900:]}')
        left = sorted(os.listdir(d.tmp))
        rec.check(not left, lambda: f'process ended by {spec["exits"]!r} left {left} in its temporary directory')
        rec.count('process_exits')
        rec.sig(('exit', spec['exits'], n))


class R(object):
    """A reader under observation."""

    def __init__(self, reader, want, cols, drive, n, opts):
        self.reader, self.want, self.cols, self.drive, self.n = reader, want, cols, drive, n
        self.opts = opts
        self.got = {}
        self.started = self.done = self.closed = False
        self.translated = False


def by_key(rec, cols, rows, n, what):
    out = {}
    for r in rows:
        rec.check(len(r) == len(cols), lambda: f'{what}: row {r!r} does not fit {cols!r}')
        k = tuple(r[:-1])
        rec.check(k not in out, lambda: f'{what}: row {k!r} returned twice')
        out[k] = r[-1]
    return out


def near(a, b):
    if a is None or b is None or a != a or b != b:
        return a is b or (a != a and b != b)
    return abs(a - b) <= 1e-9 * max(abs(a), abs(b), 1e-290)


class World(object):
    def __init__(self, h, rec, rng, d):
        self.h, self.rec, self.rng, self.d = h, rec, rng, d
        self.readers, self.log, self.pivots = [], [], []
        self.target = None
        self.base_files = None

    def say(self, text):
        self.log.append(text)

    # -- the temporary directory -------------------------------------------
    def files(self):
        return sorted(os.listdir(self.d.tmp))

    def check_files(self, what):
        """One file per open reader on drive, plus those of cached spaces."""
        self.say(what)
        gc.collect()
        n = sum(1 for r in self.readers if r.drive and not r.closed)
        now = self.files()
        low = high = n + self.base_files
        if self.h.space is None and self.base_files:
            # the space lives as long as a reader refers to it
            low -= 1
            if not self.pivots and not any(not r.closed and not r.translated for r in self.readers):
                high -= 1
        self.rec.check(low <= len(now) <= high,
                       lambda: f'after {what}: {n} readers on drive are open and {self.base_files} '
                               f'spaces are cached, the temporary directory holds {now}')
        self.rec.count('cleanups')

    # -- actions ------------------------------------------------------------
    def make(self):
        space, rng = self.h.space, self.rng
        if space is None:
            return
        st = self.h.state
        if any(abs(v) == float('inf') for v in st.quantities.values()):
            return
        opts = dict(sum_by_attrs=rng.choice(SUMS), quantize=rng.random() < 0.2)
        sels = rng.choice(SELS)
        drive = rng.random() < 0.35
        try:
            flow.disaggregate(st, sels, opts['sum_by_attrs'])
        except flow.Refused:
            before = self.files()
            try:
                space(*sels, cache_to_drive=drive, **opts)
            except RuntimeError:
                pass
            gc.collect()
            self.rec.check(self.files() == before, f'a refused reader left files: {self.files()}')
            return
        twin = space(*sels, cache_to_drive=not drive, **opts)
        cols = list(twin.columns)
        want = by_key(self.rec, cols, list(twin), len(st.columns), 'twin reader')
        twin.close()
        reader = space(*sels, cache_to_drive=drive, **opts)
        self.rec.eq(list(reader.columns), cols, 'columns of two readers')
        self.rec.eq(cols[:len(st.columns)], list(st.columns), 'columns of a reader')
        self.rec.eq(list(reader.index_columns), list(st.columns), 'index columns of a reader')
        self.readers.append(R(reader, want, cols, drive, len(st.columns), (sels, drive, opts)))
        self.rec.count('readers')
        self.rec.count('on_drive', drive)
        self.check_files(f'creating a reader (on drive: {drive})')

    def pick(self, f=lambda r: True):
        c = [r for r in self.readers if not r.closed and f(r)]
        return self.rng.choice(c) if c else None

    def take(self, r, rows, what):
        for row in rows:
            k = tuple(row[:-1])
            self.rec.check(len(row) == len(r.cols), lambda: f'{what}: row {row!r} does not fit {r.cols!r}')
            self.rec.check(k in r.want, lambda: f'{what}: unexpected row {row!r}; had '
                                                f'{brief(sorted(r.want.items(), key=repr), 400)}')
            self.rec.check(k not in r.got, lambda: f'{what}: row {row!r} returned twice')
            self.rec.check(near(row[-1], r.want[k]), lambda: f'{what}: row {row!r}, value at creation was '
                                                             f'{r.want[k]!r}')
            r.got[k] = row[-1]
            self.rec.count('rows')

    def finished(self, r, what):
        r.done = True
        self.rec.check(len(r.got) == len(r.want),
                       lambda: f'{what}: ended after {len(r.got)} of {len(r.want)} rows')
        self.rec.count('exhausted')

    def step_reader(self):
        r = self.pick()
        if not r:
            return
        k = self.rng.choice([1, 1, 2, 5, 1000])
        what = f'next() x{k} on reader {self.readers.index(r)} {r.opts!r}'
        self.say(what)
        r.started = True
        for _ in range(k):
            try:
                row = next(r.reader)
            except StopIteration:
                if not r.done:
                    self.finished(r, what)
                break
            self.rec.check(not r.done, lambda: f'{what}: row {row!r} after the end')
            self.take(r, [row], what)

    def frame(self):
        r = self.pick(lambda r: not r.done)
        if not r:
            return
        r.started = True
        index = self.rng.random() < 0.4
        what = f'to_pandas(index={index}) on reader {self.readers.index(r)} {r.opts!r}'
        self.say(what)
        df = r.reader.to_pandas(index=index)
        if index:
            self.rec.eq(list(df.index.names), r.cols[:r.n], f'{what}: index')
            df = df.reset_index()
        self.rec.eq(list(df.columns), r.cols, f'{what}: columns')
        rows = [tuple(None if x is not x or str(x) == '<NA>' else x for x in row)
                for row in df.itertuples(index=False, name=None)]
        self.take(r, rows, what)
        self.finished(r, what)
        self.rec.count('frames')

    def pivot(self):
        r = self.pick()
        if not r:
            return
        names = r.cols[r.n:-1]
        cols = self.rng.sample(names + ['no such'], self.rng.randint(1, min(3, len(names) + 1)))
        agg = self.rng.choice(['sum', 'sum', 'mean'])
        what = (f'pivot_reader(reader {self.readers.index(r)} {r.opts!r}, {cols!r}, {agg!r}) with '
                f'{len(r.got)} rows already taken')
        self.say(what)
        if self.rng.random() < 0.25:
            df = pivot_reader_to_pandas(r.reader, cols, agg, index=False)
            head = list(df.columns)
            rows = [[None if str(x) in ('<NA>', 'nan') else x for x in row]
                    for row in df.itertuples(index=False, name=None)]
            self.pivoted(r, cols, agg, head, rows, what + ' to a frame')
            return
        it = pivot_reader(r.reader, iter(cols) if self.rng.random() < 0.3 else cols,
                          aggregate_function=agg)
        if self.rng.random() < 0.4:
            part = []
            for _ in range(self.rng.randint(0, 3)):
                row = next(it, None)
                if row is not None:
                    part.append(row)
            self.pivots.append([it, part, r, cols, agg, what])
            self.rec.count('partial_pivots')
            return
        out = list(it)
        self.pivoted(r, cols, agg, out[0], out[1:], what)

    def resume_pivot(self):
        if not self.pivots:
            return
        it, part, r, cols, agg, what = self.pivots.pop(self.rng.randrange(len(self.pivots)))
        if r.closed or self.rng.random() < 0.25:
            self.say(f'drop unfinished {what}')
            it = None
            return
        what = f'continued {what}'
        self.say(what)
        out = part + list(it)
        self.pivoted(r, cols, agg, out[0], out[1:], what)

    def pivoted(self, r, cols, agg, head, rows, what):
        rec = self.rec
        at = {c: i for i, c in enumerate(r.cols)}
        want = {}
        for k, v in r.want.items():
            t = [(k[at[c]] if c in at and k[at[c]] is not None else '') for c in cols]
            if not any(t):
                continue
            while t[-1] == '':
                t.pop()
            label = t[0] if len(t) == 1 else tuple(t)
            want.setdefault(tuple(k[:r.n]), {}).setdefault(label, []).append(v)
        head = list(head)
        rec.eq(head[:r.n], r.cols[:r.n], f'{what}: label columns')
        labels = head[r.n:]
        rec.check(len(set(labels)) == len(labels), lambda: f'{what}: columns {labels!r} repeat')
        rec.eq(set(labels), {x for d in want.values() for x in d} | (set(labels) & self.empty(r, cols)),
               f'{what}: pivoted columns')
        seen = set()
        for row in rows:
            rec.check(len(row) == len(head), lambda: f'{what}: row {row!r} does not fit {head!r}')
            key = tuple(row[:r.n])
            rec.check(key not in seen, lambda: f'{what}: record {key!r} returned twice')
            seen.add(key)
            d = want.get(key, {})
            for label, v in zip(labels, row[r.n:]):
                vals = [x for x in d.get(label, []) if x is not None]
                if not vals:
                    rec.check(v is None, lambda: f'{what}: {key!r} {label!r} is {v!r} without any row')
                    continue
                x = sum(vals) / (len(vals) if agg == 'mean' else 1)
                m = sum(abs(y) for y in vals)
                rec.check(v is not None and abs(v - x) <= 1e-9 * m + 1e-300,
                          lambda: f'{what}: {key!r} {label!r} is {v!r}, rows give {x!r}')
        rec.eq(seen, set(want), f'{what}: records')
        rec.count('pivots')

    def empty(self, r, cols):
        return set()

    def translate(self):
        r = self.pick(lambda r: not r.started and not r.translated)
        if not r or self.target is None or self.h.space is None:
            return
        if any(p[2] is r for p in self.pivots):
            return
        st, trg = self.h.state, self.target
        before = (list(r.reader.columns))
        if self.rng.random() < 0.35:        # refused: no link there
            self.say('refused translation')
            try:
                r.reader >> toron.DataSpace()
            except RuntimeError:
                pass
            else:
                self.rec.check(False, 'translation without a link was not refused')
            self.rec.eq(list(r.reader.columns), before, 'columns after a refused translation')
            self.rec.count('failed_translations')
            self.check_files('a refused translation')
            return
        out = {}
        proportions = {}
        for k, (v, p) in trg[1].mappings.items():
            proportions.setdefault(k[2], []).append((k[3], p))
        ids = {lab: i for i, lab in st.index.items()}
        quantize = r.opts[2]['quantize']
        for k, v in r.want.items():
            i = ids[tuple(k[:r.n])]
            if i and i not in proportions:
                return
            for j, p in (proportions[i] if i else [(0, 1)]):
                key = trg[1].index[j] + tuple(k[r.n:])
                out[key] = out.get(key, 0) + v * p
        self.say(f'translate reader {self.readers.index(r)}')
        r.reader = r.reader >> trg[0] if self.rng.random() < 0.6 else self.in_place(r, trg[0])
        r.translated = True
        cols = list(trg[1].columns) + r.cols[r.n:]
        self.rec.eq(list(r.reader.columns), cols, 'columns after translation')
        if quantize:
            rows = list(r.reader)
            total = sum(v for v in r.want.values())
            self.rec.check(abs(sum(x[-1] for x in rows) - total) <= 1e-9 * (1 + sum(map(abs, r.want.values()))),
                           'quantized translation changed the total')
            r.closed = True
            r.reader.close()
            r.reader = None
        r.want, r.cols, r.n = out, cols, len(trg[1].columns)
        r.opts = r.opts + ('translated',)
        self.rec.count('translated')
        self.check_files('a translation')

    def in_place(self, r, target):
        r.reader.translate(target)
        return r.reader

    def close(self):
        r = self.pick()
        if not r:
            return
        early = not r.done
        if self.rng.random() < 0.5:
            r.reader.close()
            r.closed = True
            try:
                row = next(r.reader)
            except (StopIteration, RuntimeError):
                pass
            else:
                self.rec.fail(f'reader returned {row!r} after being closed')
            r.reader.close()            # again: no effect
            r.reader = None
            self.rec.count('closed_early', early)
            what = 'closing a reader'
        else:
            for p in [p for p in self.pivots if p[2] is r]:
                self.pivots.remove(p)
                p[0] = None
            r.reader = None
            r.closed = True
            self.rec.count('dropped')
            what = 'dropping a reader'
        self.check_files(f'{what} ({r.opts!r})')

    def interrupted(self):
        """Reader creation that fails half way leaves nothing."""
        if self.h.space is None:
            return
        space = self.h.space
        real = type(space)._disaggregate if hasattr(type(space), '_disaggregate') else None
        if real is None:
            return
        kind = self.rng.choice([KeyboardInterrupt, RuntimeError, MemoryError])
        stop = self.rng.randint(0, 3)

        def broken(self_, *a, **k):
            for n, x in enumerate(real(self_, *a, **k)):
                if n == stop:
                    break
                yield x
            raise kind('injected')
        type(space)._disaggregate = broken
        try:
            space(cache_to_drive=True)
        except BaseException as e:      # noqa: BLE001
            if not (isinstance(e, (kind, RuntimeError))):
                raise
        else:
            self.rec.fail(f'creating a reader swallowed {kind.__name__}')
        finally:
            type(space)._disaggregate = real
        self.rec.count('interrupted_creation')
        self.check_files('an interrupted reader creation')

    def edit(self):
        if self.h.space is None:
            return
        op = self.h.gen.op(self.h.state)
        self.h.step(op)
        self.say(f'edit {op["op"]}')
        self.rec.count('edits')
        self.rec.count('edits_during', sum(1 for r in self.readers if not r.closed and not r.done))
        if self.rng.random() < 0.5:
            for fix in flow.heal(self.h.state, self.h.gen, 1.0):
                self.h.step(fix)

    def unaffected(self, f):
        """Run a reader action; the space stays as it was."""
        if self.h.space is None or self.rng.random() > 0.3:
            return f()
        before = S.full(self.h.state)
        f()
        after = S.full(S.space_state(self.h.space))
        self.rec.check(before == after, lambda: f'a reader changed the space: {S.diff(before, after)}')

    def drop_space(self):
        if self.h.space is None or self.rng.random() > 0.5:
            return
        self.h.space = self.h.driver.space = self.h.driver.last = None
        self.say('drop the space')
        self.rec.count('space_dropped')


def make_target(h, rng):
    """A further space with one link (its default) that covers every record."""
    s = toron.DataSpace()
    s.add_index_columns('X')
    s.insert_index([('X',)] + [(c,) for c in 'abcd'[:rng.randint(1, 4)]])
    s.add_link(h.space, 'z1')
    st = S.space_state(s)
    n = len(st.index) - 1
    rows = []
    for o in h.state.index:
        if o:
            for t in rng.sample(range(1, n + 1), rng.randint(1, min(n, 2))):
                rows.append((o, t, S.level_bytes(st.columns, st.columns), rng.choice([0, 1, 2.5, 7])))
    if rows:
        s.insert_mappings2(h.state.unique_id, 'z1',
                           [('other_index_id', 'index_id', 'mapping_level', 'z1')] + rows)
    return (s, S.space_state(s))


def run_case(spec, rec):
    if 'exits' in spec:
        return process_exit(spec, rec)
    rng = rng_for('case', spec['seed'])
    with case_dir() as d:
        h = hist.History(dict(spec, store=rng.choice(['mem', 'mem', 'cache', 'file'])), rec, rng, d, (),
                         MIX, c02.Gen)
        h.spec = dict(spec, store=rng.choice(['mem', 'mem', 'cache', 'file']))
        h.space = h.driver.space = None
        gc.collect()
        from vt import store
        h.space = h.driver.space = store.create(h.spec['store'], d)
        h.driver.state = S.space_state(h.space)
        w = World(h, rec, rng, d)
        try:
            for f in gen.base_ops(h.gen, rng):
                op = f(h.state)
                if op and op['op'] not in ('add_link', 'insert_mappings2'):
                    h.step(op)
            for _ in range(3):
                op = h.gen.g_insert_quantities2(h.state)
                if op:
                    h.step(dict(op, op='insert_quantities2'))
            for _ in range(2):
                for fix in flow.heal(h.state, h.gen, 1.0):
                    h.step(fix)
            if h.state.columns and len(h.state.index) > 1 and rng.random() < 0.6:
                w.target = make_target(h, rng)
            gc.collect()
            w.base_files = len(w.files())
            for n in range(spec['steps']):
                act = rng.choices(['make', 'step_reader', 'edit', 'pivot', 'resume_pivot', 'frame',
                                   'translate', 'close', 'interrupted', 'drop_space'],
                                  [3.5, 4.5, 3, 2, 1.5, 0.8, 2.5, 2, 0.4, 0.5 if n > 20 else 0])[0]
                if act in ('make', 'edit', 'drop_space'):
                    getattr(w, act)()
                else:
                    w.unaffected(getattr(w, act))
            for r in list(w.readers):
                if r.closed:
                    continue
                rows = list(r.reader) if not r.done else []
                w.take(r, rows, f'rest of reader {w.readers.index(r)} {r.opts!r}')
                if not r.done:
                    w.finished(r, f'rest of reader {w.readers.index(r)} {r.opts!r}')
                if rng.random() < 0.5:
                    r.reader.close()
                r.reader, r.closed = None, True
            w.pivots = []
            w.target = None
            h.driver.last = None        # its traceback refers to the space
            h.close()
            gc.collect()
            left = w.files()
            rec.check(not left, f'after closing everything the temporary directory holds {left}')
            rec.sig((h.spec['store'], tuple(x.split('(')[0][:20] for x in w.log[:25])))
            rec.sample(f'{spec["seed"]}: ' + '; '.join(x[:60] for x in w.log[-5:]))
        except Violation as e:
            tail = '\n'.join('      ' + x[:300] for x in w.log[-14:])
            raise Violation(f'{e.message}\n   history {spec["seed"]} ({h.spec["store"]}):\n{tail}',
                            mech=e.mech)
        finally:
            w.readers = []
            h.close()
