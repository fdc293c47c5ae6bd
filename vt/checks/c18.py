"""C18: opening an older file migrates it without losing or changing data."""
import gc
import os
import shutil
import warnings

import toron

from vt import flow, gen, hist, inject, oldfmt, ops, query
from vt import state as S
from vt.base import Violation, brief, case_dir, file_bytes, rng_for
from vt.checks.c07 import cover, outcome, sources

PROPERTY = 'C18'
LEVEL = 'fault_enumeration'
RULE = ('Contents of random histories are written in the older formats (0.2.0, 0.3.0: mapping levels '
        'missing, undefined-to-undefined rows, split quantities, every shape of domain), opened in '
        'every mode, compared with the same contents built natively, and used further in lockstep '
        'with it; openings are failed at database events, the process is killed at them, and files '
        'that cannot be migrated must stay as they are. A situation is one (version, kind of opening, '
        'event, outcome, shape of contents).')
ASSUMPTIONS = ['quantities of old files are numbers', 'attribute sets are written in the one canonical form',
               'proportions of mappings from the undefined record have no meaning']
MIN = {'opened': 1200, 'v020': 144, 'v030': 65, 'read_mem': 250, 'read_cache': 250, 'bind_rw': 210,
       'bind_ro': 210, 'lockstep': 1500, 'queries': 5000, 'flows_with_rows': 80, 'faults': 900, 'deaths': 400,
       'died_midway': 200, 'unmigratable': 80, 'nulls': 150, 'undefined': 100, 'split': 150,
       'mappings': 500, 'again': 200}
CASE_LIMIT = 120

inject.ENABLED = True
SKIP = ('props',)


def plan(tier, seed):
    return hist.plan(PROPERTY, tier, seed, 420, 4000, steps=14, bulk=(300, 80, 600, 140))


class Death(inject.Plan):
    """The process ends at the n-th database event."""
    def __init__(self, at, after=False):
        super().__init__(at)

    def event(self, letter, sql=''):
        self.n += 1
        if self.n == self.at:
            os._exit(9)
        return False


def cleaned(st, undefined=True):
    """Contents without what cannot be compared between versions."""
    d = S.full(st, SKIP)
    d['props'] = {k: v for k, v in st.props.items() if k not in ('created_date', 'toron_schema_version')
                  and not (k == 'user_properties' and v in ({}, None))}
    d['mappings'] = [(k, v if k[2] else v[:1]) for k, v in d['mappings']]
    d['structure'] = [(s, None if g is None else round(g, 9)) for s, g in d['structure']]
    return d


class Case(object):
    def __init__(self, spec, rec, rng, d):
        self.rec, self.rng, self.d = rec, rng, d
        self.version = rng.choice(['0.2.0', '0.2.0', '0.3.0'])
        self.others = sources(rng, rec)
        self.env = ops.Env(self.others)
        ids = {k: [r[0] for r in s.select_index()] for k, s in self.others.items()}
        mix = gen.mix(1.0) if self.version == '0.3.0' else gen.mix(1.0, label_order=None)
        self.gen = g = gen.Gen(rng, self.env, weights=mix, size=spec['size'], wild=spec['wild'], other_ids=ids)
        g.bulk = spec.get('bulk', 0)
        rec.count('bulk_histories', bool(g.bulk))
        native = toron.DataSpace()
        self.log = []

        def step(op):
            self.log.append(f'{brief(op, 300)} -> {outcome(native, op, self.env)[:60]}')
        for f in gen.base_ops(g, rng):
            op = f(S.space_state(native))
            if op:
                step(op)
        for _ in range(rng.choice([2, spec['steps'], spec['steps']])):
            step(g.op(S.space_state(native)))
        if rng.random() < 0.7:
            for fix in flow.heal(S.space_state(native), g, 0.9):
                step(fix)
            st = S.space_state(native)
            if st.links:
                step(cover(st, g, rng))
        if self.version == '0.2.0' and 'label_display_order' in repr(S.space_state(native).props) or \
                S.space_state(native).order != S.space_state(native).columns and self.version == '0.2.0':
            self.version = '0.3.0'
        self.path = d.path('native.toron')
        self.native = native
        native.to_file(self.path, fsync=False)
        self.old = d.path('old.toron')
        self.info = {}
        if self.version == '0.2.0':
            try:
                self.info = oldfmt.to_020(self.path, self.old, rng)
            except ValueError:
                os.remove(self.old)
                self.version = '0.3.0'
        if self.version == '0.3.0':
            oldfmt.to_030(self.path, self.old)
        else:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                native.set_domain(self.info['domain'])
                native.set_registered_attributes(self.info['registered'])
            native.to_file(self.path, fsync=False)
        self.want = cleaned(S.read_state(self.path))
        self.bytes = file_bytes(self.old)
        self.dump = oldfmt.dump(self.old)
        rec.count('v' + self.version.replace('.', ''))
        for k in ('nulls', 'undefined', 'split'):
            rec.count(k, self.info.get(k, 0))
        rec.count('mappings', len(self.want['mappings']))
        self.shape = (self.version, len(self.want['columns']), min(len(self.want['mappings']), 2),
                      min(len(self.want['quantities']), 2), min(len(self.want['index']), 3))

    def copy(self):
        p = self.d.path()
        shutil.copyfile(self.old, p)
        return p

    def same(self, st, what):
        self.rec.count('opened')
        got = cleaned(st)
        self.rec.check(not st.problems, lambda: f'{what}: {st.problems}')
        self.rec.check(got == self.want, lambda: f'{what}: differs from the same contents built natively: '
                                                 f'{S.diff(self.want, got)}')
        self.rec.check('created_date' in st.props and st.props.get('user_properties') in ({}, None)
                       or self.version == '0.3.0',
                       lambda: f'{what}: properties {st.props}')

    def open_all(self):
        rec, rng = self.rec, self.rng
        for cache in (False, True):
            s = toron.read_file(self.old, cache_to_drive=cache)
            self.same(S.space_state(s), f'reading a {self.version} file ({"cache" if cache else "memory"})')
            rec.count('read_cache' if cache else 'read_mem')
            rec.check(file_bytes(self.old) == self.bytes, 'reading an old file changes it')
            rec.sig(('read', cache) + self.shape)
            s = None
        try:
            s = toron.bind_file(self.old, mode='ro')
            ok = True
        except Exception:       # noqa: BLE001 - the refusal
            ok = False
        rec.count('bind_ro')
        rec.check(file_bytes(self.old) == self.bytes, 'binding an old file read-only changes it')
        if ok:
            self.same(S.space_state(s), 'read-only binding of an old file')
        s = None
        p = self.copy()
        s = toron.bind_file(p, mode=rng.choice(['rw', 'rwc']))
        rec.count('bind_rw')
        self.same(S.read_state(p), f'binding a {self.version} file')
        self.same(S.space_state(s), f'binding a {self.version} file')
        after = file_bytes(p)
        s = None
        gc.collect()
        toron.bind_file(p, mode='rw')
        toron.bind_file(p, mode='ro')
        toron.read_file(p)
        rec.check(file_bytes(p) == after, 'opening a migrated file again changes it')
        rec.count('again')
        return p

    def lockstep(self, path):
        """The migrated space goes on as the native one."""
        rec, rng = self.rec, self.rng
        kind = rng.choice(['rw', 'mem', 'old'])
        if kind == 'rw':
            mine = toron.bind_file(path, mode='rw')
        else:
            mine = toron.read_file(path if kind == 'mem' else self.old)
        self.look(mine, 'after opening')
        for n in range(8):
            op = self.gen.op(S.space_state(self.native))
            a, b = outcome(self.native, op, self.env), outcome(mine, op, self.env)
            self.log.append(f'{brief(op, 300)} -> {a[:60]} / {b[:60]}')
            rec.check(a == b, lambda: f'{brief(op, 600)}: natively {a}, migrated {b}')
            x, y = cleaned(S.space_state(self.native)), cleaned(S.space_state(mine))
            rec.check(x == y, lambda: f'after {brief(op, 600)} the migrated space differs: {S.diff(x, y)}')
            rec.count('lockstep')
            rec.sig(('op', op['op'], a[:20], kind, self.version))
        self.look(mine, 'after further operations')

    def look(self, mine, when):
        rec = self.rec
        a = query.snapshot(self.native, self.others, (), None)
        b = query.snapshot(mine, self.others, (), None)
        bad = query.differences(a, b)
        rec.check(not bad, lambda: f'{when}: reads of the migrated space differ: {bad[:3]!r}')
        rec.count('queries', len(a))
        v = a['disaggregated']
        rec.count('flows_with_rows', v[0] == 'ok' and len(v[1][1]) > 0)

    def events(self):
        p = self.copy()
        plan = inject.Plan()
        inject.arm(plan)
        try:
            toron.bind_file(p, mode='rw')
        finally:
            inject.disarm()
        return plan.n

    def faults(self):
        rec, rng = self.rec, self.rng
        n = self.events()
        for _ in range(4):
            at, kind = rng.randint(1, n), rng.choice(['err', 'late', 'mid', 'full', 'kbd'])
            p = self.copy()
            plan = inject.Plan(at, kind)
            inject.arm(plan)
            how = rng.choice(['bind', 'bind', 'read'])
            exc = None
            try:
                s = toron.bind_file(p, mode='rw') if how == 'bind' else toron.read_file(p)
            except (Exception, KeyboardInterrupt) as e:     # noqa: BLE001
                exc = e
            finally:
                inject.disarm()
            s = None
            exc = None if exc is None else repr(exc)
            gc.collect()
            rec.count('faults', bool(plan.fired))
            what = f'opening ({how}) a {self.version} file, {kind} at event {at} ({str(plan.fired)[:80]!r}): {exc}'
            rec.sig(('fault', kind, how, self.version, str(plan.fired).strip()[:40], exc is None))
            if how == 'read':
                rec.check(file_bytes(p) == self.bytes, f'{what}: changes the file')
                continue
            now = oldfmt.dump(p)
            if exc is not None:
                rec.check(now == self.dump or self.done(p), lambda: f'{what}: the file is changed')
            else:
                self.same(S.read_state(p), what)
            toron.bind_file(p, mode='rw')
            self.same(S.read_state(p), f'opening again after {what}')
        for _ in range(2):
            at = rng.randint(1, n)
            p = self.copy()
            pid = os.fork()
            if pid == 0:
                try:
                    inject.arm(Death(at))
                    toron.bind_file(p, mode='rw')
                finally:
                    os._exit(0)
            _, status = os.waitpid(pid, 0)
            rec.count('deaths')
            rec.count('died_midway', os.waitstatus_to_exitcode(status) == 9)
            what = f'the process dying at event {at} of opening a {self.version} file'
            now = oldfmt.dump(p)
            rec.check(now == self.dump or self.done(p), lambda: f'{what}: the file is changed')
            toron.bind_file(p, mode='rw')
            self.same(S.read_state(p), f'opening again after {what}')

    def done(self, p):
        try:
            return cleaned(S.read_state(p)) == self.want
        except Exception:       # noqa: BLE001
            return False

    def unmigratable(self):
        rec, rng = self.rec, self.rng
        kind = rng.choice(['domain', 'weight', 'relation', 'quantity'])
        p = self.d.path()
        try:
            oldfmt.to_020(self.path, p, rng, breaks=kind)
        except ValueError:
            return
        before, dump = file_bytes(p), oldfmt.dump(p)
        rec.count('unmigratable')
        for how in ('bind', 'read'):
            try:
                s = toron.bind_file(p, mode='rw') if how == 'bind' else toron.read_file(p)
                ok = True
            except Exception:       # noqa: BLE001
                ok = False
            s = None
            gc.collect()
            rec.sig(('unmigratable', kind, how, ok))
            if not ok or how == 'read':
                rec.check(oldfmt.dump(p) == dump, f'a failed migration ({kind}, {how}) changes the file')
            if how == 'read':
                rec.check(file_bytes(p) == before, f'reading an old file ({kind}) changes it')
            if ok and how == 'bind':
                return


def run_case(spec, rec):
    rng = rng_for('case', spec['seed'])
    with case_dir() as d:
        c = None
        try:
            c = Case(spec, rec, rng, d)
            p = c.open_all()
            c.faults()
            if rng.random() < 0.5:
                c.unmigratable()
            c.lockstep(p)
        except Violation as e:
            tail = '\n'.join(f'      {x}' for x in (c.log if c else [])[-25:])
            raise Violation(f'{e.message}\n   case {spec["seed"]}:\n{tail}', mech=e.mech)
        rec.sample(f'case {spec["seed"]}: {c.version} {c.info}; ' + '; '.join(x[:120] for x in c.log[-3:]))
