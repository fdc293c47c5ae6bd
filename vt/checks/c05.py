"""C05: a crash leaves a file as it was before or after the interrupted operation."""
import gc
import os
import shutil

import toron

from vt import crash, gen, hist, ops
from vt import state as S
from vt.base import Violation, brief, case_dir, file_bytes, rng_for

PROPERTY = 'C05'
LEVEL = 'fault_enumeration'
RULE = ('Every call that changes files (create, write, truncate, sync, rename, unlink, chmod) made by a '
        'sequence of operations on a bound file, or by a save, is a crash point: the process is killed '
        'before it, in the middle of a write, or right after it, and the file is reopened in every mode. '
        'A situation is one (operation, kind of call, mode, state found, way of reopening).')
ASSUMPTIONS = ['the process dies; what was handed to the operating system survives',
               'creating a new file by binding it is not covered',
               'a read-only binding may refuse a file whose interrupted change it is not allowed to undo']
MIN = {'kills': 6000, 'kills_torn': 800, 'kills_after': 500, 'found_before': 1500, 'found_after': 60,
       'op_sequences': 47, 'saves_new': 5, 'saves_over': 20, 'save_kills': 1500, 'saved_old': 700,
       'saved_new': 30, 'resumed': 500, 'opened_rw': 1170, 'opened_ro': 800, 'opened_read': 800, 'opened_cache': 631}
CASE_LIMIT = 240
MIX = gen.mix(1.0, label_order=0.5, attr_order=0.5)


def prepare(scratch):
    crash.build(scratch)


def plan(tier, seed):
    n = 170 if tier == 'quick' else 3000
    out = []
    for spec in hist.plan(PROPERTY, tier, seed, n, n, steps=8, bulk=()):
        rng = rng_for('c05', spec['seed'])
        spec['kind'] = rng.choice(['ops', 'ops', 'ops', 'save', 'save'])
        spec['big'] = rng.random() < 0.06
        spec['all'] = tier != 'quick'
        out.append(spec)
    return out


def contents(st):
    d = S.full(st)
    return d


def look(path):
    st = S.read_state(path)
    return contents(st), st.problems


class Case(object):
    ZYGOTE = 'crashpoint'

    def __init__(self, spec, rec, rng, d):
        self.spec, self.rec, self.rng, self.d = spec, rec, rng, d
        self.others = gen.make_others(rng)
        self.env = ops.Env(self.others)
        ids = {k: [r[0] for r in s.select_index()] for k, s in self.others.items()}
        self.gen = gen.Gen(rng, self.env, weights=MIX, size=spec['size'], wild=0.03, other_ids=ids)
        self.log = []
        space = toron.DataSpace()
        for f in gen.base_ops(self.gen, rng):
            op = f(S.space_state(space))
            if op:
                self.apply(space, op)
        for _ in range(rng.randint(0, spec['steps'])):
            self.apply(space, self.gen.op(S.space_state(space)))
        if spec['big'] and S.space_state(space).columns:
            cols = list(space.index_columns)
            text = 'long label ' * 30
            space.insert_index([cols] + [[f'{text}{i}'] + ['x'] * (len(cols) - 1) for i in range(4000)])
        self.space = space
        self.watch = os.path.join(d.root, 'watch')
        self.base = d.aux('base.toron')
        space.to_file(self.base, fsync=False)
        self.z = crash.zygote(self.ZYGOTE)
        paths = {}
        for k, s in self.others.items():
            paths[k] = d.aux(f'other-{k}.toron')
            s.to_file(paths[k], fsync=False)
        self.z.others(paths)

    def apply(self, space, op):
        try:
            ops.apply(space, op, self.env)
            res = 'ok'
        except Exception as e:      # noqa: BLE001
            res = f'{type(e).__name__}: {e}'
        self.log.append(f'{brief(op, 300)} -> {res[:60]}')
        return res

    def fresh(self, *copies):
        shutil.rmtree(self.watch, ignore_errors=True)
        os.mkdir(self.watch)
        for src, name in copies:
            shutil.copyfile(src, os.path.join(self.watch, name))

    def points(self, trace, limit):
        """(call, mode); everything around removals and renames, a sample of the rest."""
        rng = self.rng
        count = len(trace)
        pts = [(n, 0) for n in range(1, count + 1)]
        if self.spec['all']:
            limit = 400
        if len(pts) > limit:
            pts = rng.sample(pts, limit)
        extra = [(n, rng.choice([1, 1, 2])) for n in rng.sample(range(1, count + 1), min(count, limit // 3))]
        ends = []
        for n, letter in enumerate(trace, 1):
            if letter in 'url':
                ends += [(n, 0), (n, 2)]
        if len(ends) > (300 if self.spec['all'] else 30):
            ends = rng.sample(ends, 300 if self.spec['all'] else 30)
        return sorted(set(pts + extra + ends))

    # ------------------------------------------------------- bound files
    def operations(self):
        rec, rng = self.rec, self.rng
        target = os.path.join(self.watch, 'bound.toron')
        self.fresh((self.base, 'bound.toron'))
        space = toron.bind_file(target, mode='rw')
        states = [look(target)[0]]
        steps, results = [], []
        for _ in range(rng.choice([1, 2, 3])):
            op = self.draw(S.read_state(target))
            steps.append(op)
            results.append(self.apply(space, op))
            states.append(look(target)[0])
        space = None
        gc.collect()
        rec.count('op_sequences')
        self.fresh((self.base, 'bound.toron'))
        whole = self.z.run(self.watch, steps, target=target)
        rec.check(whole.error is None and not whole.died, lambda: f'{steps}: {whole.error}')
        rec.check([r[:40] for r in whole.returned] == [r[:40] for r in results],
                  lambda: f'the same operations give {whole.returned} and {results}')
        rec.check(look(target)[0] == states[-1], 'the same operations give different contents in another process')
        if not whole.count:
            return
        for n, mode in self.points(whole.trace, 70):
            self.fresh((self.base, 'bound.toron'))
            r = self.z.run(self.watch, steps, n, mode, target)
            rec.check(r.error is None, lambda: f'{r.error}')
            if not r.died:
                rec.count('survived')
                continue
            letter = whole.trace[n - 1] if n <= len(whole.trace) else '?'
            self.killed(r, steps, results, states, target, n, mode, letter)

    def draw(self, st):
        """Operations that do something, mostly."""
        if self.spec['big'] and st.columns:
            c = st.columns[0]
            return self.rng.choice([{'op': 'rename_columns', 'mapping': {c: 'newname'}},
                                    {'op': 'add_columns', 'cols': ['extra']}, {'op': 'delete_index', 'criteria': {
                                        st.columns[-1]: 'x'}}] + ([{'op': 'drop_columns', 'cols': [c]}]
                                                                  if len(st.columns) > 1 else []))
        for _ in range(6):
            op = self.gen.op(st)
            if op.get('rows', True):
                break
        return op

    def killed(self, r, steps, results, states, target, n, mode, letter):
        rec, rng = self.rec, self.rng
        k = len(r.returned)
        op = steps[k]['op'] if k < len(steps) else 'end'
        what = (f'killed {("before", "inside", "after")[mode]} call {n} ({letter}) after {k} of {len(steps)} operations '
                f'returned ({brief(steps[k] if k < len(steps) else None, 500)})')
        rec.count('kills')
        rec.count('kills_torn', mode == 1)
        rec.count('kills_after', mode == 2)
        left = sorted(os.listdir(self.watch))
        rec.count('hot_journals', len(left) > 1)
        allowed = [states[k]] + ([states[k + 1]] if k + 1 < len(states) else [])
        first = rng.choice(['rw', 'rw', 'ro', 'read', 'cache'])
        order = [first] + [x for x in ('ro', 'read', 'cache', 'rw') if x != first]
        if not self.spec['all']:
            order = order[:2]
        found = None
        for how in order:
            try:
                s = {'rw': lambda: toron.bind_file(target, mode='rw'), 'ro': lambda: toron.bind_file(target, mode='ro'),
                     'read': lambda: toron.read_file(target),
                     'cache': lambda: toron.read_file(target, cache_to_drive=True)}[how]()
                st = S.space_state(s)
            except Exception as e:      # noqa: BLE001
                if how == 'ro' and os.path.exists(target + '-journal') and 'readonly' in str(e):
                    # a read-only binding cannot undo what was interrupted, and says so
                    rec.count('ro_refused')
                    continue
                rec.fail(f'{what}: opening it again ({how}) raises {type(e).__name__}: {e}; files {left}')
            s = None
            got = contents(st)
            rec.count(f'opened_{how}')
            rec.check(not st.problems, lambda: f'{what}, opened {how}: {st.problems}')
            rec.check(got in allowed, lambda: f'{what}, opened {how}: neither the state before nor after; '
                                              f'{S.diff(allowed[0], got)} / {S.diff(allowed[-1], got)}')
            rec.check(found is None or got == found, lambda: f'{what}: {how} shows another state than {order[0]}')
            found = got
            rec.sig(('op', op, letter, mode, got == states[k], how, len(left)))
        if found is None:
            toron.bind_file(target, mode='rw')
            found = look(target)[0]
            rec.check(found in allowed, lambda: f'{what}: neither the state before nor after; '
                                                f'{S.diff(allowed[0], found)} / {S.diff(allowed[-1], found)}')
        if allowed[0] != allowed[-1]:
            rec.count('found_before' if found == allowed[0] else 'found_after')
        if rng.random() < 0.25:
            # the rest of the operations as if nothing had happened
            at = k if found == states[k] else k + 1
            if results[k:k + 1] and not results[k].startswith('ok'):
                at = k
            s = toron.bind_file(target, mode='rw')
            for op, want in zip(steps[at:], results[at:]):
                res = self.apply(s, op)
                rec.check(res[:40] == want[:40], lambda: f'{what}: then {brief(op, 300)} gives {res}, not {want}')
            s = None
            rec.check(look(target)[0] == states[-1], lambda: f'{what}: going on afterwards ends in other contents')
            rec.count('resumed')

    # --------------------------------------------------------------- saves
    def saves(self):
        rec, rng = self.rec, self.rng
        kind = rng.choice(['mem', 'mem', 'cache', 'bound'])
        over = rng.choice([None, 'space', 'space', 'text', 'self'])
        if over == 'self':
            kind = 'bound'
        old = None
        if over in ('space', 'self'):
            old = self.d.aux('old.toron')
            if over == 'self':
                old = self.base
            else:
                s = toron.read_file(self.base)
                self.apply(s, self.gen.op(S.space_state(s)))
                s.set_domain('older contents')
                s.to_file(old, fsync=False)
        elif over == 'text':
            old = self.d.aux('old.toron')
            with open(old, 'wb') as f:
                f.write(b'just some text\n' * rng.choice([1, 1000]))
        src = self.d.aux('src.toron')
        shutil.copyfile(self.base, src)
        dest = os.path.join(self.watch, 'saved.toron')
        step = {'save': dest, 'fsync': rng.random() < 0.5, 'from': None if kind == 'bound' else src,
                'cache': kind == 'cache'}
        target = None
        if kind == 'bound':
            target = dest if over == 'self' else src
        want = look(self.base)[0]
        copies = [(old, 'saved.toron')] if old else []
        rec.count('saves_over' if over else 'saves_new')
        before = file_bytes(old) if old else None
        self.fresh(*copies)
        whole = self.z.run(self.watch, [step], target=target)
        rec.check(whole.error is None and whole.returned == ['ok'], lambda: f'{step}: {whole.returned} {whole.error}')
        rec.check(look(dest)[0] == want, 'a save in another process gives other contents')
        self.log.append(f'save {kind} over {over}, fsync {step["fsync"]}: {whole.trace}')
        for n, mode in self.points(whole.trace, 60):
            self.fresh(*copies)
            r = self.z.run(self.watch, [step], n, mode, target)
            rec.check(r.error is None, lambda: f'{r.error}')
            if not r.died:
                rec.count('survived')
                continue
            letter = whole.trace[n - 1] if n <= len(whole.trace) else '?'
            what = (f'killed {("before", "inside", "after")[mode]} call {n} ({letter} of {whole.trace}) of saving '
                    f'({kind}, over {over}, fsync {step["fsync"]})')
            rec.count('kills')
            rec.count('save_kills')
            rec.count('kills_torn', mode == 1)
            rec.count('kills_after', mode == 2)
            there = os.path.exists(dest)
            if not there:
                rec.check(old is None, lambda: f'{what}: the existing file is gone')
                rec.check(not r.returned, lambda: f'{what}: the save returned, but there is no file')
                got = 'none'
            elif old is not None and file_bytes(dest) == before and (over != 'self' or not r.returned):
                rec.check(not r.returned or over == 'self', lambda: f'{what}: the save returned, but the file is the old one')
                got = 'old'
            else:
                try:
                    have, bad = look(dest)
                except Exception as e:      # noqa: BLE001
                    rec.fail(f'{what}: the file is neither the old one nor readable: {e!r}')
                rec.check(have == want and not bad, lambda: f'{what}: the file is neither the old one nor the new one: '
                                                            f'{S.diff(want, have)} {bad}')
                s = toron.bind_file(dest, mode='ro')
                rec.check(contents(S.space_state(s)) == want, lambda: f'{what}: opens with other contents')
                s = None
                got = 'new'
            rec.count('saved_new' if got == 'new' else 'saved_old')
            rec.sig(('save', kind, over, step['fsync'], letter, mode, got))
            if target and over != 'self':
                rec.check(look(src)[0] == want, lambda: f'{what}: the saved space itself is changed')


def run_case(spec, rec):
    rng = rng_for('case', spec['seed'])
    with case_dir() as d:
        c = None
        try:
            c = Case(spec, rec, rng, d)
            if spec['kind'] == 'ops':
                c.operations()
            else:
                c.saves()
        except Violation as e:
            tail = '\n'.join(f'      {x}' for x in (c.log if c else [])[-25:])
            raise Violation(f'{e.message}\n   case {spec["seed"]}:\n{tail}', mech=e.mech)
        rec.sample(f'case {spec["seed"]}: {spec["kind"]}; ' + '; '.join(x[:160] for x in c.log[-3:]))
