"""C06: saving and loading preserves everything."""
import gc
import os
import pathlib
import stat

import toron

from vt import flow, gen, hist, history, ops, query, store
from vt import state as S
from vt.base import Violation, brief, case_dir, file_bytes, rng_for
from vt.checks.c07 import cover, sources

PROPERTY = 'C06'
LEVEL = 'exploration'
RULE = ('Spaces reached by random histories are saved (fsync on/off, unusual paths, existing '
        'destinations) and loaded in every mode; raw contents of the original before and after, of '
        'the file and of the loaded spaces are compared, then every read operation and the outcome '
        'of further operations; a situation is one (storage, load mode, kind of destination, shape).')
ASSUMPTIONS = ['the stored application version is not part of the contents',
               'rows are compared as multisets; the order in which rows come is not promised']
MIN = {'saves': 1500, 'loads': 2500, 'queries_compared': 20000, 'continued': 1500, 'resaves': 500, 'saved_again': 400,
       'over_existing': 400, 'over_itself': 40, 'odd_paths': 300, 'flows_with_rows': 150,
       'with_quantities': 400, 'with_mappings': 300}
MIX = gen.mix(1.0)
NAMES = ['plain.toron', 'two words.toron', "it's \"quoted\".toron", 'per%20cent.toron', 'a?b.toron',
         'a#b.toron', 'é ü 漢字.toron', 'no_extension', '.hidden', '-dash.toron', 'a;b&c.toron',
         'file:x.toron', 'dots..toron', 'CAPS.TORON', 'x' * 120 + '.toron', 'back\\slash.toron',
         ' lead.toron', 'trail ', ':memory:', 'tab\there.toron', '[glob]*.toron', '~home.toron']


def plan(tier, seed):
    return hist.plan(PROPERTY, tier, seed, 600, 5000, steps=12)


def destination(d, rng, rec):
    """A path object in some legal form, its absolute name, and what was there before."""
    name = rng.choice(NAMES) if rng.random() < 0.6 else f'p{rng.randint(0, 10 ** 6)}.toron'
    rec.count('odd_paths', name[0] != 'p')
    sub = d.work
    if rng.random() < 0.3:
        sub = os.path.join(d.work, rng.choice(['sub', 'sub dir', 'ünder%41', 'a?b#c']))
        os.makedirs(sub, exist_ok=True)
    full = os.path.join(sub, name)
    kind = rng.choice(['str', 'bytes', 'path', 'rel', 'relpath'])
    rel = os.path.relpath(full, os.getcwd())
    if name.startswith('~') or name == ':memory:':
        kind = rng.choice(['str', 'path', 'bytes'])
    form = {'str': full, 'bytes': os.fsencode(full), 'path': pathlib.Path(full), 'rel': rel,
            'relpath': pathlib.Path(rel)}[kind]
    before = 'new'
    if os.path.exists(full):
        before = 'old save'
    elif rng.random() < 0.4:
        before = rng.choice(['garbage', 'empty', 'other space'])
        if before == 'garbage':
            with open(full, 'wb') as f:
                f.write(b'not a database ' * rng.randint(1, 30000))
        elif before == 'empty':
            open(full, 'wb').close()
        else:
            s = toron.DataSpace()
            s.add_index_columns('zzz')
            s.insert_index([['zzz']] + [[f'v{i}'] for i in range(rng.choice([1, 800]))])
            s.to_file(full, fsync=False)
    rec.count('over_existing', before != 'new')
    return form, full, before, kind


def load(form, mode, rng):
    if mode in ('ro', 'rw') and isinstance(form, str):
        return store.bind(os.path.abspath(form), mode, rng)
    if mode == 'mem':
        return toron.read_file(form)
    if mode == 'cache':
        return toron.read_file(form, cache_to_drive=True)
    return toron.bind_file(form, mode=mode)


def round_trip(h, d):
    rec, rng = h.rec, h.rng
    before = S.full(h.state)
    rec.count('with_quantities', bool(h.state.quantities))
    rec.count('with_mappings', bool(h.state.mappings))
    bound = h.paths.get('bound')
    raw = file_bytes(bound) if bound else None
    form, full, was, kind = destination(d, rng, rec)
    fsync = rng.choice([True, False, None])
    what = f'saving ({h.spec["store"]}, fsync={fsync}) to {form!r} ({was})'
    names_before = set(os.listdir(os.path.dirname(full)))
    if fsync is None:
        h.space.to_file(form)
    else:
        h.space.to_file(form, fsync=fsync)
    rec.count('saves')
    names_after = set(os.listdir(os.path.dirname(full)))
    rec.check(names_after == names_before | {os.path.basename(full)},
              lambda: f'{what}: directory went from {sorted(names_before)} to {sorted(names_after)}')
    mode = stat.S_IMODE(os.stat(full).st_mode)
    um = os.umask(0)
    os.umask(um)
    rec.check(mode == 0o666 & ~um, lambda: f'{what}: file has permissions {mode:o}')
    if bound:
        rec.check(file_bytes(bound) == raw, f'{what}: changed the file the space is bound to')
    written = S.full(S.read_state(full))
    rec.check(written == before, lambda: f'{what}: the file differs from the space: '
                                         f'{S.diff(before, written)}')
    now = S.full(S.space_state(h.space))
    rec.check(now == before, lambda: f'{what}: saving changed the space: {S.diff(before, now)}')
    digest = file_bytes(full)
    # load it again in two ways
    modes = ['mem', 'cache', 'rw', 'ro']
    rng.shuffle(modes)
    base_snap = None
    for n, m in enumerate(modes[:2]):
        if m == 'ro':
            os.chmod(full, 0o444)
        other = load(form if rng.random() < 0.5 else full, m, rng)
        again = S.full(S.space_state(other))
        rec.check(again == before, lambda: f'{what}, loaded as {m}: {S.diff(before, again)}')
        rec.count('loads')
        if rng.random() < 0.35:
            sel = rng.choice([(), ('[category]',)])
            if base_snap is None:
                base_snap = (sel, query.snapshot(h.space, h.others, sel))
            sel, base = base_snap
            snap = query.snapshot(other, h.others, sel)
            bad = query.differences(base, snap)
            rec.check(not bad, lambda: f'{what}, loaded as {m}: reads differ: {bad[:3]!r}')
            rec.count('queries_compared', len(base))
            v = base['disaggregated']
            rec.count('flows_with_rows', v[0] == 'ok' and len(v[1][1]) > 0)
        # a second save changes nothing further
        second = d.path()
        other.to_file(second, fsync=rng.random() < 0.3)
        twice = S.full(S.read_state(second))
        rec.check(twice == before, lambda: f'{what}, loaded as {m} and saved again: '
                                           f'{S.diff(before, twice)}')
        rec.count('resaves')
        if m != 'rw':
            rec.check(file_bytes(full) == digest, f'{what}: loading as {m} and reading changed the file')
        rec.sig((h.spec['store'], m, was, kind, fsync, history.shape(h.state)))
        if m == 'ro':
            os.chmod(full, 0o644)
        elif n == 1:                # last: this may move the original on
            continue_both(h, other, d, what + f', loaded as {m}')
        other = None
        gc.collect()
    for _ in range(rng.choice([0, 0, 2, 3])):
        # small changes, saved to the same place again and again
        op = h.gen.op(h.state)
        h.step(op)
        h.space.to_file(form, fsync=rng.random() < 0.2)
        now, again = S.full(S.space_state(h.space)), S.full(S.read_state(full))
        rec.check(now == again, lambda: f'{what}, then {brief(op, 600)} and saving there again: the file differs '
                                        f'from the space: {S.diff(now, again)}')
        rec.count('saved_again')
    os.unlink(full)


def continue_both(h, other, d, what):
    """The original (a copy of it) and the loaded space behave alike from here on."""
    rec, rng = h.rec, h.rng
    path = d.path()
    h.space.to_file(path, fsync=False)
    twin = store.load(path, rng.choice(store.KINDS)) if rng.random() < 0.5 else None
    a = h.space if twin is None else twin
    # work on copies, so the history under observation is not disturbed
    if twin is None:
        state = h.state
        for n in range(2):
            op = h.gen.op(state)
            out = []
            for s in (a, other):
                try:
                    ops.apply(s, op, h.env)
                    out.append('ok')
                except Exception as e:      # noqa: BLE001
                    out.append(f'{type(e).__name__}: {e}')
            x, y = S.space_state(a), S.space_state(other)
            h.driver.state = state = x
            h.driver.log.append((op, out[0]))
            judge(rec, what, op, out, x, y)
        return
    state = h.state
    for n in range(3):
        op = h.gen.op(state)
        out = []
        for s in (a, other):
            try:
                ops.apply(s, op, h.env)
                out.append('ok')
            except Exception as e:      # noqa: BLE001
                out.append(f'{type(e).__name__}: {e}')
        state, y = S.space_state(a), S.space_state(other)
        judge(rec, what, op, out, state, y)


def judge(rec, what, op, out, x, y):
    rec.count('continued')
    rec.check(out[0] == out[1], lambda: f'{what}: then {brief(op, 700)} gives {out[0][:300]!r} in the '
                                        f'original and {out[1][:300]!r} in the loaded space')
    x, y = S.full(x), S.full(y)
    rec.check(x == y, lambda: f'{what}: then {brief(op, 700)} gives different contents: {S.diff(x, y)}')


def over_itself(h, d):
    """Saving a bound space over its own file."""
    path = h.paths.get('bound')
    if not path:
        return
    before = S.full(h.state)
    h.space.to_file(path, fsync=h.rng.random() < 0.5)
    after = S.full(S.space_state(h.space))
    h.rec.check(after == before, lambda: f'saving a bound space over its own file changed it: '
                                         f'{S.diff(before, after)}')
    h.rec.count('over_itself')


def run_case(spec, rec):
    rng = rng_for('case', spec['seed'])
    spec = dict(spec, store=rng.choice(['mem', 'mem', 'cache', 'file']))
    with case_dir() as d:
        h = hist.History(spec, rec, rng, d, (), MIX, gen.Gen)
        try:
            h.others = sources(rng, rec)
            h.env = h.driver.env = h.gen.env = ops.Env(h.others)
            h.gen.other_ids = {k: [r[0] for r in s.select_index()] for k, s in h.others.items()}
            h.paths = {'bound': d.path('bound.toron')} if spec['store'] == 'file' else {}
            if h.paths:
                h.space = h.driver.space = toron.bind_file(h.paths['bound'], mode='rwc')
                h.driver.state = S.space_state(h.space)
            if rng.random() < 0.1:
                round_trip(h, d)                 # an empty space
            for f in gen.base_ops(h.gen, rng):
                op = f(h.state)
                if op:
                    h.step(op)
            for n in range(spec['steps']):
                h.step(h.gen.op(h.state))
                if n % 3 == 1:
                    if rng.random() < 0.6:
                        for fix in flow.heal(h.state, h.gen, 0.8):
                            h.step(fix)
                        if h.state.links:
                            h.step(cover(h.state, h.gen, rng))
                    round_trip(h, d)
                if rng.random() < 0.08:
                    over_itself(h, d)
        except Violation as e:
            tail = '\n'.join(f'      {o!r} -> {r}'[:500] for o, r in h.driver.log[-6:])
            raise Violation(f'{e.message}\n   history {spec["seed"]} ({spec["store"]}):\n{tail}',
                            mech=e.mech)
        finally:
            h.close()
        rec.sample(f'history {spec["seed"]} ({spec["store"]}): ' +
                   '; '.join(f'{o["op"]} -> {r[:50]}' for o, r in h.driver.log[-4:]))
