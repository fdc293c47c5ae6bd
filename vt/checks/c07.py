"""C07: behaviour does not depend on where the space is stored."""
import gc

import toron

from vt import flow, gen, hist, history, ops, query, store
from vt import state as S
from vt.base import Violation, brief, case_dir, rng_for

PROPERTY = 'C07'
LEVEL = 'exploration'
RULE = ('One random history is applied in lockstep to the same space kept in memory, in an on-drive '
        'cache, bound to a file, and continually saved and reopened; after every step the outcome '
        '(error type and text) and raw contents are compared, and regularly the results of every '
        'read operation; a situation is one (operation, outcome, shape of contents).')
ASSUMPTIONS = ['rows are compared as multisets; the order in which rows come is not promised']
MIN = {'lockstep_steps': 6336, 'snapshots': 630, 'queries_compared': 20000, 'reopened': 800,
       'steps_failed': 400, 'queries_ok': 15000, 'flows_with_rows': 200, 'translations_with_rows': 60,
       'dropped_iterators': 100}
MIX = gen.mix(1.0)


def plan(tier, seed):
    return hist.plan(PROPERTY, tier, seed, 420, 5000, steps=14, bulk=(300, 80, 600, 140))


def seed_space(d, rng):
    """A space file and its copies, one per storage kind."""
    first = d.path()
    toron.DataSpace().to_file(first, fsync=False)
    return {kind: store.load(copy(first, d), kind, rng) for kind in ('mem', 'cache', 'file')} | {
        'moving': store.load(copy(first, d), rng.choice(store.KINDS), rng)}


def copy(path, d):
    import shutil
    new = d.path()
    shutil.copyfile(path, new)
    return new


def sources(rng, rec):
    """Other spaces: two plain ones and one that can be disaggregated."""
    others = gen.make_others(rng)
    for s in others.values():
        s.add_weight_group('w', make_default=True)
        s.insert_weights('w', [('P', 'Q', 'w')] + [r[1:] + (rng.choice([1, 2, 3.5]),)
                                                   for r in s.select_index() if r[0]])
        rows = [r[1:] for r in s.select_index() if r[0]]
        s.set_registered_attributes(['category', 'year'])
        s.insert_quantities2(
            value_column='v', data=[('P', 'Q', 'category', 'year', 'v')] + sorted({
                (p, rng.choice([q, '']), rng.choice(['MALE', 'FEMALE']), '2020', rng.choice([1, 2, 7]))
                for p, q in rows}, key=repr), allow_invalid_label=True, allow_invalid_partition=True,
            on_existing='replace')
        s.delete_unmatched_quantities()
    return others


def outcome(space, op, env):
    try:
        ops.apply(space, op, env)
        return 'ok'
    except Exception as e:      # noqa: BLE001
        return f'{type(e).__name__}: {e}'


def compare_all(h, rec, step):
    names = list(h['spaces'])
    base = S.full(S.space_state(h['spaces']['mem']))
    for n in names[1:]:
        other = S.full(S.space_state(h['spaces'][n]))
        rec.check(other == base, lambda: f'contents in memory and {n} differ after {step}: '
                                         f'{S.diff(base, other)}')
    return base


def look(h, rec, rng, step):
    sel = rng.choice([(), (), ('[category]',), ('[year="2020"]',)])
    sums = rng.choice([None, None, ['category']])
    base = query.snapshot(h['spaces']['mem'], h['others'], sel, sums)
    for n in list(h['spaces'])[1:]:
        snap = query.snapshot(h['spaces'][n], h['others'], sel, sums)
        bad = query.differences(base, snap)
        rec.check(not bad, lambda: f'reads in memory and {n} differ after {step}: {bad[:3]!r}')
        rec.ev(len(base))
        rec.count('queries_compared', len(base))
    rec.count('snapshots')
    rec.count('queries_ok', sum(1 for v in base.values() if v[0] == 'ok'))
    v = base['disaggregated']
    rec.count('flows_with_rows', v[0] == 'ok' and len(v[1][1]) > 0)
    rec.count('translations_with_rows',
              sum(1 for k, v in base.items()
                  if k.startswith('translated') and v[0] == 'ok' and v[1][1]))
    # iterators that are dropped half-read must not matter either
    if rng.random() < 0.4:
        for s in h['spaces'].values():
            try:
                it = s.select_index()
                next(it, None)
                q = s.select_quantities()
                next(q, None)
            except Exception:       # noqa: BLE001
                pass
        it = q = None
        gc.collect()
        rec.count('dropped_iterators')


def run_case(spec, rec):
    rng = rng_for('case', spec['seed'])
    log = []
    with case_dir() as d:
        others = sources(rng, rec)
        env = ops.Env(others)
        ids = {k: [r[0] for r in s.select_index()] for k, s in others.items()}
        g = gen.Gen(rng, env, weights=MIX, size=spec['size'], wild=spec['wild'], other_ids=ids)
        g.bulk = spec.get('bulk', 0)
        rec.count('bulk_histories', bool(g.bulk))
        h = {'spaces': seed_space(d, rng), 'others': others}
        state = S.space_state(h['spaces']['mem'])

        def step(op):
            nonlocal state
            pre = state
            outs = {n: outcome(s, op, env) for n, s in h['spaces'].items()}
            log.append((op, outs['mem'][:90]))
            rec.check(len(set(outs.values())) == 1,
                      lambda: f'different outcomes of {brief(op, 900)}: {brief(outs, 900)}')
            compare_all(h, rec, brief(op, 700))
            state = S.space_state(h['spaces']['mem'])
            rec.count('lockstep_steps')
            rec.count('steps_failed', outs['mem'] != 'ok')
            rec.sig((op['op'], outs['mem'][:20], op.get('form'), history.shape(pre)))
            if rng.random() < 0.3:
                h['spaces']['moving'] = store.move(h['spaces']['moving'], rng.choice(store.KINDS), d, rng)
                rec.count('reopened')
        try:
            for f in gen.base_ops(g, rng):
                op = f(state)
                if op:
                    step(op)
            for n in range(spec['steps']):
                step(g.op(state))
                if n % 5 == 2:
                    for fix in flow.heal(state, g, 0.8):
                        step(fix)
                    if rng.random() < 0.5 and state.links:
                        step(cover(state, g, rng))
                    look(h, rec, rng, brief(log[-1], 500))
        except Violation as e:
            tail = '\n'.join(f'      {o!r} -> {r}'[:500] for o, r in log[-6:])
            raise Violation(f'{e.message}\n   history {spec["seed"]}:\n{tail}', mech=e.mech)
        rec.sample(f'history {spec["seed"]}: ' + '; '.join(f'{o["op"]} -> {r[:50]}' for o, r in log[-4:]))
        h.clear()
        gc.collect()


def cover(st, g, rng):
    """Map every record of some source so that a translation becomes possible."""
    uid, name = rng.choice(sorted(st.links))
    key = [k for k in g.env.others if g.env.uid(k) == uid][0]
    targets = [i for i in st.index if i]
    have = {(k[2], k[3]) for k in st.mappings if k[:2] == (uid, name)}
    rows = []
    for o in g.other_ids[key]:
        if o and targets:
            t = rng.choice(targets)
            if (o, t) not in have:
                rows.append([o, t, list(st.columns), g.value()])
    return {'op': 'insert_mappings2', 'other': key, 'name': name, 'form': 'columns',
            'columns': ['other_index_id', 'index_id', 'mapping_level', name], 'rows': rows}
