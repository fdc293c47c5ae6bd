"""C15: merging, removing or refining records keeps totals of dependents."""
from vt import flow, gen, hist, model
from vt import state as S

PROPERTY = 'C15'
LEVEL = 'exploration'
RULE = ('Random histories with merging updates, deletions and reify weighted up; after each such '
        'step group totals, per-source mapping totals and proportions are compared with those '
        'before it (independently of the step model, which is compared too); a situation is one '
        '(operation, outcome, records touched, levels and links involved) combination.')
ASSUMPTIONS = ['contents are read by a separate SQLite reader of the documented tables']
MIN = {'merges': 200, 'deletes': 200, 'reifies': 60, 'merged_weights': 60, 'merged_mappings': 60,
       'deletes_refused_approximate': 10, 'reified_mappings': 40}
MIX = gen.mix(0.12, update_index=3, delete_index=2, reify=4, insert_index=0.7, insert_mappings=2,
              insert_mappings2=2, insert_weights=0.7, add_link=0.8)


class Gen(gen.Gen):
    def g_update_index(self, st):
        op = super().g_update_index(st)
        if op is not None and self.p(0.6):
            op['merge'] = True
        return op


def plan(tier, seed):
    return hist.plan(PROPERTY, tier, seed, 900, 11000)


def _group_totals(st):
    out = {g: 0.0 for g in st.groups}
    for (g, i), v in st.weights.items():
        out[g] += v
    return out


def _source_totals(st):
    out = {}
    for k, (v, p) in st.mappings.items():
        out[k[:3]] = out.get(k[:3], 0.0) + v
    return out


def close(a, b):
    return abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b))


def same(rec, what, a, b, op):
    rec.check(set(a) == set(b), lambda: f'{what}: {sorted(set(a) ^ set(b))!r} appeared or vanished by {op!r}')
    for k in a:
        rec.check(close(a[k], b[k]), lambda: f'{what} of {k!r} changed from {a[k]!r} to {b[k]!r} by {op!r}')


def each(h, op, outcome):
    rec, pre, post = h.rec, h.driver.pre, h.driver.state
    if outcome not in ('ok', 'any:ok'):
        if op['op'] == 'delete_index' and any(
                S.level_columns(pre.columns, k[4]) != set(pre.columns) for k in pre.mappings):
            rec.count('deletes_refused_approximate')
        return
    gone = set(pre.index) - set(post.index)
    if op['op'] == 'update_index':
        rec.count('merges', bool(gone))
        same(rec, 'weight total', _group_totals(pre), _group_totals(post), op)
        same(rec, 'mapping total of source record', _source_totals(pre), _source_totals(post), op)
        rec.count('merged_weights', sum(1 for k in pre.weights if k[1] in gone))
        rec.count('merged_mappings', sum(1 for k in pre.mappings if k[3] in gone))
        rec.eq(sum(post.quantities.values()), sum(pre.quantities.values()), f'quantities after {op!r}')
    elif op['op'] == 'delete_index':
        rec.count('deletes', bool(gone))
        rec.eq({k: v for k, v in post.weights.items()},
               {k: v for k, v in pre.weights.items() if k[1] not in gone}, f'weights after {op!r}')
        rec.eq(post.quantities, pre.quantities, f'quantities after {op!r}')
        for k, (v, p) in pre.mappings.items():
            if k[3] not in gone:
                rec.check(k in post.mappings and post.mappings[k][0] == v,
                          lambda: f'mapping {k!r} of another record lost or changed by {op!r}')
    elif op['op'] == 'reify':
        rec.count('reifies')
        same(rec, 'mapping total of source record', _source_totals(pre), _source_totals(post), op)

        def by_pair(st):
            out = {}
            for k, (v, p) in st.mappings.items():
                out[k[:4]] = out.get(k[:4], 0.0) + (p or 0.0)
            return out
        same(rec, 'proportion', by_pair(pre), by_pair(post), op)
        rec.count('reified_mappings', sum(1 for k in pre.mappings if k not in post.mappings))
    for i in gone:
        rec.check(not any(k[1] == i for k in post.weights) and not any(k[3] == i for k in post.mappings),
                  lambda: f'record {i} is gone but still has weights or mappings after {op!r}')


def prologue(h):
    for f in gen.base_ops(h.gen, h.rng):
        yield f


def run_case(spec, rec):
    hist.run(spec, rec, ('index', 'weights', 'mappings', 'quantities', 'problems'), MIX,
             each=each, gencls=Gen)
