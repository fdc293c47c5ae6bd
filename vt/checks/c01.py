"""C01: disaggregation splits every quantity by weight and conserves totals."""
from vt import flow, gen, hist
from vt.base import brief
from vt.model import Refused

PROPERTY = 'C01'
LEVEL = 'exploration'
RULE = ('Random edit histories on real spaces; at several points the rows of space(...) are compared '
        'with an exact-fraction recomputation from the stored contents, per record, attribute set '
        'and total; a situation is one (options, shape of contents, levels used, groups used) '
        'combination.')
ASSUMPTIONS = ['shares are compared up to 1e-9 of the magnitudes summed (floating point)',
               'a row that is missing counts as a share of zero']
MIN = {'disagg_ok': 400, 'disagg_refused': 50, 'groups_by_selector': 50, 'split_quantities': 400,
       'zero_total_splits': 20, 'undefined_only': 10, 'filtered': 60, 'summed': 60, 'large_spaces': 37}
MIX = gen.mix(0.15, insert_quantities2=2.5, insert_quantities=1.5, insert_weights=0.6,
              update_weights=1.5, delete_weights=0.2, edit_group=3, add_group=1.5, set_default=2,
              insert_index=0.5, update_index=0.4, delete_index=0.3, add_partition=1,
              drop_partitions=0.5, set_domain=1.5, add_link=None, edit_link=None, drop_link=None,
              insert_mappings=None, insert_mappings2=None, update_mappings=None,
              delete_mappings=None, reify=None)


class Gen(gen.Gen):
    VALUES = gen.VALUES + [0, 0, 1e-9, 1e9, 123456789, 0.1, 0.3]
    NEGATIVE = 0.15
    TURNED = 0.3


def plan(tier, seed):
    specs = hist.plan(PROPERTY, tier, seed, 900, 12000, steps=14)
    for spec in specs[::12]:    # a few spaces with many records
        spec.update(large=True, steps=6, moves=False, wild=0.02)
    return specs


def large(h):
    """Operations building a space of many records, some columns of which are
    nearly as fine as all columns together."""
    rng = h.rng
    cols = ['A', 'B', 'C'][:rng.choice([2, 2, 3])]
    n = rng.choice([20, 30, 45, 70])
    keys = [f'r{k}' for k in range(n)]
    for _ in range(rng.choice([1, 1, 2, 4])):
        keys[rng.randrange(n)] = rng.choice(keys)
    rows = [[keys[k], f's{k}', rng.choice('abc')][:len(cols)] for k in range(n)]
    if rng.random() < 0.5:
        rng.shuffle(rows)
    yield lambda st: {'op': 'add_columns', 'cols': cols}
    yield lambda st: {'op': 'add_partition', 'partition': ['A']}
    if len(cols) > 2:
        yield lambda st: {'op': 'add_partition', 'partition': rng.choice([['C'], ['A', 'C']])}
    yield lambda st: h.gen.table({'op': 'insert_index'}, cols, rows)
    for g in h.gen.GROUPS[:rng.choice([1, 2])]:
        yield lambda st, g=g: {'op': 'add_group', 'name': g, 'selectors': h.gen._selectors()}
        yield lambda st, g=g: h.gen.table(
            {'op': 'insert_weights', 'name': g}, ['index_id'] + cols + [g],
            [[i] + list(st.index[i]) + [rng.choice(gen.VALUES)] for i in st.index if i])
    yield lambda st: {'op': 'set_attrs', 'attrs': [a for a, _ in gen.ATTRS]}

    def quants(st):
        twice = sorted({k for k in keys if keys.count(k) > 1})
        pool = twice + rng.sample(keys, min(6, n))
        out = [[a] + [''] * (len(cols) - 1) + [rng.choice(['TOTAL', 'MALE']), rng.choice(gen.VALUES)]
               for a in dict.fromkeys(pool)]
        return h.gen.table({'op': 'insert_quantities2', 'value': 'val', 'on_existing': 'abort',
                            'allow_label': False, 'allow_partition': False},
                           cols + ['category', 'val'], out)
    yield quants
    yield lambda st: dict(h.gen.g_insert_quantities2(st) or {'domain': 'd1'},
                          op='insert_quantities2' if st.registered else 'set_domain')


SELECTIONS = [(), (), (), ('[category]',), ('[category="MALE"]',), ('[year="2020"]', '[kind="x"]'),
              ('[nothing]',), (':not([kind])',), ('[category][year]',), ('[domain="d1"]',)]
SUMS = [None, None, None, 'category', ['category'], ['year', 'kind'], ['nothing'], ['domain'],
        ('category', 'year')]


def look(h, op, outcome):
    rng = h.rng
    if rng.random() > 0.4:
        return
    if rng.random() < 0.85:
        for fix in flow.heal(h.state, h.gen):
            h.driver.step(fix)
    disaggregate(h)


def disaggregate(h):
    st, rec, rng = h.state, h.rec, h.rng
    if not st.columns or len(st.index) < 2:
        return
    if any(abs(v) == float('inf') for v in st.quantities.values()):
        return      # only finite quantities have shares
    sels = rng.choice(SELECTIONS)
    sums = rng.choice(SUMS)
    drive = rng.random() < 0.2
    what = f'space(*{sels!r}, sum_by_attrs={sums!r}, cache_to_drive={drive})'
    try:
        want, parts = flow.disaggregate(st, sels, sums)
    except Refused as e:
        want = None
    try:
        reader = h.space(*sels, sum_by_attrs=sums, cache_to_drive=drive)
        got = flow.read_rows(rec, reader, st, what)
        reader.close()
    except RuntimeError as e:
        rec.check(want is None, lambda: f'{what} refused ({e}) although every quantity can be placed')
        rec.count('disagg_refused')
        return
    rec.check(want is not None, lambda: f'{what} returned rows although it must be refused')
    text = flow.compare(rec, got, want, st, what)
    rec.count('disagg_ok')
    rec.count('filtered', bool(sels))
    rec.count('summed', bool(sums))
    choose = flow.model.group_chooser(st)
    used = set()
    levels = set()
    for (loc, attr), value, rows in parts:
        levels.add(tuple(x != '' for x in loc))
        if len(rows) > 1:
            rec.count('split_quantities')
            g = choose(flow.model.full_attrs(st, attr))
            used.add(g)
            if g != st.default:
                rec.count('groups_by_selector')
            if all(st.weights[g, i] == 0 for i, _ in rows):
                rec.count('zero_total_splits')
        if [i for i, _ in rows] == [0]:
            rec.count('undefined_only')
    if parts:
        rec.sig((sels, repr(sums), drive, sorted(levels), len(used), len(parts),
                 len(st.index), len(st.columns), st.domain != ''))
    if text != '[]':
        rec.sample(f'{what} -> {text}')


def run_case(spec, rec):
    rec.count('large_spaces', bool(spec.get('large')))
    hist.run(spec, rec, ('quantities', 'weights', 'groups'), MIX, each=look, end=disaggregate,
             gencls=Gen, prologue=large if spec.get('large') else None)
