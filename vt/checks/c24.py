"""C24: reshaping tables loses and invents nothing."""
import collections
import csv
import io
import random
import types

import toron

from vt import state as S
from vt.base import brief, case_dir, rng_for

PROPERTY = 'C24'
LEVEL = 'exploration'
RULE = ('Random tables presented in every input form are converted with wide_to_long and wide_to_narrow '
        'and compared, cell by cell and by identity, with the rows a nested loop gives; inputs are '
        'counted while output is pulled; the same tables are loaded into spaces in every form; a '
        'situation is one (function, form, shape, names, short rows) combination.')
ASSUMPTIONS = ['rows given as mappings have the keys of the first row (missing ones read as None)',
               'the cells of one row do not outnumber the columns; wide_to_narrow needs all of them']
MIN = {'long_tables': 3000, 'narrow_tables': 1500, 'lazy': 1500, 'short_rows': 300, 'odd_names': 300,
       'refused': 500, 'loaded_forms': 800, 'normalized': 2500, 'repeated_names': 100,
       'empty_tables': 150}


def plan(tier, seed):
    a, b = (800, 700) if tier == 'quick' else (12000, 8000)
    return ([dict(seed=f'C24-{seed}-r{i}', kind='reshape', n=60) for i in range(a)] +
            [dict(seed=f'C24-{seed}-l{i}', kind='load') for i in range(b)])


TEXTS = ['A', 'B', 'C', 'a b', '', 'variable ', 'é', '漢', "it's", '"q"', 'x,y', 'val', '0', 'name', '__x__']
ODD = [0, 1, -5, 2.5, ('t', 1), frozenset({3}), b'raw', True, '\n']


class Row(collections.abc.Sequence):
    """A sequence that is neither a list nor a tuple."""

    def __init__(self, items):
        self._items = list(items)

    def __len__(self):
        return len(self._items)

    def __getitem__(self, i):
        return self._items[i]


def cell(rng):
    return rng.choice([None, '', 'x', 0, 1.5, float('nan'), 'A', ('n', 1), [1], {'k': 2}, object(),
                       'variable', 10 ** 30, 'é\n"', rng.random(), rng.randint(0, 9)])


def table(rng, text=False):
    n = rng.choice([1, 2, 3, 3, 4, 6, 10])
    names = rng.sample(TEXTS, n)
    odd = not text and rng.random() < 0.25
    if odd:
        for x in rng.sample(ODD[:-2], rng.randint(1, min(n, 4))):
            if x not in names:
                names[rng.randrange(n)] = x
        names = list(dict.fromkeys(names))
    rows = []
    for _ in range(rng.choice([0, 1, 2, 5, 20])):
        rows.append([str(rng.choice(TEXTS + [rng.random()])) if text else cell(rng) for _ in names])
    return names, rows, odd


def as_csv(names, rows):
    f = io.StringIO(newline='')
    w = csv.writer(f)
    w.writerow(names)
    w.writerows(rows)
    f.seek(0)
    return f


class Counting(object):
    """An iterator that counts what was taken from it."""

    def __init__(self, items):
        self.it, self.n = iter(items), 0

    def __iter__(self):
        return self

    def __next__(self):
        x = next(self.it)
        self.n += 1
        return x


def forms(rng, names, rows, text):
    """(name, maker, gives mappings, header counted) for every form of the table."""
    def mixed():
        for n, r in enumerate(rows):
            items = list(zip(names, r))
            if n:
                random.Random(n * 31 + len(names)).shuffle(items)
            yield dict(items)
    out = [
        ('tuples', lambda: [tuple(names)] + [tuple(r) for r in rows], False),
        ('lists', lambda: [list(names)] + [list(r) for r in rows], False),
        ('generator', lambda: (tuple(r) for r in [names] + rows), False),
        ('rows', lambda: (Row(r) for r in [names] + rows), False),
        ('dicts', lambda: [dict(zip(names, r)) for r in rows], True),
        ('mixed dicts', mixed, True),        # the keys of each row in another order
        ('dict generator', lambda: (dict(zip(names, r)) for r in rows), True),
        ('proxies', lambda: [types.MappingProxyType(dict(zip(names, r))) for r in rows], True),
        ('ordered', lambda: [collections.OrderedDict(zip(names, r)) for r in rows], True),
    ]
    if text:
        out += [('csv.reader', lambda: csv.reader(as_csv(names, rows)), False),
                ('csv.DictReader', lambda: csv.DictReader(as_csv(names, rows)), True)]
    return out


def same(a, b):
    return a is b or (type(a) is type(b) and isinstance(a, (str, bytes)) and a == b)


def same_rows(rec, got, want, what, order=True):
    rec.check(len(got) == len(want), lambda: f'{what}: {len(got)} rows instead of {len(want)}: '
                                             f'{brief(got, 500)}')
    for g, w in zip(got, want):
        if isinstance(w, dict):
            ok = isinstance(g, collections.abc.Mapping) and \
                (list(g) == list(w) if order else set(g) == set(w)) and \
                all(same(g[k], w[k]) for k in w)
        else:
            ok = len(g) == len(w) and all(same(x, y) for x, y in zip(g, w))
        rec.check(ok, lambda: f'{what}: row {brief(g, 300)} instead of {brief(w, 300)}')


def stack_form(rng, cols):
    kind = rng.choice(['list', 'tuple', 'generator', 'keys', 'iter'])
    if len(cols) == 1 and rng.random() < 0.5 and \
            (isinstance(cols[0], str) or not isinstance(cols[0], collections.abc.Iterable)):
        return 'single', cols[0]
    return kind, {'list': lambda: list(cols), 'tuple': lambda: tuple(cols),
                  'generator': lambda: (c for c in cols), 'keys': lambda: dict.fromkeys(cols).keys(),
                  'iter': lambda: iter(cols)}[kind]()


def new_names(rng, names):
    if rng.random() < 0.5:
        return {}, 'variable', 'value'
    pool = [x for x in TEXTS + ['var', 'w', 7, ('v',)] if x not in names]
    a, b = rng.sample(pool, 2)
    return {'var': a, 'val': b}, a, b


def reshape(spec, rec):
    rng = rng_for('case', spec['seed'])
    for k in range(spec['n']):
        text = rng.random() < 0.4
        names, rows, odd = table(rng, text)
        cols = rng.sample(names, rng.randint(0 if rng.random() < 0.1 else 1, len(names)))
        kw, var, val = new_names(rng, names)
        fname, make, maps = rng.choice(forms(rng, names, rows, text))
        rec.count('odd_names', odd)
        rec.count('empty_tables', not rows)
        long_table(rec, rng, names, rows, cols, kw, var, val, fname, make, maps)
        if all(isinstance(c, str) for c in cols):
            narrow_table(rec, rng, names, rows, cols, kw, var, val, fname, make)
        normalized(rec, rng, names, rows, fname, make, maps)
        if rng.random() < 0.4:
            short(rec, rng, names, rows, cols, kw, var, val)
        if rng.random() < 0.1:
            repeated(rec, rng, names, rows, cols, kw, var, val)
        if rng.random() < 0.4:
            refusals(rec, rng, names, rows, cols, fname, make, maps)


def expected(names, rows, cols, var, val, maps):
    kept = [c for c in names if c not in cols]
    at = {c: i for i, c in enumerate(names)}
    out = [] if maps else [tuple(kept) + (var, val)]
    for r in rows:
        for c in cols:
            if maps:
                d = {x: r[at[x]] for x in kept}
                d[var] = c
                d[val] = r[at[c]]
                out.append(d)
            else:
                out.append(tuple(r[at[x]] for x in kept) + (c, r[at[c]]))
    return out


def long_table(rec, rng, names, rows, cols, kw, var, val, fname, make, maps):
    what = f'wide_to_long({fname}, names {names!r}, stack {cols!r}, {kw!r})'
    cform, arg = stack_form(rng, cols)
    kwargs = {'var_name': var, 'val_name': val} if kw else {}
    want = expected(names, rows, cols, var, val, maps)
    data = make()
    src = Counting(data)
    lazy = fname not in ('csv.reader', 'csv.DictReader')
    try:
        it = iter(toron.wide_to_long(src if lazy else data, arg, **kwargs))
        got = []
        for row in it:
            got.append(row)
            if lazy and cols:
                n = len(got) - (0 if maps else 1)
                need = -(-n // len(cols)) + (0 if maps else 1)
                rec.check(src.n <= need + 1, lambda: f'{what}: {src.n} inputs taken for {len(got)} outputs')
    except Exception as e:      # noqa: BLE001
        rec.fail(f'{what} (columns as {cform}): raised {type(e).__name__}: {e}')
    rec.count('lazy', lazy)
    same_rows(rec, got, want, f'{what} (columns as {cform})', fname != 'mixed dicts')
    rec.count('long_tables')
    rec.sig(('long', fname, cform, len(names), len(cols), len(rows), bool(kw)))
    if rows and len(names) < 4:
        rec.sample(f'{what} -> {brief(got, 200)}')


def narrow_table(rec, rng, names, rows, cols, kw, var, val, fname, make):
    what = f'wide_to_narrow({fname}, names {names!r}, stack {cols!r}, {kw!r})'
    if var in names or val in names:
        return
    kwargs = {'var_name': var, 'value_name': val} if kw else {}
    src = Counting(make()) if fname not in ('csv.reader', 'csv.DictReader') else None
    got = []
    for row in toron.wide_to_narrow(src if src is not None else make(), list(cols), **kwargs):
        got.append(row)
        if src is not None and cols:
            rec.check(src.n <= -(-len(got) // len(cols)) + 2,
                      lambda: f'{what}: {src.n} inputs taken for {len(got)} outputs')
    same_rows(rec, got, expected(names, rows, cols, var, val, True), what, fname != 'mixed dicts')
    rec.count('narrow_tables')
    rec.sig(('narrow', fname, len(names), len(cols), len(rows), bool(kw)))


def normalized(rec, rng, names, rows, fname, make, maps):
    """Every form is understood as the same table."""
    from toron import _utils
    f = getattr(_utils, 'normalize_tabular', None)
    if f is None:
        return
    what = f'normalize_tabular({fname}, names {names!r})'
    if maps and not rows and fname != 'csv.DictReader':
        return
    src = Counting(make()) if fname != 'csv.DictReader' else None
    data, columns = f(src if src is not None else make())
    if src is not None:
        rec.check(src.n <= 2, f'{what}: took {src.n} inputs at once')
    same_rows(rec, [tuple(columns)], [tuple(names)], what)
    same_rows(rec, [tuple(r) for r in data], [tuple(r) for r in rows], what)
    rec.count('normalized')
    # rows and columns given separately
    if rows and not maps:
        data, columns = f(iter([Row(r) for r in rows]), list(names))
        same_rows(rec, [tuple(columns)] + [tuple(r) for r in data],
                  [tuple(names)] + [tuple(r) for r in rows], what + ' with columns')
    elif rows:
        order = rng.sample(names, rng.randint(1, len(names)))
        data, columns = f(make(), order)
        at = [names.index(c) for c in order]
        same_rows(rec, [tuple(columns)] + [tuple(r) for r in data],
                  [tuple(order)] + [tuple(r[i] for i in at) for r in rows], what + ' with columns')


def short(rec, rng, names, rows, cols, kw, var, val):
    """Rows that end early: the missing cells read as None."""
    if not rows or not cols:
        return
    cut = [r[:rng.randint(0, len(r))] if rng.random() < 0.5 else r for r in rows]
    full = [list(r) + [None] * (len(names) - len(r)) for r in cut]
    kwargs = {'var_name': var, 'val_name': val} if kw else {}
    what = f'wide_to_long(short rows, names {names!r}, stack {cols!r}, {kw!r})'
    if rng.random() < 0.5:
        got = list(toron.wide_to_long([tuple(names)] + [tuple(r) for r in cut], list(cols), **kwargs))
        same_rows(rec, got, expected(names, full, cols, var, val, False), what)
    else:
        cut[0], full[0] = rows[0], list(rows[0])
        got = list(toron.wide_to_long([dict(zip(names, r)) for r in cut], list(cols), **kwargs))
        same_rows(rec, got, expected(names, full, cols, var, val, True), what + ' as mappings')
    rec.count('short_rows')


def repeated(rec, rng, names, rows, cols, kw, var, val):
    """Columns of equal name that are not stacked keep their own cells."""
    kept = [i for i, c in enumerate(names) if c not in cols]
    if len(kept) < 2 or not cols:
        return
    n2 = list(names)
    n2[kept[0]] = n2[kept[1]]
    kwargs = {'var_name': var, 'val_name': val} if kw else {}
    want = [tuple(n2[i] for i in kept) + (var, val)]
    for r in rows:
        for c in cols:
            want.append(tuple(r[i] for i in kept) + (c, r[names.index(c)]))
    got = list(toron.wide_to_long([tuple(n2)] + [tuple(r) for r in rows], list(cols), **kwargs))
    same_rows(rec, got, want, f'wide_to_long(repeated names {n2!r}, stack {cols!r})')
    rec.count('repeated_names')


def refusals(rec, rng, names, rows, cols, fname, make, maps):
    def refused(what, f, *kinds):
        try:
            out = list(f())
        except kinds:
            rec.ev()
            rec.count('refused')
            return
        rec.fail(f'{what}: not refused, gave {brief(out, 300)}')
    has = bool(rows) or not maps
    missing = 'no such column'
    if has:
        refused(f'wide_to_long({fname}) with a missing column',
                lambda: toron.wide_to_long(make(), list(cols) + [missing]), ValueError, KeyError)
        kept = [c for c in names if c not in cols]
        if kept and cols:
            c = rng.choice(kept)
            kw = rng.choice([{'var_name': c}, {'val_name': c}])
            refused(f'wide_to_long({fname}, {names!r}, stack {cols!r}, {kw!r})',
                    lambda: toron.wide_to_long(make(), list(cols), **kw), ValueError)
    if rows:
        refused(f'wide_to_narrow({fname}) with a missing column',
                lambda: toron.wide_to_narrow(make(), [missing]), ValueError, KeyError)
        if cols and all(isinstance(c, str) for c in names):
            kw = rng.choice([{'var_name': names[0]}, {'value_name': names[-1]}])
            refused(f'wide_to_narrow({fname}, {names!r}, {kw!r})',
                    lambda: toron.wide_to_narrow(make(), list(cols), **kw), ValueError)
    bad = rng.choice([[1, 2], [None, None], [object()], [{1, 2}]])
    refused(f'wide_to_long of rows {bad!r}', lambda: toron.wide_to_long(bad, ['A']), TypeError)


def load(spec, rec):
    """One table of records, weights and quantities, loaded in every form."""
    rng = rng_for('case', spec['seed'])
    n = rng.choice([1, 2, 3])
    cols = [c for c in rng.sample(['A', 'B', 'a b', 'é', "it's", 'x,y', '漢'], n)]
    rows = [list(x) for x in {tuple(rng.choice(['a', 'b', 'é', 'x,y', '"q"', '1', "o'x"]) for _ in cols)
                              for _ in range(rng.randint(0, 8))}]
    if rng.random() < 0.03:
        rows += [[f'L{k % 41}', f'M{k}', f'N{k % 3}'][-n:] for k in range(1100)]
        rows = [list(x) for x in {tuple(r) for r in rows}]
        rec.count('large_tables')
    rows.sort()
    names = cols + ['g']
    weights = [r + [str(rng.randint(0, 9))] for r in rows]
    qn = cols + ['attr', 'value']
    quant = [r + [rng.choice(['p', 'q', 'x,y']), str(rng.randint(-9, 99))] for r in rows]
    seen = set()
    quant = [r for r in quant if not (tuple(r[:-1]) in seen or seen.add(tuple(r[:-1])))]
    base = None
    with case_dir():
        for fname in [f[0] for f in forms(rng, names, weights, True)] + ['columns', 'shuffled']:
            s = toron.DataSpace()
            s.add_index_columns(*cols)
            s.add_weight_group('g', make_default=True)
            s.set_registered_attributes(['attr'])
            out = []
            for op, nm, rr in (('insert_index', cols, rows), ('insert_weights', names, weights),
                               ('insert_quantities2', qn, quant)):
                nm2, rr2 = nm, rr
                if fname == 'shuffled':
                    perm = rng.sample(range(len(nm)), len(nm))
                    nm2, rr2 = [nm[i] for i in perm], [[r[i] for i in perm] for r in rr]
                if fname == 'columns':
                    args = ([tuple(r) for r in rr], list(nm))
                elif fname == 'shuffled':
                    args = ([tuple(nm2)] + [tuple(r) for r in rr2],)
                else:
                    make = next(f[1] for f in forms(rng, nm, rr, True) if f[0] == fname)
                    args = (make(),)
                if not rr and fname in ('dicts', 'mixed dicts', 'dict generator', 'proxies', 'ordered'):
                    out.append('ok')        # carries no column names
                    continue
                try:
                    if op == 'insert_index':
                        s.insert_index(*args)
                    elif op == 'insert_weights':
                        s.insert_weights('g', *args)
                    else:
                        s.insert_quantities2(value_column='value', data=args[0],
                                             **({'columns': args[1]} if len(args) > 1 else {}))
                    out.append('ok')
                except Exception as e:      # noqa: BLE001
                    out.append(type(e).__name__)
            st = S.space_state(s)
            got = (out, _strip(st))
            if base is None:
                base = (fname, got)
            rec.check(out == base[1][0], lambda: f'{spec["seed"]}: loading as {fname} gave {out!r}, as '
                                                 f'{base[0]} {base[1][0]!r}; names {names!r} rows {rows!r}')
            rec.check(got == base[1], lambda: f'{spec["seed"]}: contents differ between {fname} and '
                                              f'{base[0]}; names {names!r} rows {rows!r}')
            rec.count('loaded_forms')
            rec.sig(('load', fname, len(cols), len(rows), tuple(out)))


def _strip(st):
    return repr([sorted(st.index.items()), sorted(st.weights.items(), key=repr),
                 sorted(st.quantities.items(), key=repr), st.columns, st.structure, st.index_hash])


def run_case(spec, rec):
    {'reshape': reshape, 'load': load}[spec['kind']](spec, rec)
