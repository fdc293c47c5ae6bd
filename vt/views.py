"""Compare what the public views of a space return with its file contents."""
from . import model
from .base import brief


def _rows(it):
    return sorted((tuple(r) for r in it), key=repr)


def light(rec, space, st, what):
    """The cheap listings of *space* must be those of the contents *st*."""
    rec.eq(list(space.index_columns), list(st.columns), f'{what}: index_columns')
    rec.eq(space.domain or '', st.domain or '', f'{what}: domain')
    rec.eq({g.name: (g.description, tuple(g.selectors or ()), bool(g.is_complete)) for g in space.weight_groups},
           {n: (g['description'], tuple(g['selectors'] or ()), g['is_complete']) for n, g in st.groups.items()},
           f'{what}: weight_groups')
    rec.eq({(ln.other_unique_id, ln.name): (ln.other_filename_hint, ln.description, tuple(ln.selectors or ()),
                                            bool(ln.is_default), ln.other_index_hash,
                                            bool(ln.is_locally_complete)) for ln in space.links},
           {k: (v['hint'], v['description'], tuple(v['selectors'] or ()), v['is_default'], v['hash'],
                v['complete']) for k, v in st.links.items()}, f'{what}: links')
    rec.eq(sorted(map(sorted, space.partition_definitions)), sorted(map(sorted, st.partitions)),
           f'{what}: partitions')


def v_index(rec, space, st, rng):
    rec.eq(list(space.index_columns), list(st.columns), 'index_columns')
    if not st.columns:
        return
    want = [(i,) + lab for i, lab in st.index.items()]
    rec.eq(_rows(space.select_index()), _rows(want), 'select_index()')
    rows = list(space.select_index(header=True))
    rec.eq(tuple(rows[0]), ('index_id',) + tuple(st.columns), 'select_index header')
    rec.eq(_rows(rows[1:]), _rows(want), 'select_index(header=True)')
    rec.eq(space.max_index_id, max(st.index), 'max_index_id')
    for crit in criteria(st, rng, 2):
        got = _rows(space.select_index(**crit))
        exp = _rows((i,) + st.index[i] for i in model.select(st, crit))
        rec.eq(got, exp, f'select_index({crit!r})')
        rec.count('criteria_selects')


def criteria(st, rng, n):
    cols = [c for c in st.columns if c.isidentifier() and c not in ('header', 'self')]
    for _ in range(n):
        if not cols:
            return
        base = st.index[rng.choice(sorted(st.index))]
        picked = rng.sample(cols, rng.randint(1, len(cols)))
        crit = {c: base[st.columns.index(c)] for c in picked}
        if rng.random() < 0.2:
            crit[rng.choice(picked)] = rng.choice(['zz', '', 'A%', '-'])
        yield crit


def v_groups(rec, space, st, rng):
    got = {g.name: (g.description, tuple(g.selectors or ()), bool(g.is_complete))
           for g in space.weight_groups}
    exp = {n: (g['description'], tuple(g['selectors'] or ()), g['is_complete'])
           for n, g in st.groups.items()}
    rec.eq(got, exp, 'weight_groups')
    d = space.get_default_weight_group()
    rec.eq(d.name if d else None, st.default, 'default weight group')
    for n in list(st.groups) + ['no such group']:
        g = space.get_weight_group(n)
        rec.eq(g.name if g else None, n if n in st.groups else None, f'get_weight_group({n!r})')


def v_weights(rec, space, st, rng):
    v_groups(rec, space, st, rng)
    if not st.columns:
        return
    dom = (st.domain,) if st.domain else ()
    for n in st.groups:
        exp = [st.index[i] + dom + (n, st.weights.get((n, i))) for i in st.index if i]
        it = space.select_weights(n)
        rec.eq(tuple(it.columns), tuple(st.columns) + (('domain',) if dom else ()) +
               ('weight', 'value'), 'select_weights columns')
        rec.eq(_rows(it), _rows(exp), f'select_weights({n!r})')
        for crit in criteria(st, rng, 1):
            exp = [st.index[i] + dom + (n, st.weights.get((n, i)))
                   for i in model.select(st, crit) if i]
            rec.eq(_rows(space.select_weights(n, **crit)), _rows(exp), f'select_weights({n!r}, {crit!r})')
    rec.eq(list(space.select_weights('no such group')), [], 'select_weights of a missing group')


def v_links(rec, space, st, rng):
    got = {}
    ids = set()
    for ln in space.links:
        ids.add(ln.id)
        got[(ln.other_unique_id, ln.name)] = (
            ln.other_filename_hint, ln.description, tuple(ln.selectors or ()), bool(ln.is_default),
            ln.user_properties, ln.other_index_hash, bool(ln.is_locally_complete))
    exp = {k: (v['hint'], v['description'], tuple(v['selectors'] or ()), v['is_default'],
               v['user_properties'], v['hash'], v['complete']) for k, v in st.links.items()}
    rec.eq(got, exp, 'links')
    rec.check(len(ids) == len(got), 'links share an id')
    refs = []
    for (uid, name), v in st.links.items():
        refs += [uid, uid[:7], uid[:8], uid[:6], v['hint']]
        if v['hint']:
            refs += [v['hint'].swapcase(), '_' + v['hint'][1:], v['hint'][:2] + '%', v['hint'] + ' ']
        if v['hint'] and v['hint'].endswith('.toron'):
            refs.append(v['hint'][:-6])
        elif v['hint']:
            refs.append(v['hint'] + '.toron')
    refs = sorted({r for r in refs if isinstance(r, str)}) + ['', 'nothing-here']
    names = sorted({k[1] for k in st.links}) + ['no-name', None]
    for ref in rng.sample(refs, min(len(refs), 5)):
        for name in rng.sample(names, min(len(names), 3)):
            try:
                want = model.find_link(st, ref, name)
            except model.Err:
                want = None
            try:
                ln = space.get_link(ref, name)
                have = (ln.other_unique_id, ln.name)
            except Exception as e:      # noqa: BLE001
                have = None
            rec.eq(have, want, f'get_link({ref!r}, {name!r}) among '
                   f'{[(k, v["hint"]) for k, v in st.links.items()]!r}')
            rec.count('link_lookups')


def v_mappings(rec, space, st, rng):
    for (uid, name) in st.links:
        by = {}
        for k, v in st.mappings.items():
            if k[:2] == (uid, name):
                by.setdefault(k[3], []).append((k[2], v[0], k[4]))
        crits = [{}] + list(criteria(st, rng, 1))
        for crit in crits:
            exp = []
            for i in (model.select(st, crit) if crit else st.index):
                if i == 0:
                    continue
                lab = st.index[i]
                for other, value, level in by.get(i, ()):
                    exp.append((other, value, i) + lab + (ambiguous(st, level),))
                if i not in by:
                    exp.append((None, None, i) + lab + (None,))
            rows = list(space.select_mappings(uid, name, header=True, **crit))
            rec.eq(tuple(rows[0]), ('other_index_id', name, 'index_id') + tuple(st.columns) +
                   ('ambiguous_fields',), 'select_mappings header')
            rec.eq(_rows(rows[1:]), _rows(exp), f'select_mappings({name!r}, {crit!r})')
            rec.count('mapping_views')


def ambiguous(st, level):
    from .state import level_columns
    if not level:
        return None
    have = level_columns(st.columns, level)
    return ', '.join(c for c in st.columns if c not in have) or None


def _attr_names(st):
    return sorted({a for (loc, key) in st.quantities for a, _ in key})


def v_quantities(rec, space, st, rng):
    if not st.columns:
        return
    dom = [st.domain] if st.domain else []
    domc = ['domain'] if dom else []
    # Attribute sets may outlive their quantities, so extra columns are harmless.
    rows = list(space.select_quantities())
    head = list(rows[0])
    names = head[len(domc) + len(st.columns):-1]
    rec.eq(head[:len(domc) + len(st.columns)], domc + list(st.columns), 'select_quantities header')
    rec.check(set(_attr_names(st)) <= set(names), 'select_quantities lacks attribute columns')

    def lay(items, names):
        out = []
        for (loc, key), v in items:
            d = dict(key)
            out.append(tuple(dom + list(loc) + [d.get(n) for n in names] + [v]))
        return _rows(out)
    rec.eq(_rows(rows[1:]), lay(st.quantities.items(), names), 'select_quantities()')
    rec.eq(_rows(space.select_quantities(header=False)), lay(st.quantities.items(), names),
           'select_quantities(header=False)')
    if st.registered:
        rows = list(space.select_quantities2())
        rec.eq(list(rows[0]), domc + list(st.columns) + list(st.registered) + ['quantity'],
               'select_quantities2 header')
        rec.eq(_rows(rows[1:]), lay(st.quantities.items(), list(st.registered)), 'select_quantities2()')
        rec.eq(_rows(space.select_quantities2(header=False)),
               lay(st.quantities.items(), list(st.registered)), 'select_quantities2(header=False)')
    places = model.Places(st)
    lost = [(k, v) for k, v in st.quantities.items() if not places(k[0])[0]]
    unm = [(k, v) for k, v in st.quantities.items() if not all(places(k[0]))]
    for name, items in (('select_quantities_without_index', lost),
                        ('select_unmatched_quantities', unm)):
        func = getattr(space, name)
        rows = list(func())
        names = list(rows[0])[len(domc) + len(st.columns):-1]
        rec.eq(_rows(rows[1:]), lay(items, names), f'{name}()')
        rec.eq(_rows(func(header=False)), lay(items, names), f'{name}(header=False)')
        rec.count('unmatched_listings')
        if items:
            rec.count('unmatched_listings_nonempty')


def v_meta(rec, space, st, rng):
    rec.eq(space.domain, st.domain, 'domain')
    rec.eq(space.unique_id, st.unique_id, 'unique_id')
    rec.eq(list(space.get_registered_attributes()), list(st.registered), 'registered attributes')
    if st.columns:
        rec.eq(list(space.get_label_columns()), list(st.order), 'get_label_columns()')
    rec.eq(list(space.index_columns), list(st.columns), 'index_columns')
    parts = space.partition_definitions
    rec.eq(sorted(sorted(p) for p in parts), sorted(sorted(p) for p in st.partitions),
           'partition_definitions')


VIEWS = {'index': v_index, 'groups': v_groups, 'weights': v_weights, 'links': v_links,
         'mappings': v_mappings, 'quantities': v_quantities, 'meta': v_meta}
