"""C02: translation through a link applies its proportions and conserves totals."""
from vt import flow, gen, hist, history, ops
from vt.base import brief
from vt.model import Refused

PROPERTY = 'C02'
LEVEL = 'exploration'
RULE = ('Chains of spaces with links and mappings built by random histories; rows of '
        'source(...) >> target (and >> next target) compared with an exact-fraction recomputation '
        'from the stored contents per record, attribute set and total; a situation is one '
        '(storage, number of links, links chosen, mapping shape, options) combination.')
ASSUMPTIONS = ['values are compared up to 1e-9 of the magnitudes summed (floating point)',
               'a row that is missing counts as zero']
MIN = {'translated': 500, 'refused': 50, 'chained': 100, 'link_by_selector': 60,
       'conserving': 100, 'undefined_source': 20, 'undefined_target': 50,
       'chained_by_selector': 20, 'chained_several': 60}
MIX = gen.mix(0.0, insert_mappings=1, insert_mappings2=1, update_mappings=1.5,
              delete_mappings=0.5, reify=0.3, add_link=0.6, edit_link=3, drop_link=0.3,
              insert_index=0.15, update_index=0.4, delete_index=0.15)
SRC_MIX = gen.mix(0.0, insert_quantities2=3, update_weights=1, insert_index=0.15,
                  update_index=0.3, delete_index=0.1, set_domain=0.5, edit_group=1)


class Gen(gen.Gen):
    NEGATIVE = 0.1
    VALUES = gen.VALUES + [0, 1e-6, 1e6, 0.1]


def plan(tier, seed):
    return hist.plan(PROPERTY, tier, seed, 900, 12000, steps=10)


def make_source(h, d, slices=(), mix=SRC_MIX):
    """A space with weights and quantities, under its own driver."""
    spec = dict(h.spec)
    env = ops.Env({})
    g = Gen(h.rng, env, weights=mix, size=h.rng.choice([3, 4, 6]), wild=0.02)
    import toron
    space = toron.DataSpace()
    drv = history.Driver(h.rec, space, env, slices)
    for f in gen.base_ops(g, h.rng):
        op = f(drv.state)
        if op and op['op'] not in ('add_link', 'insert_mappings2'):
            drv.step(op)
    for _ in range(h.rng.randint(1, 3)):
        op = g.g_insert_quantities2(drv.state)
        if op:
            drv.step(dict(op, op='insert_quantities2'))
    for _ in range(2):
        for fix in flow.heal(drv.state, g, 1.0):
            drv.step(fix)
    return space, drv, g


def link_ops(h, key, src_state):
    """Add links from a source and map all of its records."""
    rng, g = h.rng, h.gen
    n = rng.choice([1, 1, 2, 3])
    for name in ['k1', 'k2', 'k3'][:n]:
        op = {'op': 'add_link', 'other': key, 'name': name}
        if rng.random() < 0.5:
            op['selectors'] = rng.sample(gen.SELECTORS, rng.randint(1, 2))
        h.step(op)
        cover(h, key, name, src_state, full=rng.random() < 0.75)


def cover(h, key, name, src_state, full=True):
    rng, st = h.rng, h.state
    targets = [i for i in st.index if i]
    if not targets:
        return
    rows = []
    used = set()
    have = {(k[2], k[3]) for k in st.mappings if k[0] == src_state.unique_id and k[1] == name}
    for o in sorted(src_state.index):
        if not o:
            continue
        picks = rng.sample(targets, min(len(targets), rng.choice([1, 1, 2, 3])))
        if rng.random() < 0.12:
            picks.append(0)
        for t in picks:
            if (o, t) not in have:
                rows.append([o, t, list(st.columns), h.gen.value()])
                used.add(t)
    if full:
        for t in targets:
            if t not in used and src_state.index:
                o = rng.choice([i for i in src_state.index if i] or [0])
                if o and (o, t) not in have and not any(r[:2] == [o, t] for r in rows):
                    rows.append([o, t, list(st.columns), h.gen.value()])
        if rng.random() < 0.3 and targets and (0, targets[0]) not in have:
            rows.append([0, targets[0], list(st.columns), 5])
    h.step({'op': 'insert_mappings2', 'other': key, 'name': name, 'form': 'columns',
            'columns': ['other_index_id', 'index_id', 'mapping_level', name], 'rows': rows})


def translate(h, key, chain=None):
    rec, rng = h.rec, h.rng
    src, drv = h.env.others[key], h.sources[key]
    st, trg = drv.state, h.state
    if len(st.index) < 2 or not st.columns:
        return
    if any(abs(v) == float('inf') for v in st.quantities.values()):
        return      # only finite quantities have shares
    sels = rng.choice([(), (), (), ('[category]',), ('[year="2020"]',)])
    sums = rng.choice([None, None, None, ['category'], ['kind', 'year']])
    drive = rng.random() < 0.25
    what = f'{key}(*{sels!r}, sum_by_attrs={sums!r}, cache_to_drive={drive}) >> target'
    try:
        want, _ = flow.disaggregate(st, sels, sums)
    except Refused:
        return
    total0 = flow.group_totals(want)
    n_undef = sum(1 for (i, k) in want.val if i == 0)
    reader = src(*sels, sum_by_attrs=sums, cache_to_drive=drive)
    hops = [(st, trg, h.space)]
    if chain is not None:
        hops.append((trg, chain[1], chain[0]))
        what += ' >> next'
    refused = None
    links = {}
    for a, b, space in hops:
        try:
            want, links = flow.translate(want, a, b)
        except Refused as e:
            refused = e
        try:
            how = rng.random()
            if how < 0.7:
                reader = reader >> space
            else:
                reader.translate(space, quantize=False)
        except RuntimeError as e:
            rec.check(refused is not None, lambda: f'{what} refused ({e}) although a current default '
                                                   f'link exists')
            rec.count('refused')
            return
        rec.check(refused is None, lambda: f'{what} returned numbers although it must be refused '
                                           f'({refused})')
    last = hops[-1][1]
    got = flow.read_rows(rec, reader, last, what)
    reader.close()
    text = flow.compare(rec, got, want, last, what)
    rec.count('translated')
    rec.count('chained', chain is not None)
    rec.count('undefined_source', n_undef > 0)
    rec.count('undefined_target', any(i == 0 for (i, k) in want.val))
    if chain is not None and want.val:
        used = {links[k] for (i, k) in want.val if k in links}
        rec.count('chained_by_selector', sum(1 for k in used if not last.links[k]['is_default']))
        rec.count('chained_several', len(last.links) > 1)
    if chain is None and want.val:
        used = {links[k] for (i, k) in want.val if k in links}
        rec.count('link_by_selector', sum(1 for k in used if not trg.links[k]['is_default']))
        full = {k for k in trg.links
                if {m[2] for m in trg.mappings if m[:2] == k} | {0} == set(st.index)}
        if used and used <= full:
            total1 = flow.group_totals(want)
            for k in set(total0) | set(total1):
                rec.check(abs(total0.get(k, 0) - total1.get(k, 0)) <=
                          1e-9 * max(1, abs(float(total0.get(k, 0)))) * 10,
                          lambda: f'{what}: total of {dict(k)!r} not conserved: '
                                  f'{float(total0.get(k, 0))} -> {float(total1.get(k, 0))}')
            rec.count('conserving')
        rec.sig((h.spec['store'], len(trg.links), len(used), len(trg.mappings), len(want.val),
                 bool(sels), bool(sums), drive))
        if text != '[]':
            rec.sample(f'{what} -> {text}')


def run_case(spec, rec):
    run(spec, rec)


def run(spec, rec, slices=('links',), mix=MIX, src_slices=(), src_mix=SRC_MIX, p_src=0.15,
        p_cover=0.12):
    from vt.base import Violation, case_dir, rng_for
    rng = rng_for('case', spec['seed'])
    with case_dir() as d:
        h = hist.History(spec, rec, rng, d, slices, mix, Gen)
        try:
            h.sources = {}
            for key in ('S1', 'S2')[:rng.choice([1, 2])]:
                space, drv, g = make_source(h, d, src_slices, src_mix)
                h.env.others[key] = space
                h.sources[key] = drv
                drv.gen = g
                h.gen.other_ids[key] = list(drv.state.index)
            h.env.others = {k: v for k, v in h.env.others.items() if k in h.sources}
            h.gen.other_ids = {k: v for k, v in h.gen.other_ids.items() if k in h.sources}
            for f in gen.base_ops(h.gen, rng, rich=False):
                op = f(h.state)
                if op:
                    h.step(op)
            for key, drv in h.sources.items():
                link_ops(h, key, drv.state)
            chain = None
            if rng.random() < 0.4:
                chain = make_next(h, rng)
            for n in range(spec['steps']):
                h.step(h.gen.op(h.state))
                if rng.random() < p_src:
                    key = rng.choice(sorted(h.sources))
                    drv = h.sources[key]
                    drv.step(drv.gen.op(drv.state))
                    h.gen.other_ids[key] = list(drv.state.index)
                if rng.random() < p_cover and h.state.links:
                    key = rng.choice(sorted(h.sources))
                    names = [k[1] for k in h.state.links if k[0] == h.sources[key].state.unique_id]
                    if names:
                        cover(h, key, rng.choice(names), h.sources[key].state)
                if rng.random() < 0.5:
                    key = rng.choice(sorted(h.sources))
                    drv = h.sources[key]
                    for fix in flow.heal(drv.state, drv.gen, 1.0):
                        drv.step(fix)
                    translate(h, key, chain if chain and rng.random() < 0.5 else None)
                if chain and rng.random() < 0.2:
                    chain = renew(h, chain, rng)
            for key in sorted(h.sources):
                translate(h, key)
        except Violation as e:
            tail = '\n'.join(f'      {o!r} -> {r}'[:600] for o, r in h.driver.log[-8:])
            raise Violation(f'{e.message}\n   history {spec["seed"]}:\n{tail}', mech=e.mech)
        finally:
            h.close()
        rec.count('histories')
        rec.count(f'store_{spec["store"]}')


def make_next(h, rng):
    """A further space with a link from the target."""
    import toron
    from vt import state as S
    s = toron.DataSpace()
    s.add_index_columns('X')
    s.insert_index([('X',)] + [(c,) for c in 'abcd'[:rng.randint(1, 4)]])
    for n in range(rng.choice([1, 1, 2, 3])):
        kw = {'selectors': rng.sample(gen.SELECTORS, rng.randint(1, 2))} if rng.random() < 0.5 else {}
        s.add_link(h.space, f'z{n + 1}', **kw)
    if rng.random() < 0.5:
        names = sorted(k[1] for k in S.space_state(s).links)
        s.edit_link(h.space, rng.choice(names), is_default=True)
    return renew(h, (s, None), rng)


def renew(h, chain, rng):
    """Bring the links of the further space up to date (mostly)."""
    from vt import state as S
    s = chain[0]
    for name in sorted(k[1] for k in S.space_state(s).links):
        st = S.space_state(s)
        n = len(st.index) - 1
        have = {k[2] for k in st.mappings if k[1] == name}
        rows = []
        for o in h.state.index:
            if not o or o in have or rng.random() < 0.03:
                continue
            for t in rng.sample(range(1, n + 1), rng.randint(1, min(n, 2))):
                rows.append((o, t, S.level_bytes(st.columns, st.columns), rng.choice([0, 1, 2.5, 7])))
        if rows:
            s.insert_mappings2(h.state.unique_id, name,
                               [('other_index_id', 'index_id', 'mapping_level', name)] + rows)
    return (s, S.space_state(s))
