"""C20: exported CSV loads back to the same data."""
import csv
import io
import os
import shutil
import subprocess
import sys

import toron

from vt import cli, hostile, ops
from vt import state as S
from vt.base import REPO, Violation, brief, case_dir, rng_for

PROPERTY = 'C20'
LEVEL = 'exploration'
RULE = ('Pairs of files with hostile and plain names, labels, attributes and values; every export of '
        'the command line is compared with the contents of the file, loaded into the file it came '
        'from in every conflict mode, into an emptied or equally structured space, and with index '
        'codes tampered with; a share of the commands run as separate processes. A situation is one '
        '(kind of data, target, options, outcome, which awkward features the data has).')
ASSUMPTIONS = ['quantities whose attributes are registered', 'exact mappings; of ambiguous ones pairs and '
               'values but not the level come back', 'cells up to the 131072 characters the csv module reads',
               'of records identified by codes, the first ten lines hold at least one code']
MIN = {'exports': 3165, 'index_self': 800, 'index_twin': 700, 'quantity_self': 400, 'quantity_twin': 400,
       'mapping_self': 250, 'mapping_again': 300, 'tampered': 318, 'hostile_labels': 600, 'processes': 60,
       'weights': 2000, 'quantities': 1500, 'mappings': 1000, 'ambiguous': 100, 'stale': 30,
       'other_links': 100, 'codes_after_new': 60}
CASE_LIMIT = 120


def plan(tier, seed):
    n = 1400 if tier == 'quick' else 12000
    return [{'seed': f'{PROPERTY}-{seed}-{i}'} for i in range(n)]


class Cmd(object):
    """Runs commands in this process or as separate ones."""

    def __init__(self, rec, d, real):
        self.rec, self.d, self.real = rec, d, real

    def __call__(self, argv, stdin=None):
        if not self.real or stdin is None:
            return cli.run(argv, stdin)
        env = dict(os.environ, PYTHONPATH=os.path.join(REPO, 'src'), PYTHONDONTWRITEBYTECODE='1')
        env.pop('PYTHONIOENCODING', None)
        p = subprocess.run([sys.executable, '-m', 'toron'] + list(argv), input=stdin.encode('utf-8'),
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env)
        self.rec.count('processes')
        r = cli.Result(p.returncode, p.stdout.decode('utf-8'), p.stderr.decode('utf-8', 'replace'), None)
        return r


def rows_of(text):
    return list(csv.reader(io.StringIO(text, newline='')))


def pick(rng, tame, odd, p):
    return rng.choice(odd) if rng.random() < p else rng.choice(tame)


def build(rng, rec, path, p, tag):
    """A space with random contents; names and labels are hostile with probability *p*."""
    s = toron.DataSpace()
    if rng.random() < 0.6:
        s.set_domain(pick(rng, ['d1', 'two words'], hostile.VALUES, p))
    cols = []
    for _ in range(rng.randint(1, 3)):
        name = pick(rng, ['A', 'B', 'C', 'D'], hostile.NAMES, p)
        try:
            s.add_index_columns(name)
            cols.append(name)
        except Exception:       # noqa: BLE001 - names that are refused are not the matter here
            pass
    if not cols:
        s.add_index_columns('K')
        cols.append('K')
    pools = [[pick(rng, list('abcdef'), hostile.VALUES, p) for _ in range(rng.randint(1, 5))] for _ in cols]
    if rng.random() < 0.15:
        pools[0].append(cli.code(rng.randint(0, 3), s.unique_id))       # looks like one of its own codes
    many = rng.random() < 0.012
    if many:
        for q in pools[:2]:
            q.extend(f'L{k}' for k in range(40 if len(pools) > 1 else 1300))
        rec.count('large_spaces')
    recs = {tuple(rng.choice(q) for q in pools)
            for _ in range(rng.choice([600, 1100, 2200]) if many else rng.choice([0, 2, 5, 9, 16, 40]))}
    recs = [r for r in sorted(recs, key=repr) if not all(v == '-' for v in r) and '' not in r]
    if recs:
        s.insert_index(recs, columns=cols)
        rec.count('hostile_labels', any(v in hostile.VALUES for r in recs for v in r))
    rows = [tuple(r) for r in s.select_index()]
    if len(rows) > 3 and rng.random() < 0.3:            # gaps between record numbers
        row = rng.choice(rows[1:])
        s.delete_index([row], columns=['index_id'] + cols)
        rows = [tuple(r) for r in s.select_index()]
    for n in range(rng.randint(0, 3)):
        g = pick(rng, ['g1', 'g2', 'g3'], hostile.NAMES, p)
        if g in cols:           # two columns of the same name cannot be told apart in a file
            continue
        try:
            s.add_weight_group(g, make_default=rng.random() < 0.4 or None)
        except Exception:       # noqa: BLE001
            continue
        data = [r + (rng.choice([0, 1, 2.5, 1 / 3, 1e-300, 12345678901234567890.0, 0.1 + 0.2]),)
                for r in rows[1:] if rng.random() < 0.85]
        if data and g not in cols and 'val' not in cols:
            s.insert_weights(g, data, columns=['index_id'] + cols + [g])
            rec.count('weights', len(data))
    for _ in range(rng.randint(0, 2)):
        part = set(rng.sample(cols, rng.randint(1, len(cols))))
        if part not in [set(x) for x in s.partition_definitions]:
            s.add_partition_definition(part)
    names = []
    for _ in range(rng.randint(1, 3)):
        a = pick(rng, ['category', 'year', 'kind'], hostile.NAMES, p)
        try:
            s.set_registered_attributes(names + [a])
            names.append(a)
        except Exception:       # noqa: BLE001
            pass
    if names and 'val' not in cols + names and rng.random() < 0.8:
        data = []
        for _ in range(rng.choice([300, 1200] if many else [1, 4, 12])):
            lab = list(rng.choice(rows)[1:]) if rng.random() < 0.9 else [rng.choice(q) for q in pools]
            lab = [v if rng.random() < 0.7 else '' for v in lab]
            at = [pick(rng, ['TOTAL', 'MALE'], hostile.VALUES, p) if rng.random() < 0.8 else '' for _ in names]
            data.append(lab + at + [rng.choice([0, 1, -2.5, 1 / 3, 1e300, 100, 0.1 + 0.2, 5e-324])])
        s.insert_quantities2(value_column='val', data=data, columns=cols + names + ['val'],
                             allow_invalid_label=True, allow_invalid_partition=True, on_existing='sum')
    s.to_file(path, fsync=False)
    return s


def own_codes(s):
    """Does a label equal the code of a record of the same space?"""
    rows = [tuple(r) for r in s.select_index()]
    codes = {cli.code(i, s.unique_id) for i in range(max(r[0] for r in rows) + 4)}
    return any(v in codes for r in rows for v in r[1:])


def fit(s):
    """Mappings can only be loaded into spaces with a default weight group."""
    name = next(n for n in ('w1', 'w2') if n not in [g.name for g in s.weight_groups])
    s.add_weight_group(name, make_default=True)
    data = [(r[0],) + tuple(r[1:]) + (1.0,) for r in s.select_index() if r[0]]
    s.insert_weights(name, data, columns=['index_id'] + list(s.index_columns) + [name])


def link(rng, rec, src, trg, name):
    """Link *src* to *trg* with random mappings; returns False if there is nothing to map."""
    trg.add_link(src, name)
    ids1 = [r[0] for r in src.select_index()]
    recs2 = [tuple(r) for r in trg.select_index()]
    cols = list(trg.index_columns)
    full = S.level_bytes(cols, cols)
    data = set()
    for _ in range(rng.choice([1, 4, 12, 30] if len(ids1) + len(recs2) < 500 else [300, 2500])):
        i, j = rng.choice(ids1), rng.choice(recs2)[0]
        if i or j:
            data.add((i, j))
    data = [(i, j, full, rng.choice([0.0, 1.0, 2.5, 1 / 3, 1e-9, 7.0])) for i, j in sorted(data)]
    if len(cols) > 1 and rng.random() < 0.4:
        # an ambiguous pair: one source record to all that share a label
        k = rng.randrange(len(cols))
        lab = rng.choice(recs2)[1:][k]
        level = S.level_bytes(cols, {cols[k]})
        i = max(ids1)
        data = [x for x in data if x[0] != i]
        data += [(i, r[0], level, 1.5) for r in recs2 if r[1:][k] == lab and (i or r[0])]
        rec.count('ambiguous')
    if data:
        trg.insert_mappings2(src, name, data, columns=['other_index_id', 'index_id', 'mapping_level', 'mapping_value'])
    rec.count('mappings', len(data))
    return bool(data)


# ------------------------------------------------------------------ checks

def check_index(rng, rec, d, run, path, space):
    st = S.read_state(path)
    r = run([path, 'index'])
    rec.count('exports')
    rec.check(r.ok, lambda: f'writing the index of {brief(st.index, 300)} fails: {r!r}')
    rows = rows_of(r.out)
    groups = sorted(st.groups, key=lambda g: (g != st.default, g))
    head, body = rows[0], rows[1:]
    rec.eq(head[1:], list(st.columns) + groups, 'header of the exported index')
    uid = space.unique_id
    want = []
    for i, lab in sorted(st.index.items()):
        ws = [st.weights.get((g, i)) for g in groups]
        want.append([cli.code(i, uid)] + list(lab) + ws)
    got = []
    for x in sorted(body, key=lambda x: int(x[0].split('X')[0])):
        n = len(st.columns) + 1
        got.append(x[:n] + [float(v) if v != '' else None for v in x[n:]])
    want[0][len(st.columns) + 1:] = [v or 0.0 for v in want[0][len(st.columns) + 1:]]
    if got[0][0] == want[0][0]:
        got[0][len(st.columns) + 1:] = [v or 0.0 for v in got[0][len(st.columns) + 1:]]
    rec.eq(got, want, 'exported index')
    # back into the same space
    before = S.full(st)
    args = ['--on-label-conflict', rng.choice(['abort', 'ignore', 'replace']),
            '--on-weight-conflict', rng.choice(['abort', 'ignore', 'replace', 'ignore'])]
    if rng.random() < 0.2:
        args = []
    q = run([path, 'index', '--no-backup'] + args, r.out)
    after = S.full(S.read_state(path))
    what = f'loading the exported index back with {args}: {brief(r.out, 900)}'
    rec.check(after == before, lambda: f'{what} changed the space: {S.diff(before, after)} ({q!r})')
    if 'abort' not in args[3:] and args:
        rec.check(q.ok, lambda: f'{what} fails: {q!r}')
    rec.count('index_self')
    rec.sig(('index', tuple(args), q.ok, run.real, len(st.columns), len(groups), min(len(st.index), 5),
             st.domain != ''))
    # into an equally structured empty space
    twin = toron.DataSpace()
    twin.add_index_columns(*st.columns)
    for g in groups:
        twin.add_weight_group(g, make_default=(g == st.default) or None)
    tpath = d.path()
    twin.to_file(tpath, fsync=False)
    if st.index.keys() == {0} or head[0] in list(st.columns) + groups:
        return None
    q = run([tpath, 'index', '--no-backup'], r.out)
    what = f'loading the exported index {brief(r.out, 900)} into an empty space'
    rec.check(q.ok, lambda: f'{what} fails: {q!r}')
    t = S.read_state(tpath)
    rec.eq(sorted(t.index.values()), sorted(st.index.values()), f'records after {what}')
    a = sorted((g, t.index[i], w) for (g, i), w in t.weights.items())
    b = sorted((g, st.index[i], w) for (g, i), w in st.weights.items())
    rec.eq(a, b, f'weights after {what}')
    rec.count('index_twin')
    return tpath


def check_quantity(rng, rec, d, run, path, space):
    st = S.read_state(path)
    names = list(st.registered or ())
    r = run([path, 'quantity'])
    rec.count('exports')
    if not names:
        rec.check(not r.ok, 'writing quantities without registered attributes succeeds')
        return
    rec.check(r.ok, lambda: f'writing the quantities fails: {r!r}')
    rows = rows_of(r.out)
    dom = ['domain'] if st.domain else []
    rec.eq(rows[0], dom + list(st.columns) + names + ['quantity'], 'header of the exported quantities')
    n, m = len(dom), len(dom) + len(st.columns)
    got = sorted((tuple(x[n:m]), tuple(x[m:-1]), float(x[-1])) for x in rows[1:])
    want = sorted((tuple(loc), tuple(dict(at).get(a, '') for a in names), float(v))
                  for (loc, at), vs in st.quantities.items() for v in (vs if isinstance(vs, (list, tuple)) else [vs]))
    rec.eq(got, want, 'exported quantities')
    rec.count('quantities', len(got))
    if any(x[0] != st.domain for x in rows[1:] if dom):
        rec.fail(f'domain column is not {st.domain!r}')
    before = S.full(st)
    mode = rng.choice(['abort', 'ignore', 'replace'])
    allow = ['--allow-invalid-label', '--allow-invalid-partition']
    q = run([path, 'quantity', '--no-backup', '--column', 'quantity', '--on-existing', mode] + allow, r.out)
    after = S.full(S.read_state(path))
    what = f'loading the exported quantities back ({mode}): {brief(r.out, 900)}'
    rec.check(after == before, lambda: f'{what} changed the space: {S.diff(before, after)} ({q!r})')
    if mode != 'abort':
        rec.check(q.ok, lambda: f'{what} fails: {q!r}')
    rec.count('quantity_self')
    # into the same space without quantities
    t = toron.read_file(path)
    twin = toron.DataSpace()
    twin.add_index_columns(*st.columns)
    if len(st.index) > 1:
        twin.insert_index([list(v) for i, v in sorted(st.index.items()) if i], columns=list(st.columns))
    twin.set_domain(st.domain)
    twin.set_registered_attributes(names)
    tpath = d.path()
    twin.to_file(tpath, fsync=False)
    q = run([tpath, 'quantity', '--no-backup'] + allow, r.out)
    what = f'loading the exported quantities {brief(r.out, 900)} into an empty space'
    rec.check(q.ok, lambda: f'{what} fails: {q!r}')
    got = S.read_state(tpath).quantities
    rec.eq(sorted(got.items(), key=repr), sorted(st.quantities.items(), key=repr), f'quantities after {what}')
    rec.count('quantity_twin')
    rec.sig(('quantity', mode, q.ok, run.real, len(names), len(st.columns), bool(dom), min(len(got), 4)))
    del t


def pairs(st, uid, name):
    out = {}
    for (u, n, other, i, level), (v, p) in st.mappings.items():
        if (u, n) == (uid, name):
            out.setdefault((other, i), []).append(v)
    return {k: sorted(v) for k, v in out.items()}


def check_mapping(rng, rec, d, run, path1, path2, name, stale):
    s1, s2 = S.read_state(path1), S.read_state(path2)
    uid1, uid2 = toron.read_file(path1).unique_id, toron.read_file(path2).unique_id
    r = run([path1, 'mapping', path2, name])
    rec.count('exports')
    rec.check(r.ok, lambda: f'writing a mapping fails: {r!r}')
    rows = rows_of(r.out)
    n1, n2 = len(s1.columns), len(s2.columns)
    rec.eq(rows[0][1:n1 + 2], list(s1.columns) + [name], 'header of the exported mapping')
    rec.eq(rows[0][n1 + 3:n1 + 3 + n2], list(s2.columns), 'header of the exported mapping (second space)')
    pos = 1 + n1
    code1 = {cli.code(i, uid1): i for i in set(s1.index) | {k[2] for k in s2.mappings}}
    code2 = {cli.code(i, uid2): i for i in s2.index}
    got, single1, single2 = {}, [], []
    for x in rows[1:]:
        c1, v, c2 = x[0], x[pos], x[pos + 1]
        rec.check((c1 == '' or c1 in code1) and (c2 == '' or c2 in code2),
                  lambda: f'exported mapping has unknown codes: {x!r}')
        if c1:
            lab = tuple(s1.index.get(code1[c1], ('',) * n1))
            rec.eq(tuple(x[1:pos]), lab, f'labels of {c1}')
        if c2:
            rec.eq(tuple(x[pos + 2:pos + 2 + n2]), tuple(s2.index[code2[c2]]), f'labels of {c2}')
        if c1 and c2:
            if code1[c1] == code2[c2] == 0:
                rec.check(v in ('', '0.0'), lambda: f'row of the undefined records: {x!r}')
                continue
            got.setdefault((code1[c1], code2[c2]), []).append(float(v))
        elif c1:
            rec.check(v == '', lambda: f'unmatched row with a value: {x!r}')
            single1.append(code1[c1])
        else:
            rec.check(v == '' and c2, lambda: f'unmatched row: {x!r}')
            single2.append(code2[c2])
    want = pairs(s2, uid1, name)
    rec.eq({k: sorted(v) for k, v in got.items()}, want, 'pairs and values of the exported mapping')
    rec.eq(sorted(x for x in single1 if x), sorted(set(s1.index) - {k[0] for k in want} - {0}), 'unmatched records of the first space')
    rec.eq(sorted(x for x in single2 if x), sorted(set(s2.index) - {k[1] for k in want} - {0}), 'unmatched records of the second space')
    # back into the link it came from: it is there already
    before = S.full(s1), S.full(s2)
    q = run([path1, 'mapping', path2, name, '--right', '--no-backup', '--allow-incomplete'], r.out)
    after = S.full(S.read_state(path1)), S.full(S.read_state(path2))
    what = f'loading the exported mapping back: {brief(r.out, 900)}'
    # (ambiguous mappings are not written as such, what is loaded adds to them)
    rec.check('ambiguous_fields' in rows[0] or after == before, lambda: f'{what} changed the spaces: {S.diff(before[0], after[0])} '
                                       f'{S.diff(before[1], after[1])} ({q!r})')
    rec.count('mapping_self')
    # into the same link, emptied
    t = toron.bind_file(path2, mode='rw')
    src = toron.bind_file(path1, mode='ro')
    t.drop_link(src, name)
    t.add_link(src, name)
    q = run([path1, 'mapping', path2, name, '--right', '--no-backup', '--allow-incomplete'], r.out)
    what = f'loading the exported mapping {brief(r.out, 900)} into the emptied link'
    rec.sig(('mapping', q.ok, run.real, stale, n1, n2, min(len(want), 4), min(len(single1), 2),
             min(len(single2), 2), 'ambiguous_fields' in rows[0]))
    s3 = S.read_state(path2)
    got = pairs(s3, uid1, name)
    if stale:
        # codes of deleted records are no longer accepted, or their rows come back as they were
        live = {k: v for k, v in want.items() if k[0] in s1.index}
        rec.check(not q.ok or {k: v for k, v in got.items() if k[0] in s1.index} == live,
                  lambda: f'{what} gives {brief(got)} instead of {brief(live)}')
        rec.count('stale')
        return
    if any(len(v) > 1 for v in want.values()) or not want:
        return
    rec.check(q.ok, lambda: f'{what} fails: {q!r}')
    rec.eq(got, want, f'pairs and values after {what}')
    rec.count('mapping_again')


def is_own(text, uid):
    num = text.partition('X')[0]
    return num.isdigit() and len(num) < 19 and cli.code(int(num), uid) == text


def check_codes(rng, rec, d, run, path, space):
    """A code is good only for its own record of its own space."""
    st = S.read_state(path)
    uid = space.unique_id
    ids = sorted(i for i in st.index if i)
    if len(ids) < 2:
        return
    other = toron.DataSpace().unique_id
    if own_codes(space):
        return
    i = rng.choice(ids)
    good = [[cli.code(k, uid)] + list(st.index[k]) for k in ids if k != i][:5]
    kind = rng.choice(['other space', 'other record', 'digit', 'check digit', 'no check', 'wrong number',
                       'missing record', 'swapped', 'good', 'empty'])
    c = cli.code(i, uid)
    num, chk = c.split('X')
    bad = {'other space': cli.code(i, other), 'other record': f'{i}X{cli.code(i + 1, uid).split("X")[1]}',
           'digit': f'{int(num) + 1}X{chk}', 'check digit': f'{num}X{chk[:-1]}{"0" if chk[-1] != "0" else "1"}',
           'no check': num, 'wrong number': f'{int(num) + 10 ** 20}X{chk}',
           'missing record': cli.code(max(ids) + 1007, uid), 'swapped': f'{chk}X{num}', 'good': c, 'empty': ''}[kind]
    lab = list(st.index[i])
    change = rng.random() < 0.5
    if change:
        lab[0] = lab[0] + ' new'
    clash = tuple(lab) in st.index.values() and change
    rows = [['index_code'] + list(st.columns)] + good
    rows.insert(rng.randint(2, len(rows)), [bad] + lab)
    if 'index_code' in st.columns:
        return
    new = []
    if rng.random() < 0.35:         # new records above the ones with codes
        if rng.random() < 0.5:
            rows = [r for r in rows if r not in good]
        for k in range(rng.choice([3, 9, 11, 30, 300])):
            r = [f'new{k}'] + [rng.choice(['n', f'm{k}']) for _ in st.columns[1:]]
            if tuple(r) not in st.index.values():
                new.append(r)
        rows[1:1] = [[''] + r for r in new]
        rec.count('codes_after_new')
    f = io.StringIO()
    w = csv.writer(f, quoting=csv.QUOTE_ALL)
    w.writerows(rows)
    before = S.full(st)
    args = ['--on-label-conflict', 'replace' if change else 'abort', '--no-backup']
    q = run([path, 'index'] + args, f.getvalue())
    after = S.read_state(path)
    what = f'loading {brief(rows, 700)} ({kind} code {bad!r} for record {i})'
    rec.count('tampered', kind not in ('good', 'empty'))
    rec.sig(('code', kind, change, q.ok, run.real))
    if kind == 'good' and not clash:
        rec.check(q.ok, lambda: f'{what} fails: {q!r}')
        got = sorted(lab for k, lab in after.index.items() if k not in st.index)
        rec.eq({k: v for k, v in after.index.items() if k in st.index}, st.index | {i: tuple(lab)},
               f'records after {what}')
        rec.eq(got, sorted(tuple(r) for r in new), f'new records after {what}')
    elif kind == 'empty':
        pass
    elif len(rows) == len(new) + 2 and kind != 'missing record' and not is_own(bad, uid):
        # no code of this space at all: a column like any other
        rec.check(set(after.index) >= set(st.index) and all(after.index[k] == v for k, v in st.index.items()),
                  lambda: f'{what} changes records: {S.diff(before, S.full(after))}')
    else:
        rec.check(not q.ok and S.full(after) == before,
                  lambda: f'{what} is accepted or changes the space: {q!r} {S.diff(before, S.full(after))}')


def run_case(spec, rec):
    rng = rng_for('case', spec['seed'])
    p = rng.choice([0, 0.3, 0.7])
    with case_dir() as d:
        run = Cmd(rec, d, rng.random() < 0.02)
        log = []
        try:
            name1, name2 = rng.choice([('one.toron', 'two.toron'), ("o'ne 1.toron", 'tw"o,.toron'),
                                       ('a%20b?.toron', 'b#1.toron')])
            path1, path2 = d.path(name1), d.path(name2)
            s1 = build(rng, rec, path1, p, 1)
            s2 = build(rng, rec, path2, p, 2)
            lname = pick(rng, ['pop', 'area'], hostile.NAMES, p)
            for path, s in ((path1, s1), (path2, s2)):
                log.append(f'{os.path.basename(path)}: {brief(S.read_state(path).as_dict(), 800)}')
                check_index(rng, rec, d, run, path, s)
                check_quantity(rng, rec, d, run, path, s)
            if len(list(s1.select_index())) > 1 and len(list(s2.select_index())) > 1 \
                    and not lname.startswith('-') and lname not in list(s1.index_columns) + list(s2.index_columns) \
                    and not own_codes(s1) and not own_codes(s2):
                for s in (s1, s2):
                    fit(s)
                if rng.random() < 0.5:      # other links of the same and another space
                    link(rng, rec, s1, s2, lname + '2')
                    third = toron.DataSpace()
                    third.add_index_columns('z')
                    third.insert_index([(str(k),) for k in range(6)], columns=['z'])
                    link(rng, rec, third, s2, lname)
                    rec.count('other_links')
                some = link(rng, rec, s1, s2, lname)
                if rng.random() < 0.3:
                    link(rng, rec, s1, s2, lname + '3')
                stale = False
                if some and rng.random() < 0.12:
                    rows = [r for r in s1.select_index() if r[0]]
                    s1.delete_index([rng.choice(rows)], columns=['index_id'] + list(s1.index_columns))
                    stale = True
                s1.to_file(path1, fsync=False)
                s2.to_file(path2, fsync=False)
                log.append(f'link {lname!r}')
                check_mapping(rng, rec, d, run, path1, path2, lname, stale)
            check_codes(rng, rec, d, run, path1, s1)
        except Violation as e:
            raise Violation(f'{e.message}\n   case {spec["seed"]}:\n' + '\n'.join(f'      {x}' for x in log[-3:]),
                            mech=e.mech)
        rec.sample(f'case {spec["seed"]}: ' + '; '.join(x[:200] for x in log[-2:]))
