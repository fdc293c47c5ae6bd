"""C14: label mappings resolve to exactly the records they describe."""
import csv
import io
import itertools
import logging
import re
from fractions import Fraction

import toron
from toron import graph

from vt import cli, state as S
from vt.base import brief, case_dir, rng_for
from vt.selref import parse as _parse  # noqa: F401

PROPERTY = 'C14'
LEVEL = 'exploration'
RULE = ('Random pairs of spaces and random mapping tables (labels at any mixture of levels, record codes, '
        'unknown labels, blanks) are loaded through the function and through the command; the mappings '
        'stored afterwards are compared with an exact-fraction reference, the rest of both spaces must be '
        'unchanged, and the numbers of skipped rows must be reported; a situation is one (loader, '
        'direction, limit, overlap, kinds of rows met) combination.')
ASSUMPTIONS = ['levels of equal granularity may be taken in any order',
               'values are compared up to 1e-9 (floating point)']
MIN = {'loaded': 1725, 'rows_ambiguous': 1052, 'rows_overlimit': 390, 'rows_invalid': 100,
       'rows_no_match': 300, 'rows_unweighted': 100, 'overlap_dropped': 200, 'overlap_kept': 200,
       'refused': 100, 'rows_by_code': 500, 'even_split': 100, 'mappings_compared': 5000}


def plan(tier, seed):
    n = 5000 if tier == 'quick' else 60000
    return [dict(seed=f'C14-{seed}-{i}', how='load' if i % 2 else 'cli') for i in range(n)]


# ------------------------------------------------------------------ spaces

def build(rng, d, how, names, big):
    ncols = rng.choice([1, 2, 2, 3, 3, 4])
    cols = rng.sample(names, ncols)
    space = toron.DataSpace() if how == 'load' else toron.bind_file(d.path(), mode='rwc')
    space.add_index_columns(*cols)
    if rng.random() < 0.25:
        space.set_domain(rng.choice(['dom1', 'dom 2']))
    alpha = [[f'{c[0]}{i}' for i in range(rng.choice([1, 2, 2, 3, 4]))] for c in cols]
    for a in alpha:
        if rng.random() < 0.3:
            a.append('-')
        if rng.random() < 0.15:
            a.append(rng.choice(["o'k", 'x"y', 'é 1', '%', '1']))
    combos = [c for c in itertools.product(*alpha) if set(c) != {'-'}]
    rng.shuffle(combos)
    combos = combos[:rng.choice([1, 2, 3, 5, 8] + [12] * big)]
    if not combos:
        combos = [tuple('r' for _ in cols)]
    space.insert_index(combos, columns=cols)
    if rng.random() < 0.3 and len(combos) > 2:     # gaps in the ids
        gone = rng.choice(combos)
        space.delete_index(**dict(zip(cols, gone)))
        combos.remove(gone)
    for _ in range(rng.choice([0, 1, 1, 2])):
        try:
            space.add_partition_definition(set(rng.sample(cols, rng.randint(1, ncols))))
        except RuntimeError:
            pass
    name = 'pop'
    space.add_weight_group(name, make_default=True)
    pool = rng.choice([[1, 2, 3, 0.5, 10], [0], [0, 0, 1, 4], [1e-3, 1e6, 7]])
    miss = rng.choice([0, 0, 0, 0.15])
    space.insert_weights(name, [c + (rng.choice(pool),) for c in combos if rng.random() >= miss],
                         columns=list(cols) + [name])
    return space


def side_rows(rng, st, n):
    """*n* label tuples for one side: (labels in column order, kind)."""
    cols = st.columns
    recs = [st.index[i] for i in st.index if i] or [('z',) * len(cols)]
    levels = [lv for lv in st.levels() if lv]
    out = []
    finest = rng.random() < 0.3
    for _ in range(n):
        r = rng.random()
        lab = rng.choice(recs) if r < 0.85 else st.index[0] if r < 0.9 else \
            tuple(rng.choice(['nope', rng.choice(recs)[k]]) for k in range(len(cols)))
        r = rng.random()
        if finest or r < 0.25:
            level = set(cols)
        elif r < 0.95 or not finest:
            level = rng.choice(sorted(levels, key=sorted))
            if rng.random() < 0.04:
                level = {c for c in cols if rng.random() < 0.5}
        out.append([x if c in level else '' for c, x in zip(cols, lab)])
    return out


VALUES = [0, 1, 2, 3, 5, 10, 0.5, 2.25, 100, 1e-3, 1e5, 7, 9, 12]


# --------------------------------------------------------------- reference

def match(st, rows, limit, overlap, mode, perm):
    """rows: [(run, crit, code)] -> {run: ([(id, share)], level)}, tallies."""
    tally = dict(no_match=0, overlimit=0, unweighted=0, invalid=0, dropped=0, kept=0,
                 missing_code=0, ambiguous=0, even=0)
    whole = frozenset(st.columns)
    matched = {}       # id -> set of levels
    out = {}
    by_level = {}
    for run, crit, code in rows:
        level = whole if code is not None else frozenset(c for c in crit if c in st.columns)
        by_level.setdefault(level, []).append((run, crit, code))
    for level in [lv for lv in by_level if not lv or lv not in st.levels()]:
        key = 'no_match' if mode == 'cli' and not level else 'invalid'
        tally[key] += len(by_level.pop(level))
    for level in perm:
        for run, crit, code in by_level.get(level, ()):
            if code is not None:
                if code not in st.index:
                    tally['missing_code'] += 1
                    continue
                ids = [code]
            else:
                ids = [i for i, lab in st.index.items()
                       if all(c in st.columns and lab[st.columns.index(c)] == x
                              for c, x in crit.items())]
                if not ids:
                    tally['no_match'] += 1
                    continue
                if len(ids) > limit:
                    tally['overlimit'] += 1
                    continue
                if len(ids) > 1:
                    tally['ambiguous'] += 1
                    lap = [i for i in ids if matched.get(i, set()) - {level}]
                    if overlap:
                        tally['kept'] += len(lap)
                    else:
                        tally['dropped'] += len(lap)
                        ids = [i for i in ids if i not in lap]
            if not ids:
                continue
            weights = []
            for i in ids:
                w = st.weights.get((st.default, i))
                if w is None and i == 0 and mode == 'cli':
                    w = 0
                weights.append(None if w is None else Fraction(w))
            if len(ids) > 1 and None in weights:
                tally['unweighted'] += 1
                continue
            total = sum(w or 0 for w in weights)
            if len(ids) > 1 and not total:
                tally['even'] += 1
            shares = [(w / total if total else Fraction(1, len(ids))) for w in
                      [w or Fraction(0) for w in weights]]
            for i in ids:
                matched.setdefault(i, set()).add(level)
            out[run] = (list(zip(ids, shares)), level)
    return out, tally


def orders(st):
    """Possible orders of the levels, from fine to coarse (ties in any order)."""
    levels = sorted(((g if g is not None else -1, sorted(s)) for s, g in st.structure if s),
                    key=lambda x: -x[0])
    groups = []
    for g, s in levels:
        if groups and abs(groups[-1][0] - g) <= 1e-9 * max(1, abs(g)):
            groups[-1][1].append(frozenset(s))
        else:
            groups.append((g, [frozenset(s)]))
    out = [[]]
    for _, tied in groups:
        if len(tied) > 3:
            return None
        out = [o + list(p) for o in out for p in itertools.permutations(tied)]
    return out if len(out) <= 24 else None


def joint(rows, values, src, trg):
    """{(source id, target id, target level): (value, magnitude)}"""
    out = {}
    for run, v in values.items():
        if run in src and run in trg:
            for i, p in src[run][0]:
                for j, q in trg[run][0]:
                    if i == 0 and j == 0:
                        continue
                    k = (i, j, trg[run][1])
                    out[k] = out.get(k, Fraction(0)) + v * p * q
    return out


def variants(st, rows, limit, overlap, mode):
    perms = orders(st)
    if perms is None:
        return None
    seen, out = [], []
    used = {frozenset(st.columns) if code is not None else frozenset(c for c in crit if c in st.columns)
            for _, crit, code in rows}
    for p in perms:
        p = [lv for lv in p if lv in used]
        if p not in seen:
            seen.append(p)
            out.append(match(st, rows, limit, overlap, mode, p))
    return out


def mapped(st, key):
    return {(k[2], k[3], S.level_columns(st.columns, k[4])): v[0]
            for k, v in st.mappings.items() if k[:2] == key}


def same(a, b):
    if set(a) != set(b):
        return False
    return all(abs(Fraction(a[k]) - b[k]) <= 1e-9 * float(b[k]) + 1e-12 for k in a)


class Capture(logging.Handler):
    def __init__(self):
        super().__init__()
        self.seen = []

    def emit(self, record):
        self.seen.append((record.levelno, record.getMessage()))


def check_report(rec, log, wanted, what):
    """Each number of skipped rows appears in a warning."""
    numbers = [n for lvl, text in log if lvl >= logging.WARNING
               for n in map(int, re.findall(r'(?<![\w.])\d+(?![\w.])', text))]
    for n, why in wanted:
        rec.ev()
        if n and n not in numbers:
            rec.fail(f'{what}: {n} rows {why} but no warning says so: {brief(log)}')


def others(st, key):
    """Everything a load must leave alone."""
    c = st.copy()
    c.mappings = {k: v for k, v in c.mappings.items() if k[:2] != key}
    c.links = {k: v for k, v in c.links.items() if k != key}
    return S.full(c)


# -------------------------------------------------------------------- case

def run_case(spec, rec):
    rng = rng_for('case', spec['seed'])
    with case_dir() as d:
        mode = spec['how']
        a = build(rng, d, mode, ['county', 'town', 'kind', 'x y', 'sel"ect'], True)
        b = build(rng, d, mode, ['zone', 'area', 'town', 'sort', 'x y'], True)
        sa, sb = S.space_state(a), S.space_state(b)
        (load if mode == 'load' else command)(rng, rec, d, a, b, sa, sb)
        a = b = None


def options(rng):
    return dict(limit=rng.choice([1, 2, 3, 5, 8, 100]), overlap=rng.random() < 0.4)


def load(rng, rec, d, a, b, sa, sb):
    link = rng.choice(['lnk', 'a link', 'pop'])
    opt = options(rng)
    n = rng.choice([1, 3, 6, 12, 25])
    long = rng.random() < 0.04
    if long:
        n = rng.choice([60, 120, 250, 400])
        rec.count('long_tables')
    left, right = side_rows(rng, sa, n), side_rows(rng, sb, n)
    values = [rng.choice(VALUES) for _ in range(n)]
    bad = rng.random() < 0.1
    if bad:
        values[rng.randrange(n)] = rng.choice([-1, 'abc', '', '12x', None, float('inf'), float('nan')])
    elif rng.random() < 0.3:
        values = [str(v) for v in values]
    if rng.random() < 0.3:      # duplicate rows
        for _ in range(rng.randint(1, 3)):
            k = rng.randrange(n)
            left.append(left[k]), right.append(right[k]), values.append(values[rng.randrange(n)])
        n = len(left)
    lcols, rcols = list(sa.columns), list(sb.columns)

    def dress(rows, cols, st):
        order = list(range(len(cols)))
        rng.shuffle(order)
        names = [cols[k] for k in order]
        rows = [[r[k] for k in order] for r in rows]
        if len(names) > 1 and rng.random() < 0.15:
            k = rng.randrange(len(names))
            names.pop(k)
            for r in rows:
                r.pop(k)
        if rng.random() < 0.1:
            k = rng.randint(0, len(names))
            names.insert(k, 'unknown')
            for r in rows:
                r.insert(k, rng.choice(['', '', '', 'x']))
        used = list(names)
        clean = [dict((c, x) for c, x in zip(names, r) if x != '') for r in rows]
        wrong = False
        if st.domain and rng.random() < 0.6:
            k = rng.randint(0, len(names))
            names.insert(k, 'domain')
            for r in rows:
                r.insert(k, st.domain)
            if rng.random() < 0.1:
                rng.choice(rows)[k] = 'other domain'
                wrong = True
        return names, rows, clean, wrong

    lnames, lrows, lcrit, w1 = dress(left, lcols, sa)
    rnames, rrows, rcrit, w2 = dress(right, rcols, sb)
    header = rng.choice([link, link, f'{link}: x --> y', f'{link}: x <--> y : [a="b"]'])
    columns = lnames + [header] + rnames
    rows = [x + [v] + y for x, v, y in zip(lrows, values, rrows)]
    perm = list(range(n))
    if rng.random() < 0.3:
        rng.shuffle(perm)
    rows = [rows[k] for k in perm]
    direction = rng.choice(['->', '<-', '<->', '-->'])
    form = rng.choice(['header', 'columns', 'iter'])
    kw = {}
    if form == 'header':
        data = [columns] + rows
    elif form == 'columns':
        data, kw['columns'] = rows, columns
    else:
        data = iter([tuple(columns)] + [tuple(r) for r in rows])
    if rng.random() < 0.3:
        kw['selectors'] = ['[category="x"]']
    if rng.random() < 0.3:
        kw['is_default'] = rng.random() < 0.5
    what = f'load_mapping({columns}, {brief(rows, 900)}, {direction}, {opt})'
    refused = bad or w1 or w2
    log = Capture()
    lg = logging.getLogger('app-toron')
    lg.addHandler(log)
    logging.disable(logging.NOTSET)
    prop, lg.propagate = lg.propagate, False
    try:
        graph.load_mapping(a, direction, b, link, data, match_limit=opt['limit'],
                           allow_overlapping=opt['overlap'], **kw)
        err = None
    except Exception as e:
        err = e
    finally:
        logging.disable(logging.CRITICAL)
        lg.removeHandler(log)
        lg.propagate = prop
    ta, tb = S.space_state(a), S.space_state(b)
    if refused:
        rec.check(err is not None, lambda: f'{what} accepted')
        for x, y in ((sa, ta), (sb, tb)):
            rec.eq(S.full(y), S.full(x), f'{what} was refused ({err!r}); contents')
        rec.count('refused')
        return
    rec.check(err is None, lambda: f'{what} failed: {err!r}')
    rec.check(len(log.seen) > 0, lambda: f'{what} reported nothing')
    run_l = [(k, lcrit[k], None) for k in perm]
    run_r = [(k, rcrit[k], None) for k in perm]
    vals = {k: Fraction(float(values[k])) for k in range(n)}
    judge(rec, what, sa, sb, ta, tb, run_l, run_r, vals, link, direction, opt, 'load', log.seen)


def judge(rec, what, sa, sb, ta, tb, run_l, run_r, vals, link, direction, opt, mode, log):
    va = variants(sa, run_l, opt['limit'], opt['overlap'], mode)
    vb = variants(sb, run_r, opt['limit'], opt['overlap'], mode)
    if va is None or vb is None or len(va) * len(vb) > 40:
        rec.count('too_many_ties')
        return
    key_b, key_a = (sa.unique_id, link), (sb.unique_id, link)
    fits = None
    first = None
    for (ma, tally_a), (mb, tally_b) in itertools.product(va, vb):
        want_b = joint(run_l, vals, ma, mb) if '>' in direction else {}
        want_a = joint(run_l, vals, mb, ma) if '<' in direction else {}
        got_b, got_a = mapped(tb, key_b), mapped(ta, key_a)
        first = first or (want_b, want_a)
        rec.ev(len(want_b) + len(want_a))
        if same(got_b, want_b) and same(got_a, want_a):
            fits = (ma, mb, tally_a, tally_b)
            break
    if fits is None:
        show = lambda m: sorted((i, j, sorted(lv), float(v)) for (i, j, lv), v in m.items())
        rec.fail(f'{what}\n   stored in second: {brief(show(got_b))}\n   expected: '
                 f'{brief(show(first[0]))}\n   stored in first: {brief(show(got_a))}\n   expected: '
                 f'{brief(show(first[1]))}')
    rec.eq(others(tb, key_b), others(sb, key_b), f'{what}: rest of the second space')
    rec.eq(others(ta, key_a), others(sa, key_a), f'{what}: rest of the first space')
    ma, mb, ta_, tb_ = fits
    for tally, side, sure in ((ta_, 'first', all(t == ta_ for _, t in va)),
                              (tb_, 'second', all(t == tb_ for _, t in vb))):
        wanted = [(tally['overlimit'], f'matched too many records of the {side} space'),
                  (tally['unweighted'], f'had no weight in the {side} space'),
                  (tally['invalid'], f'were at an invalid level of the {side} space')]
        if mode == 'cli':
            wanted += [(tally['no_match'], f'matched nothing in the {side} space'),
                       (tally['missing_code'], f'named records that are gone from the {side} space')]
        if not opt['overlap']:
            wanted.append((tally['dropped'], f'overlapped in the {side} space'))
        if sure:
            check_report(rec, log, wanted, what)
        for k, c in (('no_match', 'rows_no_match'), ('overlimit', 'rows_overlimit'),
                     ('invalid', 'rows_invalid'), ('unweighted', 'rows_unweighted'),
                     ('dropped', 'overlap_dropped'), ('kept', 'overlap_kept'),
                     ('ambiguous', 'rows_ambiguous'), ('even', 'even_split')):
            rec.count(c, tally[k])
    rec.count('mappings_compared', len(got_a) + len(got_b))
    rec.count('loaded')
    rec.count('rows_by_code', sum(1 for r in run_l + run_r if r[2] is not None))
    rec.sig((mode, direction, opt['limit'], opt['overlap'],
             tuple(sorted(k for k, v in ta_.items() if v)), tuple(sorted(k for k, v in tb_.items() if v))))
    rec.sample(f'{what} -> {brief(sorted(got_b.items(), key=repr), 300)}')


def command(rng, rec, d, a, b, sa, sb):
    link = rng.choice(['lnk', 'a link', 'pop'])
    opt = options(rng)
    pa, pb = a.path_hint, b.path_hint
    has_a, has_b = rng.random() < 0.7, rng.random() < 0.8
    if has_b:
        b.add_link(a, link)
    if has_a:
        a.add_link(b, link)
    a = b = None
    direction = rng.choice(['both', 'both', 'left', 'right'])
    n = rng.choice([1, 3, 6, 12, 25])
    long = rng.random() < 0.04
    if long:
        n = rng.choice([60, 120, 250, 400])
        rec.count('long_tables')
    left, right = side_rows(rng, sa, n), side_rows(rng, sb, n)
    values = [rng.choice(VALUES) for _ in range(n)]
    bad = blank = False
    if rng.random() < 0.06:
        values[rng.randrange(n)] = rng.choice(['-1', 'abc', '12x', 'inf', 'nan', '-0.5'])
        bad = True
    if rng.random() < 0.3:
        for k in range(n):
            if rng.random() < 0.2 and not isinstance(values[k], str):
                values[k] = ''
                blank = True
    codes_l = rng.random() < 0.6
    codes_r = rng.random() < 0.6

    def dress(rows, st, codes, other):
        names = list(st.columns)
        ids = sorted(st.index) + [st.seq + 1]
        picks = [None] * len(rows)
        rows = [list(r) for r in rows]
        if codes:
            first = 0
            if len(rows) > 8 and rng.random() < 0.4:     # no codes in the first rows
                first = rng.randrange(min(len(rows), 220))
                rec.count('late_codes')
            for k in range(first, len(rows)):
                if rng.random() < 0.5:
                    picks[k] = rng.choice(ids)
            if all(p is None for p in picks[:250]):
                picks[first] = ids[0]
            for k, p in enumerate(picks):
                if p is not None and rng.random() < 0.8:
                    rows[k] = list(st.index.get(p, rows[k]))
            order = list(range(len(names)))
            rng.shuffle(order)
            if len(order) > 1 and rng.random() < 0.2:
                order.pop()
            names = [names[k] for k in order]
            rows = [[r[k] for k in order] for r in rows]
        crit = [{c: x for c, x in zip(names, r) if x != ''} for r in rows]
        if codes:
            k = rng.randint(0, len(names))
            names.insert(k, rng.choice(['index_code', 'dom_index_code', 'id']))
            for r, p in zip(rows, picks):
                r.insert(k, '' if p is None else cli.code(p, st.unique_id))
            if rng.random() < 0.15:
                names.append('extra col')
                for r in rows:
                    r.append(rng.choice(['', 'noise']))
        return names, rows, crit, picks

    lnames, lrows, lcrit, lpick = dress(left, sa, codes_l, sb)
    rnames, rrows, rcrit, rpick = dress(right, sb, codes_r, sa)
    alien = False
    if (codes_l or codes_r) and rng.random() < 0.05:
        alien = True
        names, rows, picks, st = (lnames, lrows, lpick, sa) if codes_l else (rnames, rrows, rpick, sb)
        col = next(k for k, c in enumerate(names) if c in ('index_code', 'dom_index_code', 'id'))
        rng.choice(rows)[col] = rng.choice(['5X00000000', 'junk', '1X', 'X', '1'])
        if not any(p is not None and r[col] == cli.code(p, st.unique_id) for p, r in zip(picks, rows)):
            return
    if (codes_l or codes_r) and rng.random() < 0.3:    # FILE1 on the right
        if codes_l or lnames == rnames or True:
            columns = rnames + [link] + lnames
            rows = [y + [v] + x for x, v, y in zip(lrows, values, rrows)]
    else:
        columns = lnames + [link] + rnames
        rows = [x + [v] + y for x, v, y in zip(lrows, values, rrows)]
    out = io.StringIO(newline='')
    w = csv.writer(out, lineterminator=rng.choice(['\n', '\r\n']))
    w.writerows([columns] + rows)
    argv = [pa, 'mapping', pb, link, '--match-limit', str(opt['limit'])]
    if direction != 'both':
        argv.append('--' + direction)
    if opt['overlap']:
        argv.append('--allow-overlapping')
    incomplete = rng.random() < 0.8
    if incomplete:
        argv.append('--allow-incomplete')
    if rng.random() < 0.5:
        argv.append('--no-backup')
    before = [S.read_state(p) for p in (pa, pb)]
    r = cli.run(argv, out.getvalue())
    ta, tb = S.read_state(pa), S.read_state(pb)
    what = f'mapping {argv[4:]} (links first {has_a}, second {has_b})\n{brief(out.getvalue(), 900)}\n  -> {r}'
    real = {'both': ('<' if has_a else '') + ('>' if has_b else ''), 'left': '<' if has_a else '',
            'right': '>' if has_b else ''}[direction]

    def unchanged(why):
        rec.check(not r.ok, lambda: f'{what}: reported success although {why}')
        for x, y in zip(before, (ta, tb)):
            rec.eq(S.full(y), S.full(x), f'{what}: {why}; contents')
        rec.count('refused')

    # what must be refused
    if not real:
        return unchanged('there is no such link')
    if alien:
        return unchanged('a record code belongs to another space')
    bad = bad and any(isinstance(v, str) and v for v in values)
    if bad:
        return unchanged('a value is not a finite number')
    vals = {k: Fraction(float(v)) for k, v in enumerate(values) if v != ''}
    run_l = [(k, lcrit[k], lpick[k]) for k in vals]
    run_r = [(k, rcrit[k], rpick[k]) for k in vals]
    for st, runs in ((sa, run_l), (sb, run_r)):
        for k, crit, code in runs:
            if code is None and frozenset(crit) not in st.levels() | {frozenset()}:
                rec.count('rows_invalid')
                return unchanged('a row is at an invalid level')
    if not incomplete:
        va = variants(sa, run_l, opt['limit'], opt['overlap'], 'cli')
        vb = variants(sb, run_r, opt['limit'], opt['overlap'], 'cli')
        if not va or not vb or len(va) * len(vb) > 1:
            return
        for (m, _), st in ((va[0], sa), (vb[0], sb)):
            got = {i for ids, _ in m.values() for i, _ in ids} - {0}
            if got != set(st.index) - {0}:
                return unchanged('records are left unmatched')
        rec.count('complete_loads')
    rec.check(r.ok, lambda: f'{what} failed')
    judge(rec, what, before[0], before[1], ta, tb, run_l, run_r, vals, link, real, opt, 'cli', r.log)
