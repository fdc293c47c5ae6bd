"""C03: quantized results are whole, total-preserving and within one of exact."""
import hashlib
import math
import os
import subprocess
import sys
from fractions import Fraction

from vt.base import REPO, VERIF, brief, case_dir, rng_for

PROPERTY = 'C03'
LEVEL = 'exploration'
RULE = ('Lists of shares and whole spaces (with links) with random weights, totals and many ties; every '
        'quantized result is compared with the exact proportional shares: whole, exact total, within '
        'one, extra units to the largest fractional parts, same for shuffled input, for repeated '
        'calls and in other processes with other hash seeds; a situation is one (kind of total, '
        'kind of weights, number of shares, units handed out) combination.')
ASSUMPTIONS = ['shares are handed in as floating point numbers, so "exact share" and the ranking of '
               'fractional parts are judged up to a few units in the last place of the total']
MIN = {'direct_lists': 4000, 'tied': 1000, 'negative': 500, 'fractional': 1000, 'extra_units': 1000,
       'space_quantities': 4000, 'split_quantities': 1500, 'translated_quantities': 1500,
       'other_process': 8, 'reordered': 3000}


def plan(tier, seed):
    a, b, c = (400, 1200, 8) if tier == 'quick' else (4000, 16000, 16)
    specs = [dict(seed=f'C03-{seed}-d{i}', kind='direct', n=60) for i in range(a)]
    specs += [dict(seed=f'C03-{seed}-s{i}', kind='space') for i in range(b)]
    specs += [dict(seed=f'C03-{seed}-p{i}', kind='proc', hashseed=str(i * 77 + 1)) for i in range(c)]
    return specs


# ------------------------------------------------------------- generators

def weights(rng, n):
    kind = rng.choice(['equal', 'equal', 'small', 'int', 'float', 'zeros', 'geometric', 'wide', 'tenth'])
    if kind == 'equal':
        w = rng.choice([1, 1, 2, 0.1, 0.7, 2.3, 1 / 3, 1e-9, 1e12])
        return kind, [w] * n
    if kind == 'small':
        return kind, [rng.choice([1, 1, 2, 3]) for _ in range(n)]
    if kind == 'int':
        return kind, [rng.randint(0, 5000) for _ in range(n)]
    if kind == 'float':
        return kind, [rng.random() for _ in range(n)]
    if kind == 'zeros':
        return kind, [rng.choice([0, 0, 1, 5]) for _ in range(n)]
    if kind == 'geometric':
        return kind, [2.0 ** -min(i, 60) for i in range(n)]
    if kind == 'wide':
        return kind, [10.0 ** rng.uniform(-12, 12) for _ in range(n)]
    return kind, [rng.choice([0.1, 0.2, 0.3, 0.7]) for _ in range(n)]


def total(rng, n):
    """A total below 2**50 in magnitude and its kind."""
    kind = rng.choice(['n', 'small', 'small', 'medium', 'big', 'zero', 'half', 'tenth', 'near', 'real',
                       'below1'])
    if kind == 'n':
        v = float(n * rng.choice([1, 1, 2, 3, 7, 1000]) + rng.choice([-1, 0, 0, 1]))
    elif kind == 'small':
        v = float(rng.randint(0, 3 * n + 5))
    elif kind == 'medium':
        v = float(rng.randint(0, 10 ** 7))
    elif kind == 'big':
        v = float(rng.randint(2 ** 40, 2 ** 50 - 1))
    elif kind == 'zero':
        v = 0.0
    elif kind == 'half':
        v = rng.randint(0, 100) + 0.5
    elif kind == 'tenth':
        v = rng.randint(0, 1000) / 10
    elif kind == 'near':
        v = float(n * rng.choice([1, 2, 5]))
        for _ in range(rng.randint(1, 3)):
            v = math.nextafter(v, rng.choice([math.inf, -math.inf]))
    elif kind == 'real':
        v = rng.random() * 10 ** rng.randint(0, 9)
    else:
        v = rng.random()
    if rng.random() < 0.25:
        v = -v
    return kind, v


# ----------------------------------------------------------------- oracle

def judge(rec, exact, got, value, what, err=None):
    """*exact*: {id: Fraction}, *got*: {id: float} for one quantity of *value*."""
    t = Fraction(value)
    if err is None:
        err = 8 * abs(t) / 2 ** 52 + Fraction(1, 10 ** 30)
    for i, v in got.items():
        rec.check(isinstance(v, (int, float)) and math.isfinite(v),
                  lambda: f'{what}: share of {i} is {v!r}')
    odd = [i for i, v in got.items() if v != int(v)]
    if value == int(value):
        rec.check(not odd, lambda: f'{what}: whole quantity {value!r} got the non-whole share '
                                   f'{got[odd[0]]!r}')
    else:
        rec.check(len(odd) <= 1, lambda: f'{what}: quantity {value!r} got several non-whole shares '
                                         f'{[got[i] for i in odd][:4]!r}')
    s = sum((Fraction(v) for v in got.values()), Fraction(0))
    rec.check(s == t, lambda: f'{what}: shares of {value!r} add up to {float(s)!r}: '
                              f'{brief(got, 300)}')
    extra, base = [], []
    for i, x in exact.items():
        v = Fraction(got.get(i, 0))
        rec.check(abs(v - x) < 1 + err, lambda: f'{what}: share of {i} is {float(v)!r}, exact share of '
                                                f'{value!r} is {float(x)!r}')
        # units beyond the whole part, judged clear of rounding
        f = abs(x) - (abs(x) // 1)
        if err < f < 1 - err:
            d = abs(v) - (abs(x) // 1)
            if d == 1:
                extra.append((f, i))
            elif d == 0:
                base.append((f, i))
    if extra and base:
        lo, hi = min(extra), max(base)
        rec.check(lo[0] >= hi[0] - 2 * err,
                  lambda: f'{what}: {lo[1]} (exact share {float(exact[lo[1]])!r}) got an extra unit of '
                          f'{value!r} but {hi[1]} ({float(exact[hi[1]])!r}) did not')
    rec.count('extra_units', len(extra))
    rec.count('negative', value < 0)
    rec.count('fractional', value != int(value))
    if extra and base and min(extra)[0] - max(base)[0] < err:
        rec.count('tied')
    return len(extra)


def lists(rng):
    """A list of shares with the exact ones."""
    n = rng.choice([1, 2, 2, 3, 4, 5, 7, 10, 11, 25, 49, 60, 98, 200])
    wk, w = weights(rng, n)
    if not any(w):
        w = [1] * n
    tk, t = total(rng, n)
    top = rng.choice([10 ** 3, 10 ** 6, 2 ** 31, 2 ** 62])
    ids = list(range(1, n + 1)) if rng.random() < 0.6 else rng.sample(range(1, top), n)
    if rng.random() < 0.2:
        ids[0] = 0
    s = sum(Fraction(x) for x in w)
    exact = {i: Fraction(t) * Fraction(x) / s for i, x in zip(ids, w)}
    fs = math.fsum(w)
    how = rng.choice(['proportion', 'proportion', 'product', 'rounded'])
    if how == 'proportion':
        items = [(i, t * (x / fs)) for i, x in zip(ids, w)]
    elif how == 'product':
        items = [(i, t * x / fs) for i, x in zip(ids, w)]
    else:
        items = [(i, float(exact[i])) for i in ids]
    return wk, tk, t, items, exact


def quantizer():
    try:
        from toron._utils import quantize_values
    except ImportError:
        return None
    return quantize_values


def direct(spec, rec):
    rng = rng_for('case', spec['seed'])
    q = quantizer()
    if q is None:
        return
    for k in range(spec['n']):
        wk, tk, t, items, exact = lists(rng)
        what = f'list {spec["seed"]}/{k} ({len(items)} shares of {t!r}, {wk} weights)'
        try:
            out = list(q(iter(items), t))
        except Exception as e:      # noqa: BLE001
            rec.fail(f'{what}: raised {type(e).__name__}: {e}; shares {items[:5]!r}')
        got = dict(out)
        rec.check(len(got) == len(out) and set(got) == set(exact),
                  lambda: f'{what}: returned ids {brief(sorted(i for i, _ in out), 200)} for '
                          f'{brief(sorted(exact), 200)}')
        n = judge(rec, exact, got, t, what)
        for _ in range(2):
            rng.shuffle(items)
            again = dict(q(iter(items), t))
            rec.check(again == got, lambda: f'{what}: other shares for another order of the input: '
                                            f'{brief([(i, got[i], again.get(i)) for i in got if got[i] != again.get(i)], 300)}')
            rec.count('reordered')
        rec.count('direct_lists')
        rec.sig((wk, tk, len(items), n, t < 0))
        if n and k < 3:
            rec.sample(f'{what} -> {brief(sorted(got.items()), 200)}')


# ------------------------------------------------------------------ spaces

def build(rng, rows=None):
    """A space whose quantities each have their own attribute value."""
    import toron
    na, nb = rng.choice([(1, 4), (2, 3), (3, 5), (2, 12), (1, 49), (5, 2), (3, 20)])
    if rng.random() < 0.02:
        na, nb = rng.choice([(2, 600), (40, 40), (1, 1500), (300, 2)])
    labels = [(f'a{i}', f'b{j}') for i in range(na) for j in range(nb) if rng.random() < 0.85 or j == 0]
    rng.shuffle(labels)
    wk, w = weights(rng, len(labels))
    s = toron.DataSpace(cache_to_drive=rng.random() < 0.1)
    s.add_index_columns('A', 'B')
    s.insert_index([('A', 'B')] + labels)
    s.add_weight_group('g', make_default=True)
    table = [(a, b, x) for (a, b), x in zip(labels, w)]
    rng.shuffle(table)
    s.insert_weights('g', [('A', 'B', 'g')] + table)
    s.add_partition_definition({'A'})
    cols = ['A']
    if rng.random() < 0.4:
        s.add_partition_definition({'B'})
        cols = ['A', 'B']
    locs = []
    for k in range(rng.randint(8, 20)):
        lab = rng.choice(labels)
        kind = rng.choice(['fine', 'fine', 'A', 'A', 'A', 'all', cols[-1]])
        loc = {'fine': lab, 'A': (lab[0], ''), 'B': ('', lab[1]), 'all': ('', '')}[kind]
        n = sum(1 for x in labels if all(c == '' or c == y for c, y in zip(loc, x)))
        locs.append((loc, total(rng, n)))
    rows = [loc + (f'q{k}', v) for k, (loc, (_, v)) in enumerate(locs)]
    s.insert_quantities(value='value', attributes=['q'], data=[('A', 'B', 'q', 'value')] + rows)
    if rng.random() < 0.3:
        s.set_domain('dom')
    weight = {lab: Fraction(x) for lab, x in zip(labels, w)}
    return s, labels, weight, rows, wk


def read(reader, n):
    out = {}
    cols = list(reader.columns)
    at = cols.index('q')
    for row in reader:
        out.setdefault(row[at], {})[tuple(row[:n])] = row[-1]
    return out


def shares(loc, value, labels, weight):
    hit = [x for x in labels if all(c == '' or c == y for c, y in zip(loc, x))]
    s = sum(weight[x] for x in hit)
    if s:
        return {x: Fraction(value) * weight[x] / s for x in hit}
    return {x: Fraction(value) / len(hit) for x in hit}


def space_case(spec, rec):
    rng = rng_for('case', spec['seed'])
    with case_dir():
        s, labels, weight, rows, wk = build(rng)
        got = read(s(quantize=True, cache_to_drive=rng.random() < 0.2), 2)
        again = read(s(quantize=True), 2)
        rec.check(got == again, f'{spec["seed"]}: two quantized readers of one space differ')
        whats = f'{spec["seed"]} ({len(labels)} records, {wk} weights)'
        kept = {}
        for a, b, q, v in rows:
            exact = shares((a, b), v, labels, weight)
            mine = got.pop(q, {})
            rec.check(set(mine) <= set(exact) | {('-', '-')}, lambda: f'{whats}: {q} reached {mine!r}')
            mine.pop(('-', '-'), None) if not mine.get(('-', '-')) else None
            n = judge(rec, exact, mine, v, f'{whats}, quantity {v!r} at {(a, b)!r}')
            kept[q] = ((a, b), v, mine)
            rec.count('space_quantities')
            rec.count('split_quantities', len(exact) > 1)
            rec.sig((wk, len(exact), n, v == int(v), v < 0, 'space'))
        rec.check(not got, lambda: f'{whats}: unexpected rows {brief(got, 300)}')
        translate(spec, rec, rng, s, labels, rows, kept, whats)


def translate(spec, rec, rng, s, labels, rows, kept, whats):
    """To another space, quantized at both ends or only while translating."""
    import toron
    t = toron.DataSpace()
    t.add_index_columns('X')
    nt = rng.choice([1, 3, 8, 30])
    if len(labels) > 100:
        nt = rng.choice([nt, 1200])
        rec.count('large_spaces')
    t.insert_index([('X',)] + [(f'x{i}',) for i in range(nt)])
    t.add_link(s, 'k')
    ids = {tuple(r[1:3]): r[0] for r in s.select_index()}
    pairs, m = [], {}
    for lab in labels:
        hit = rng.sample(range(nt), rng.randint(1, min(nt, rng.choice([1, 3, 11]))))
        _, w = weights(rng, len(hit))
        for i, x in zip(hit, w):
            pairs.append((ids[lab], i + 1, b'\x80', float(x)))
            m.setdefault(lab, {})[f'x{i}'] = Fraction(float(x))
        if rng.random() < 0.05:
            pairs.append((ids[lab], 0, b'\x80', 1.0))
            m[lab]['-'] = Fraction(1)
    rng.shuffle(pairs)
    t.insert_mappings2(s.unique_id, 'k', [('other_index_id', 'index_id', 'mapping_level', 'k')] + pairs)
    how = rng.choice(['inherit', '>>', 'explicit', 'off'])
    if how == 'inherit':
        r = s(quantize=True)
        r.translate(t)
    elif how == '>>':
        r = s(quantize=True) >> t
    elif how == 'explicit':
        r = s(quantize=False)
        r.translate(t, quantize=True)
    else:
        r = s(quantize=True)
        r.translate(t, quantize=False)
    got = {q: {x[0]: v for x, v in d.items()} for q, d in read(r, 1).items()}
    for a, b, q, v in rows:
        loc, _, mine = kept[q]
        out = got.get(q, {})
        what = f'{whats} >> target ({how}), quantity {v!r} at {loc!r}'
        if how == 'off':
            continue
        rec.count('translated_quantities')
        if how == 'explicit' and '' in loc:
            continue                # unrounded shares at the source
        rec.check(all(math.isfinite(x) for x in out.values()), f'{what}: {out!r}')
        tot = sum((Fraction(x) for x in out.values()), Fraction(0))
        rec.check(tot == Fraction(v) or (v != int(v) and abs(tot - Fraction(v)) <= abs(Fraction(v)) / 2 ** 50),
                  lambda: f'{what}: translated shares add up to {float(tot)!r}')
        exact, sources = {}, {}
        for lab, x in mine.items():
            if not x:
                continue
            den = sum(m[lab].values())
            for to, y in m[lab].items():
                p = y / den if den else Fraction(1, len(m[lab]))
                exact[to] = exact.get(to, 0) + Fraction(x) * p
                sources[to] = sources.get(to, 0) + 1
        if sum(1 for x in mine.values() if x) == 1:
            judge(rec, exact, out, v, what)
        else:
            odd = [x for x in out.values() if x != int(x)]
            rec.check(len(odd) <= (v != int(v)), lambda: f'{what}: several non-whole shares {odd[:4]!r}')
            for to, x in exact.items():
                y = out.get(to, 0)
                rec.check(abs(Fraction(y) - x) < sources[to] + abs(Fraction(v)) / 2 ** 45,
                          lambda: f'{what}: {to} got {y!r}, exact is {float(x)!r} from {sources[to]} records')


# --------------------------------------------------------------- processes

def digest(seed):
    rng = rng_for('digest', seed)
    h = hashlib.sha256()
    q = quantizer()
    if q is not None:
        for _ in range(200):
            *_, t, items, _ = lists(rng)
            h.update(repr(sorted(q(iter(items), t))).encode())
    for _ in range(3):
        s, *_ = build(rng)
        h.update(repr(sorted(read(s(quantize=True), 2).items())).encode())
    return h.hexdigest()


def proc(spec, rec):
    with case_dir() as d:
        here = digest(spec['seed'])
        env = dict(os.environ, PYTHONHASHSEED=spec['hashseed'], PYTHONPATH=VERIF, VT_REPO=REPO,
                   PYTHONDONTWRITEBYTECODE='1')
        code = (f'from vt.checks import c03; print(c03.digest({spec["seed"]!r}))')
        p = subprocess.run([sys.executable, '-c', code], env=env, capture_output=True, text=True,
                           timeout=50, cwd=d.work)
        rec.check(p.returncode == 0, lambda: f'{spec["seed"]}: {p.stderr[-800:]}')
        rec.check(p.stdout.strip() == here, f'{spec["seed"]}: quantized results of the same input differ '
                                            f'between processes (hash seed {spec["hashseed"]})')
        rec.count('other_process')


def run_case(spec, rec):
    {'direct': direct, 'space': space_case, 'proc': proc}[spec['kind']](spec, rec)
