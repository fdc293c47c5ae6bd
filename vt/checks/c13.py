"""C13: attribute selectors parse, match and rank by one fixed semantics."""
import json

from toron import selectors as real

from vt import selref
from vt.base import brief, rng_for

PROPERTY = 'C13'
LEVEL = 'exploration'
RULE = ('Texts generated from the documented grammar (all operators, quoting styles, escapes, '
        'nesting, white space) and texts damaged by edits are parsed by the code and by an '
        'independent parser; accepted selectors are evaluated on many rows, printed and parsed '
        'again; keys are ranked over random candidates; a situation is one canonical selector.')
ASSUMPTIONS = ['selectors inside :is(), :not() and :where() are single ones, as the grammar says']
MIN = {'accepted': 20000, 'rejected': 8000, 'matches': 20000, 'non_matches': 20000,
       'rankings': 10000, 'ranked_to_key': 2000, 'ranked_to_default': 1000, 'nested': 2000}

ATTRS = ['a', 'b', 'A', 'year', 'x-y', '_u', '-n', 'é', 'i', 'I', 'domain', '-', 'n1', 'not', 'is',
         '漢', 'a_b', '\u00b5m', 'z' * 30]
VALUES = ['x', 'X', 'xyz', 'x y', 'x-y', 'x-', '-x', 'y x', 'MALE', 'male', 'FEMALE', 'i', 'I', '2020',
          '20', '"', "'", 'a"b', "it's", '\\', 'a\\', '\\"', "\\'", '\\\\', ']', '[a]', '[a="b"]', ',',
          ':is([a])', ' ', '  x', 'x\ty', 'ß', 'SS', 'ss', 'Straße', 'é', 'É', '漢字', '*', '%', '=', '-',
          '_', 'x\u00a0y', '😀', 'a\\nb', '\\x', '()', ' i', '0', 'None', 'ǅ', 'ﬁ', 'İ', 'ı']


def plan(tier, seed):
    n = 320 if tier == 'quick' else 6000
    return [{'seed': f'{seed}-{i}', 'texts': 160} for i in range(n)]


def ws(rng, p=0.15):
    return ''.join(rng.choice(selref.WS) for _ in range(rng.randint(1, 2))) if rng.random() < p else ''


def quoted(rng, v):
    """Some spelling of the value."""
    if selref.is_identifier(v) and rng.random() < 0.5:
        return v
    q = rng.choice('"\'')
    out = []
    for n, c in enumerate(v):
        if c == q:
            out.append('\\' + c)
        elif c == '\\':
            nxt = v[n + 1] if n + 1 < len(v) else q
            out.append('\\' if nxt not in ('\\', q) and rng.random() < 0.5 else '\\\\')
        else:
            out.append(c)
    return q + ''.join(out) + q


def simple(rng):
    a = rng.choice(ATTRS)
    w = lambda: ws(rng)
    if rng.random() < 0.3:
        return f'[{w()}{a}{w()}]'
    v = rng.choice(VALUES)
    op = rng.choice(selref.OPS)
    text = quoted(rng, v)
    flag = ''
    if rng.random() < 0.3:
        flag = rng.choice('iI')
        flag = (ws(rng, 1) if text[-1] not in '"\'' else rng.choice(['', ' '])) + flag
    return f'[{w()}{a}{w()}{op}{w()}{text}{flag}{w()}]'


def single(rng, depth=0):
    if depth < 3 and rng.random() < 0.35:
        kind = rng.choice(['is', 'not', 'where'])
        n = rng.choice([1, 1, 2, 2, 3])
        items = [single(rng, depth + 1) for _ in range(n)]
        return f':{kind}({ws(rng)}' + f'{ws(rng)},{ws(rng)}'.join(items) + f'{ws(rng)})'
    return simple(rng)


def text(rng):
    n = rng.choice([1, 1, 1, 2, 2, 3])
    return ws(rng, 0.1) + ws(rng).join(single(rng) for _ in range(n)) + ws(rng, 0.1)


def damage(rng, t):
    t = list(t)
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        how = rng.random()
        i = rng.randint(0, len(t)) if t else 0
        if how < 0.4 and t:
            del t[min(i, len(t) - 1)]
        elif how < 0.75:
            t.insert(i, rng.choice(list('[]()=~|^$*:,"\'\\ iI-0a1.#>+@\n') + [':is(', ':not(', '""', ']]']))
        elif t:
            t[min(i, len(t) - 1)] = rng.choice(list('[]()=~|^$*:,"\'\\ iI-0a'))
    if rng.random() < 0.1:
        t = t[:rng.randint(0, len(t))]
    return ''.join(t)


def rows(rng, sel, n):
    """Attribute sets aimed at the selector."""
    seen = []

    def walk(s):
        if s[0] in ('has', 'cmp'):
            seen.append(s)
        else:
            for x in s[1]:
                walk(x)
    walk(sel)
    for _ in range(n):
        row = {}
        for a in rng.sample(ATTRS, rng.randint(0, 3)):
            row[a] = rng.choice(VALUES + [''])
        for s in seen:
            r = rng.random()
            if r < 0.2:
                continue
            v = s[3] if s[0] == 'cmp' else rng.choice(VALUES)
            row[s[1]] = rng.choice([v, v, v + 'x', 'x' + v, v + '-x', v + ' x', 'x ' + v, v.upper(),
                                    v.lower(), v.title(), v.swapcase(), v[:-1], v[1:], '', v + v,
                                    'x-' + v, v.strip(), '\t' + v, rng.choice(VALUES)])
        yield row


def is_nested(s):
    return s[0] not in ('has', 'cmp') and any(x[0] not in ('has', 'cmp') for x in s[1])


def check_text(rec, rng, t, pool):
    try:
        want = selref.parse(t)
    except selref.Malformed as e:
        want = None
    try:
        got = real.parse_selector(t)
    except Exception as e:      # noqa: BLE001 - any refusal
        got, err = None, e
    rec.ev()
    if want is None:
        rec.check(got is None, lambda: f'malformed selector {t!r} accepted as {got!r}')
        rec.check(bool(str(err).strip()), lambda: f'malformed selector {t!r}: error has no message')
        rec.count('rejected')
        return
    rec.check(got is not None, lambda: f'well-formed selector {t!r} refused: {err!r}'[:900])
    rec.count('accepted')
    rec.count('nested', is_nested(want))
    rec.sig(repr(want))
    spec = selref.specificity(want)
    rec.check(tuple(got.specificity) == spec,
              lambda: f'specificity of {t!r} is {got.specificity!r}, expected {spec!r}')
    printed = str(got)
    try:
        again = real.parse_selector(printed)
        shape = selref.parse(printed)
    except Exception as e:      # noqa: BLE001
        rec.fail(f'{t!r} prints as {printed!r}, which is refused: {e!r}'[:900])
    rec.check(again == got and not (again != got) and hash(again) == hash(got),
              lambda: f'{t!r} prints as {printed!r}, which parses to a different selector '
                      f'{again!r} != {got!r}')
    rec.check(selref.key(shape) == selref.key(want),
              lambda: f'{t!r} prints as {printed!r}, which means something else')
    rec.check(tuple(again.specificity) == spec,
              lambda: f'{t!r} prints as {printed!r} with specificity {again.specificity!r}')
    wrapped = real.accepts_json_input(got)
    for row in rows(rng, want, 8):
        a, b, exp = got(row), again(row), selref.match(want, row)
        rec.check(bool(a) == exp, lambda: f'{t!r} on {row!r}: {a!r}, expected {exp!r}')
        rec.check(bool(b) == exp, lambda: f'{t!r} printed and parsed again on {row!r}: {b!r}, '
                                          f'expected {exp!r}')
        rec.count('matches' if exp else 'non_matches')
    rec.check(bool(wrapped(json.dumps(row))) == exp, lambda: f'{t!r} on JSON {row!r}')
    pool.append((t, want, got, row))
    if len(pool) > 1:
        t2, want2, got2, _ = rng.choice(pool[:-1])
        if selref.key(want) == selref.key(want2):
            rec.check(got == got2 and hash(got) == hash(got2), lambda: f'{t!r} and {t2!r} are not equal')
            rec.count('equal_pairs')
        else:
            rec.check(got != got2, lambda: f'{t!r} and {t2!r} are equal')


def check_list(rec, rng, pool):
    """A JSON list of texts, as stored with groups and links."""
    texts = [rng.choice(pool)[0] for _ in range(rng.randint(0, 3))]
    got = real.convert_text_selectors(json.dumps(texts))
    rec.check([tuple(g.specificity) for g in got] == [selref.specificity(selref.parse(t)) for t in texts],
              lambda: f'list of selectors {texts!r} gives {got!r}')
    bad = damage(rng, rng.choice(pool)[0])
    try:
        selref.parse(bad)
    except selref.Malformed as e:
        try:
            got = real.convert_text_selectors(json.dumps(texts + [bad]))
        except Exception as e:      # noqa: BLE001
            pass
        else:
            rec.fail(f'list with malformed selector {bad!r} accepted: {got!r}')
        rec.count('bad_lists')


def check_rank(rec, rng, pool):
    picks = [rng.choice(pool) for _ in range(rng.randint(0, 5))]
    keys = list(range(1, len(picks) + 1))
    rng.shuffle(keys)
    cands, reals = {}, {}
    for k, p in zip(keys, picks):
        extra = [rng.choice(pool) for _ in range(rng.choice([0, 0, 1, 2]))]
        items = [p] + extra
        rng.shuffle(items)
        cands[k] = [x[1] for x in items]
        reals[k] = [x[2] for x in items]
    if rng.random() < 0.2:
        cands[99], reals[99] = [], rng.choice([None, []])
    base = [rng.choice(pool)[3] for _ in range(rng.randint(1, 3))]
    row = {}
    for b in base:
        row.update(b)
    for p in picks:
        if rng.random() < 0.6:
            row.update(p[3])
    default = rng.choice([1, 'default', None])
    want = selref.best_key(cands, row, default)
    got = real.get_greatest_unique_specificity(row, reals, default)
    rec.check(got == want and type(got) is type(want),
              lambda: f'best key for {row!r} among '
                      f'{ {k: [str(s) for s in v or ()] for k, v in reals.items()} !r} (default {default!r}) '
                      f'is {got!r}, expected {want!r}')
    rec.count('rankings')
    rec.count('ranked_to_key', want in cands and want != default)
    rec.count('ranked_to_default', want == default)
    order = list(reals.items())
    rng.shuffle(order)
    rec.check(real.get_greatest_unique_specificity(row, dict(order), default) == want,
              lambda: f'best key depends on the order of the candidates: {reals!r}')


def run_case(spec, rec):
    rng = rng_for('C13', spec['seed'])
    pool = []
    for n in range(spec['texts']):
        t = text(rng)
        check_text(rec, rng, t, pool)
        if rng.random() < 0.6:
            check_text(rec, rng, damage(rng, t), pool)
        if pool and n % 2:
            check_rank(rec, rng, pool)
        if pool and n % 8 == 0:
            check_list(rec, rng, pool)
    for t in ('', ' ', '[]', '[a', 'a', '[a=]', '[a=""]', "[a='']", '[=b]', ':is()', ':not([a],)',
              '[a][b', '[a]]', '[1a]', '[a=1]', '[a="x" j]', '[a=x ii]', '[a i]', ':has([a])', '[a==b]',
              '[a!="b"]', '[a="b\n"]', ':IS([a])', '[a="x]', "[a=\"x']", ':is([a][b])', '*', '[a]>[b]'):
        check_text(rec, rng, t, pool)
    rec.sample('; '.join(p[0] for p in pool[:4]))
