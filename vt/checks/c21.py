"""C21: names, labels and values of any text are only ever data."""
import gc
import json
import os

import toron
from toron import graph
from toron.reader import pivot_reader

from vt import flow, gen, hist, hostile, ops, selref
from vt import state as S
from vt.base import Violation, brief, case_dir, file_bytes, rng_for
from vt.checks.c13 import quoted

PROPERTY = 'C21'
LEVEL = 'exploration'
RULE = ('One random history is applied to two spaces in lockstep, once with plain words and once with '
        'every word consistently replaced by hostile text (SQL, JSON, selector and CSV syntax, quotes, '
        'wildcards, keywords, unicode, numbers), the second kept under a hostile file name; outcomes, '
        'raw contents and the results of every kind of read must be the replaced ones. Text that cannot '
        'be stored must be refused without effect. A situation is one (operation, outcome, kind of '
        'hostile text).')
ASSUMPTIONS = ['column names differ by more than ASCII case and are not names of the reserved identifiers',
               'columns used in keyword criteria are not named like parameters of the call',
               'attribute names used in selectors are identifiers of the selector syntax',
               "'' and '-' keep their documented meaning and are not replaced"]
MIN = {'steps_ok': 4000, 'steps_refused': 300, 'reads': 12000, 'reads_with_rows': 6000, 'flows_with_rows': 150,
       'translations_with_rows': 60, 'selectors_used': 600, 'pivots': 150, 'criteria': 1500, 'hostile_files': 150,
       'bad_refused': 279, 'bad_accepted': 40, 'mapped_files': 200, 'case_pairs': 60}
CASE_LIMIT = 120

RESERVED = {'index_id', '_location_id', '_structure_id', '_granularity', 'value', 'domain'}
EXACT = {'weight'}
PARAMETERS = {'self', 'data', 'columns', 'header', 'criteria', 'space_or_ref', 'link_name', 'name',
              'weight_group_name', 'space', 'node', 'existing_name', 'cls', 'group_name', 'ref', 'other'}
ATTRS = [('attr_one', ['av1', 'av2', 'av3']), ('attr_two', ['bv1', 'bv2']), ('attr_three', ['cv1', 'cv2', 'cv3'])]
gen.ATTRS = ATTRS
IDENTS = ['select', 'NULL', 'null', 'and', 'é', '漢字', 'rowid', '_rowid_', 'a-b', '-', '-x', '_', 'is', 'not',
          'where', 'value-x', 'ß', 'İ', 'ı', 'i', 'true', 'json', 'x' * 120, 'TOTAL', 'Ａ', 'µ', 'attributes', 'key',
          'weight', 'quantity', 'Value', 'a_b', 'aXb', 'index', 'from', 'group', 'TRUE', 'rowID2']
FRAGMENTS = ["'", '"', '`', '[', ']', '{', '}', '(', ')', ';', '--', '/*', '*/', ',', '.', ':', '$', '\\', '%',
             '_', '*', '?', ' ', '\n', '\t', '\r', '=', '<', '>', '&', '|', '#', '!', '@', '~', '^', 'a', 'A', 'x', '1',
             '0', 'e', 'é', 'e\u0301', '漢', '😀', '\u200b', '\x85', '\u2028', '\x1f', 'select', 'NULL', 'null', 'or', '\x7f']

COLUMNS = ['col_a', 'col_b', 'col_c', 'col_d', 'col_e', 'col_f', 'col_g', 'col_h']
LABELS = ['la', 'lb', 'lc', 'ld', 'le', 'lf', 'lg']
GROUPS = ['grp_1', 'grp_2', 'grp_3']
LINKS = ['lnk_1', 'lnk_2', 'lnk_3']
DOMAINS = ['', 'dom_1', 'dom_2']
OTHER_NAMES = ['val', 'zzz', 'nocol', 'nogroup', 'noattr', 'renamed', 'k9', 'Z', 'col_x']
TEXTS = ['some text', 'new text', 'd', 'link text', 'src.toron', 'other']


def plan(tier, seed):
    return hist.plan(PROPERTY, tier, seed, 360, 5000, steps=14, bulk=(80, 140, 40))


class HGen(gen.Gen):
    COLUMNS = COLUMNS[:6]
    LABELS = LABELS
    GROUPS = GROUPS
    LINKS = LINKS
    DOMAINS = DOMAINS
    selectors = ()

    def _selectors(self):
        if self.p(0.4) or not self.selectors:
            return None
        return self.some(self.selectors, 1, 2)

    def criteria(self, st):
        return super().criteria(st) if st.columns else None

    def g_rename_columns(self, st):
        op = super().g_rename_columns(st)
        if op:
            op['mapping'] = {k: {'G': 'col_g', 'H': 'col_h', 'category': 'attr_one'}.get(v, v)
                             for k, v in op['mapping'].items()}
        return op

    def g_rename_label(self, st):
        op = self.g_rename_columns(st)
        if not op:
            return None
        old, new = next(iter(op['mapping'].items()))
        return {'old': old, 'new': new}

    def g_add_columns(self, st):
        op = super().g_add_columns(st)
        if op:
            op['cols'] = [{'category': 'attr_one', 'a': 'col_x'}.get(c, c) for c in op['cols']]
        return op


def lower(s):
    return ''.join(c.lower() if 'A' <= c <= 'Z' else c for c in s)


def hostile_text(rng, pool):
    if rng.random() < 0.3:
        return ''.join(rng.choice(FRAGMENTS) for _ in range(rng.randint(1, 6)))
    return rng.choice(pool)


def kind_of(s):
    """A rough class of a hostile text, for the coverage signature."""
    for n, cs in enumerate(["'", '"', '`', ';', '\n', '\r', '\t', '\\', '[', '{', '%', '*', '\x00', ' ', ',', '$', '.']):
        if cs in s:
            return n
    return 100 + (s.isidentifier() * 2) + s.isascii() + 10 * s.isdigit()


class Renaming(object):
    """An injective replacement of the plain words."""
    def __init__(self, rng):
        self.rng = rng
        self.map = {}
        self.identifiers = rng.random() < 0.65
        used = set(RESERVED) | EXACT

        def draw(token, pool, ok=lambda s: True, key=lambda s: s, taken=used):
            for _ in range(500):
                s = hostile_text(rng, pool)
                if s in ('', '-') or not ok(s) or key(s) in taken:
                    continue
                taken.add(key(s))
                self.map[token] = s
                return
            self.map[token] = token
        for t, _ in ATTRS:
            pool = IDENTS if self.identifiers else hostile.NAMES
            draw(t, pool, (lambda s: selref.is_identifier(s) and s not in PARAMETERS) if self.identifiers else
                 (lambda s: '\x00' not in s and s not in PARAMETERS), lower)
        for t in COLUMNS + GROUPS + LINKS + OTHER_NAMES:
            draw(t, hostile.NAMES, lambda s: '\x00' not in s and s not in PARAMETERS, lower)
        labels = set()
        nul = rng.random() < 0.2
        fine = lambda s: nul or '\x00' not in s     # noqa: E731
        pool = hostile.VALUES
        if rng.random() < 0.25:
            # labels that run together to the same text, with and without a separator
            sep = rng.choice(['', '', ',', '|', '-', ' ', '\x1f', "', '", '", "'])
            word = rng.choice(['a', 'x', '1', 'é', "'"])
            pool = [sep.join([word] * n) for n in range(1, len(LABELS) + 3)]
            for t, s in zip(LABELS, pool):
                labels.add(s)
                self.map[t] = s
        for t in LABELS:
            if t not in self.map:
                draw(t, pool, fine, taken=labels)
        values = set()
        for _, vals in ATTRS:
            for t in vals:
                draw(t, hostile.VALUES, fine, taken=values)
        for t in DOMAINS[1:]:
            draw(t, hostile.VALUES, fine, taken=set())
        texts = set()
        for t in TEXTS:
            draw(t, hostile.VALUES, fine, taken=texts)
        self.selectors = []
        if self.identifiers:
            self.make_selectors()

    def make_selectors(self):
        rng = self.rng
        if not any('\n' not in self.map[v] for _, vals in ATTRS for v in vals):
            return
        pairs = [(a, v) for a, vals in ATTRS for v in vals if '\n' not in self.map[v]]

        for _ in range(10):
            kind = rng.choice(['has', 'eq', 'eq', 'and', 'not', 'is', 'list'])
            (a, v), (b, w) = rng.choice(pairs), rng.choice(pairs)
            if rng.random() < 0.15 and '\n' not in self.map['dom_1']:
                a, v = 'domain', 'dom_1'

            def build(m, q, kind=kind, a=a, v=v, b=b, w=w):
                eq = lambda a, v: f'[{m.get(a, a)}={q(m.get(v, v))}]'   # noqa: E731
                return {'has': lambda: f'[{m.get(a, a)}]', 'eq': lambda: eq(a, v),
                        'and': lambda: eq(a, v) + f'[{m.get(b, b)}]', 'not': lambda: f':not({eq(a, v)})',
                        'is': lambda: f':is({eq(a, v)}, {eq(b, w)})',
                        'list': lambda: f':where([{m.get(b, b)}], {eq(a, v)})'}[kind]()
            plain = build({}, lambda v: f'"{v}"')
            if plain in self.map:
                continue
            text = build(self.map, lambda v: quoted(rng, v))
            self.map[plain] = text
            self.selectors.append(plain)

    KEEP = {'op', 'form', 'on_label', 'on_weight', 'on_conflict', 'on_existing', 'store', 'other'}

    def op(self, x, key=None):
        if key in self.KEEP:
            return x
        return self(x, self.op)

    def __call__(self, x, rec=None):
        rec = rec or self
        if isinstance(x, str):
            if x not in self.map and ', ' in x and all(w in self.map for w in x.split(', ')):
                return ', '.join(self.map[w] for w in x.split(', '))    # a list of columns
            return self.map.get(x, x)
        if isinstance(x, dict):
            if rec is self:
                return {self(k): self(v) for k, v in x.items()}
            return {self.map.get(k, k) if k not in OP_KEYS else k: self.op(v, k) for k, v in x.items()}
        if isinstance(x, (list, tuple)):
            return type(x)(rec(i) for i in x)
        if isinstance(x, (set, frozenset)):
            return frozenset(rec(i) for i in x)
        return x


OP_KEYS = {'op', 'cols', 'mapping', 'old', 'new', 'label', 'offset', 'domain', 'partition', 'partitions', 'attrs',
           'attr', 'columns', 'rows', 'form', 'weights', 'on_label', 'on_weight', 'merge', 'criteria', 'name',
           'description', 'selectors', 'make_default', 'changes', 'value_column', 'on_conflict', 'other',
           'other_filename_hint', 'is_default', 'user_properties', 'value', 'attributes', 'allow_label',
           'allow_partition', 'on_existing'}


def near(x):
    """A float up to the order in which it was summed."""
    if isinstance(x, float):
        return float('%.10g' % x)
    if isinstance(x, (tuple, frozenset)):
        return type(x)(near(i) for i in x)
    return x


def contents(st):
    d = st.as_dict(('unique_id',))
    d['props'] = {k: v for k, v in st.props.items() if k != 'created_date'}
    d['structure'] = {s: near(g) for s, g in st.structure}
    d['quantities'] = {(k[0], frozenset(k[1] or ())): v for k, v in st.quantities.items()}
    return d


def differences(a, b):
    out = []
    for k in a:
        if a[k] == b[k]:
            continue
        if isinstance(a[k], dict):
            x = {i: v for i, v in a[k].items() if b[k].get(i, 'absent') != v}
            y = {i: v for i, v in b[k].items() if a[k].get(i, 'absent') != v}
            out.append(f'{k}: expected {brief(x, 400)}, got {brief(y, 400)}')
        else:
            out.append(f'{k}: expected {brief(a[k], 400)}, got {brief(b[k], 400)}')
    return '; '.join(out)


def rows_of(it):
    return [tuple(r) for r in it]


def read_all(r):
    """(columns, rows) of a reader, columns in any order."""
    cols = tuple(r.columns)
    out = []
    for row in r:
        out.append(frozenset(zip(cols, row)))
    r.close()
    return ['reader', frozenset(cols), out]


def headed(it):
    """Rows of a table whose columns may come in any order."""
    it = iter(it)
    cols = tuple(next(it))
    return ['reader', frozenset(cols), [frozenset(zip(cols, r)) for r in it]]


def pivoted(r, columns):
    it = iter(pivot_reader(r, columns))
    head = next(it)
    out = []
    for row in it:
        out.append(frozenset((h, v) for h, v in zip(head, row)))
    return ['reader', frozenset(head), out]


def multiset(x):
    out = {}
    for i in x:
        i = near(i)
        out[i] = out.get(i, 0) + 1
    return out


def canon(x):
    """Results with order removed where none is promised."""
    if isinstance(x, list) and x and x[0] == 'reader':
        return ('reader', x[1], multiset(x[2]))
    if isinstance(x, list) and all(isinstance(i, tuple) for i in x):
        return multiset(x)
    return x


class Case(object):
    def __init__(self, spec, rec, rng, d):
        self.rec, self.rng, self.d = rec, rng, d
        self.m = Renaming(rng)
        self.others = gen.make_others(rng)
        for s in self.others.values():
            s.add_weight_group('w', make_default=True)
            s.insert_weights('w', [('P', 'Q', 'w')] + [r[1:] + (rng.choice([1, 2, 3.5]),)
                                                       for r in s.select_index() if r[0]])
            # the attributes of the plain and of the hostile source are separate copies
        self.plain = toron.DataSpace()
        self.file = None
        if rng.random() < 0.6:
            self.file = self.hostile_path()
            self.hostile = toron.bind_file(self.file, mode='rwc')
            rec.count('hostile_files')
        else:
            self.hostile = toron.DataSpace(cache_to_drive=rng.random() < 0.2)
        self.env = ops.Env(self.others)
        ids = {k: [r[0] for r in s.select_index()] for k, s in self.others.items()}
        self.gen = HGen(rng, self.env, weights=gen.mix(1.0), size=spec['size'], wild=spec['wild'], other_ids=ids)
        self.gen.bulk = spec.get('bulk', 0)
        rec.count('bulk_histories', bool(self.gen.bulk))
        self.gen.selectors = self.m.selectors
        self.log = []
        self.kinds = sorted({kind_of(v) for v in self.m.map.values()})

    def hostile_path(self, parent=None):
        rng = self.rng
        for _ in range(50):
            name = hostile_text(rng, hostile.NAMES + ['a?mode=memory', 'x#frag', '%41', 'a%2Fb', ':memory:', 'file:x',
                                                      'a?cache=shared&mode=ro', '~', '-rf', 'C:x', ' x ', '?', '%'])
            if '/' in name or '\x00' in name or name in ('.', '..', '') or len(name.encode()) > 200:
                continue
            if parent is None:
                parent = self.d.path() + rng.choice(['', ' dir?x=1', '%20', "'q'", '#'])
                os.mkdir(parent)
                # a neighbour which a wrong file name could hit
            return os.path.join(parent, name)
        return self.d.path()

    def state(self):
        return S.space_state(self.plain)

    def step(self, op):
        rec = self.rec
        mine = self.m.op(op)
        res = []
        for s, o in ((self.plain, op), (self.hostile, mine)):
            try:
                ops.apply(s, o, self.env)
                res.append('ok')
            except Exception as e:      # noqa: BLE001
                res.append(type(e).__name__)
                err = f'{type(e).__name__}: {e}'
        self.log.append(f'{brief(mine, 400)} -> {res[1]}')
        rec.check(res[0] == res[1], lambda: f'{brief(mine, 900)}: {res[1]}, with plain words {res[0]} ({err[:300]})')
        self.compare(f'after {brief(mine, 700)}')
        rec.count('steps_ok' if res[0] == 'ok' else 'steps_refused')
        for k in self.kinds:
            rec.sig((op['op'], res[0][:12], k))

    def compare(self, what):
        a = self.m(contents(S.space_state(self.plain)))
        st = S.space_state(self.hostile)
        b = contents(st)
        self.rec.check(not st.problems, lambda: f'{what}: {st.problems}')
        self.rec.check(a == b, lambda: f'{what}: contents differ from the ones with plain words: {differences(a, b)}')

    # --------------------------------------------------------------- reading
    def queries(self, s, m, seed):
        """Named reads; the same words are asked for in either vocabulary."""
        rng = rng_for('reads', seed)
        st = self.now
        q = {
            'index': lambda: rows_of(s.select_index(header=True)), 'domain': lambda: s.domain,
            'columns': lambda: list(s.index_columns), 'order': lambda: list(s.get_label_columns()),
            'partitions': lambda: frozenset(frozenset(p) for p in s.partition_definitions),
            'attributes': lambda: list(s.get_registered_attributes()),
            'groups': lambda: [(g.name, g.description, tuple(g.selectors or ()), g.is_complete) for g in s.weight_groups],
            'default': lambda: getattr(s.get_default_weight_group(), 'name', None),
            'links': lambda: [(x.other_unique_id, x.name, x.other_filename_hint, x.description, tuple(x.selectors or ()),
                               x.is_default, x.is_locally_complete) for x in s.links],
            'quantities': lambda: headed(s.select_quantities()),
            'quantities2': lambda: headed(s.select_quantities2()),
            'without': lambda: headed(s.select_quantities_without_index()),
            'unmatched': lambda: headed(s.select_unmatched_quantities()),
            'weights': lambda: headed(graph.get_weights(s)),
            'flow': lambda: read_all(s()),
            'whole flow': lambda: read_all(s(quantize=True)),
        }
        for t in rng.sample(self.m.selectors, min(3, len(self.m.selectors))):
            q[f'flow {t}'] = lambda t=t: read_all(s(m(t)))
            self.rec.count('selectors_used')
        a = [rng.choice(ATTRS)[0] for _ in range(2)]
        q[f'flow by {a[0]}'] = lambda: read_all(s(sum_by_attrs=[m(a[0])]))
        q[f'pivot {a}'] = lambda: pivoted(s(), [m(x) for x in a])
        self.rec.count('pivots')
        words = LABELS + ['nolabel', '-', '']
        for _ in range(4):
            if not st.columns:
                break
            crit = {c: rng.choice(words) for c in rng.sample(st.columns, rng.randint(1, min(2, len(st.columns))))}
            if st.index and rng.random() < 0.6:
                labels = rng.choice(list(st.index.values()))
                crit = {c: labels[st.columns.index(c)] for c in crit}
            if rng.random() < 0.1:
                crit['nocol'] = rng.choice(['nocol', 'la'])
            tag = json.dumps(crit)
            self.rec.count('criteria')
            q['index ' + tag] = lambda crit=crit: rows_of(s.select_index(**m(crit)))
            for g in st.groups:
                q[f'weights {g} ' + tag] = lambda crit=crit, g=g: rows_of(s.select_weights(m(g), header=True, **m(crit)))
            for uid, name in st.links:
                q[f'mappings {uid} {name} ' + tag] = lambda crit=crit, uid=uid, name=name: rows_of(
                    s.select_mappings(uid, m(name), **m(crit)))
        for uid, name in st.links:
            q[f'mappings {uid} {name}'] = lambda uid=uid, name=name: rows_of(s.select_mappings(uid, m(name), header=True))
            for o in self.others.values():
                if o.unique_id == uid:
                    q[f'get_mapping {uid} {name}'] = lambda o=o, name=name: rows_of(graph.get_mapping(o, s, m(name)))
        return q

    def look(self, what):
        rec = self.rec
        self.now = self.state()
        seed = self.rng.random()
        x = self.queries(self.plain, lambda w: w, seed)
        y = self.queries(self.hostile, self.m, seed)
        for k in x:
            res = []
            for f in (x[k], y[k]):
                try:
                    res.append(('ok', f()))
                except Exception as e:      # noqa: BLE001
                    res.append(('raised', type(e).__name__, str(e)[:200]))
            a, b = res
            rec.count('reads')
            if a[0] == 'ok' == b[0]:
                p, q = canon(self.m(a[1])), canon(b[1])
                rec.check(p == q, lambda: f'{what}, {k}: expected {brief(p, 700)}, got {brief(q, 700)}')
                rows = a[1][2] if isinstance(a[1], list) and a[1] and a[1][0] == 'reader' else a[1]
                rec.count('reads_with_rows', bool(rows))
                rec.count('flows_with_rows', k == 'flow' and bool(rows))
            else:
                rec.check(a[0] == b[0] and (a[1] == b[1] or a[1].startswith('Unexpected') and b[1].startswith('Unexpected')),
                          lambda: f'{what}, {k}: {b}, with plain words {a}')

    # ------------------------------------------------------ flows and links
    def translations(self):
        """Sources whose attributes are words of the vocabulary, and targets linked from here."""
        rec, rng, m = self.rec, self.rng, self.m
        st = self.state()
        for key, other in self.others.items():
            if not any(uid == other.unique_id for uid, _ in st.links):
                continue
            labels = [r[1:] for r in other.select_index() if r[0]]
            if not labels:
                continue
            rows = [(p, q, rng.choice(ATTRS[0][1]), rng.choice(ATTRS[1][1]), rng.choice([1, 2, 7])) for p, q in labels]
            out = []
            for words in (lambda w: w, m):
                path = self.d.path()
                other.to_file(path, fsync=False)
                s = toron.read_file(path)
                s.set_registered_attributes([words('attr_one'), words('attr_two')])
                s.insert_quantities2(value_column='v', data=[('P', 'Q', words('attr_one'), words('attr_two'), 'v')] + [
                    (p, q, words(x), words(y), v) for p, q, x, y, v in rows])
                target = self.plain if not out else self.hostile
                try:
                    out.append(('ok', read_all(s() >> target)))
                except Exception as e:      # noqa: BLE001
                    out.append(('raised', type(e).__name__, str(e)))
            a, b = out
            if a[0] == 'ok' == b[0]:
                p, q = canon(m(a[1])), canon(b[1])
                rec.check(p == q, lambda: f'translation from {key}: expected {brief(p, 700)}, got {brief(q, 700)}')
                rec.count('translations_with_rows', bool(a[1][2]))
            else:
                rec.check(a[:2] == b[:2], lambda: f'translation from {key}: {b}, with plain words {a}')

    def mapping_file(self):
        """The same table of label pairs loaded between spaces in either vocabulary."""
        rec, rng, m = self.rec, self.rng, self.m
        st = self.state()
        if not st.columns:
            return
        if not st.default:
            self.step({'op': 'add_group', 'name': 'renamed', 'make_default': True})
            self.step({'op': 'insert_weights', 'name': 'renamed', 'columns': ['index_id'] + st.columns + ['renamed'],
                       'rows': [[i, *lab, 2] for i, lab in st.index.items() if i], 'on_conflict': 'replace',
                       'form': 'header'})
        right = []
        pairs = [(rng.choice(LABELS), rng.choice(LABELS[:3])) for _ in range(rng.randint(1, 6))]
        pairs = sorted(set(pairs))
        for words in (lambda w: w, m):
            s = toron.DataSpace()
            cols = [words('col_h'), words('Z')]
            s.add_index_columns(*cols)
            s.insert_index([cols] + [[words(x) for x in p] for p in pairs])
            s.set_domain(words('dom_2'))
            s.add_weight_group(words('grp_1'), make_default=True)
            s.insert_weights(words('grp_1'), [cols + [words('grp_1')]] + [[words(x) for x in p] + [n + 1]
                                                                      for n, p in enumerate(pairs)])
            right.append(s)
        mine = [lab for i, lab in st.index.items() if i]
        rows = []
        for _ in range(rng.randint(1, 10)):
            lab = rng.choice(mine) if mine and rng.random() < 0.9 else [rng.choice(LABELS) for _ in st.columns]
            lab = [x if rng.random() < 0.85 else '' for x in lab]
            p = [x if rng.random() < 0.85 else '' for x in rng.choice(pairs)]
            rows.append(list(lab) + [rng.choice([1, 2, 5.5])] + p)
        direction = rng.choice(['->', '<-', '<->'])
        name = rng.choice(LINKS)
        limit, overlap = rng.choice([1, 2, 50]), rng.random() < 0.3
        res = []
        for words, left, r in ((lambda w: w, self.plain, right[0]), (m, self.hostile, right[1])):
            head = list(words(list(st.columns))) + [words(name)] + [words('col_h'), words('Z')]
            try:
                graph.load_mapping(left, direction, r, words(name), [head] + [[words(x) if isinstance(x, str) else x
                                                                               for x in row] for row in rows],
                                   match_limit=limit, allow_overlapping=overlap)
                res.append('ok')
            except Exception as e:      # noqa: BLE001
                res.append(type(e).__name__)
                err = str(e)
        what = f'load_mapping {direction} of {brief(rows, 500)}'
        rec.check(res[0] == res[1], lambda: f'{what}: {res[1]}, with plain words {res[0]}: {err[:300]}')
        rec.count('mapped_files', res[0] == 'ok')
        uids = {right[0].unique_id: 'RIGHT', right[1].unique_id: 'RIGHT', self.plain.unique_id: 'LEFT',
                self.hostile.unique_id: 'LEFT'}

        def named(st):
            d = contents(st)
            for f in ('links', 'mappings'):
                d[f] = {(uids.get(k[0], k[0]),) + k[1:]: v for k, v in d[f].items()}
            for v in d['links'].values():
                v.pop('hint')
            return d
        for a, b, side in ((self.plain, self.hostile, 'left'), (right[0], right[1], 'right')):
            x, y = m(named(S.space_state(a))), named(S.space_state(b))
            rec.check(x == y, lambda: f'{what}, {side}: {differences(x, y)}')
        if '<-' in direction and res[0] == 'ok':
            for s, r, w in ((self.plain, right[0], name), (self.hostile, right[1], m(name))):
                s.drop_link(r, w)

    # ----------------------------------------------------------- files
    def files(self):
        """Saving under hostile names, next to files a wrong name could hit."""
        rec = self.rec
        path = self.hostile_path()
        parent = os.path.dirname(path)
        near = []
        for n in ('x', 'a', 'file', 'memory', 'toron', os.path.basename(path).split('?')[0].split('#')[0]):
            p = os.path.join(parent, n)
            if n and n not in ('.', '..') and p != path and not os.path.exists(p):
                with open(p, 'w') as f:
                    f.write('neighbour')
                near.append(p)
        before = contents(S.space_state(self.hostile))
        self.hostile.to_file(path, fsync=False)
        rec.check(sorted(os.listdir(parent)) == sorted([os.path.basename(path)] + [os.path.basename(p) for p in near]),
                  lambda: f'saving as {path!r} leaves {os.listdir(parent)}')
        rec.check(contents(S.read_state(path)) == before, lambda: f'the file saved as {path!r} has other contents')
        for how in (lambda: toron.read_file(path), lambda: toron.read_file(path, cache_to_drive=True),
                    lambda: toron.bind_file(path, mode='ro'), lambda: toron.bind_file(path, mode='rw'),
                    lambda: toron.bind_file(path, mode='rwc')):
            s = how()
            rec.check(contents(S.space_state(s)) == before, lambda: f'{path!r} opens with other contents')
            s = None
        s = toron.bind_file(path, mode='rw')
        s.set_domain('changed')
        s = None
        rec.check(S.read_state(path).domain == 'changed', lambda: f'changes do not reach {path!r}')
        gc.collect()
        for p in near:
            rec.check(file_bytes(p) == b'neighbour', lambda: f'{p!r} is changed by saving to {path!r}')
        rec.check(sorted(os.listdir(parent)) == sorted([os.path.basename(path)] + [os.path.basename(p) for p in near]),
                  lambda: f'using {path!r} leaves {os.listdir(parent)}')
        rec.count('hostile_files')

    # ------------------------------------------------- text beyond the legal
    BAD = ['\ud800', 'a\udfffb', '\x00', 'a\x00b', 'a\x00', '\udcff']

    def bad_once(self):
        rec, rng = self.rec, self.rng
        left = [b for b in self.BAD if b not in self.m.map.values()]
        if not left:
            return
        bad = rng.choice(left)
        st = self.state()
        op = self.gen.op(st)
        places = []

        def walk(x, path, key):
            if key in Renaming.KEEP:
                return
            if isinstance(x, dict):
                for k, v in x.items():
                    if k not in OP_KEYS:
                        places.append(path + (('key', k),))
                    walk(v, path + (k,), k)
            elif isinstance(x, list):
                for n, v in enumerate(x):
                    walk(v, path + (n,), None)
            elif isinstance(x, str):
                places.append(path)
        walk(op, (), None)
        if not places:
            return

        def put(x, path, text):
            x = dict(x) if isinstance(x, dict) else list(x)
            if len(path) == 1:
                if isinstance(path[0], tuple):
                    return {text if k == path[0][1] else k: v for k, v in x.items()}
                x[path[0]] = text
            else:
                x[path[0]] = put(x[path[0]], path[1:], text)
            return x
        place = rng.choice(places)
        mine = put(self.m.op(op) if len(self.m.op(op)) == len(op) else op, self.translate(place), bad)
        before = S.full(S.space_state(self.hostile), ('props',))
        try:
            ops.apply(self.hostile, mine, self.env)
            res = 'ok'
        except Exception as e:      # noqa: BLE001
            res = f'{type(e).__name__}: {e}'
        st = S.space_state(self.hostile)
        after = S.full(st, ('props',))
        rec.check(not st.problems, lambda: f'after {brief(mine, 700)}: {st.problems}')
        rec.sig(('bad', op['op'], bad, res[:20]))
        if res != 'ok':
            rec.check(before == after, lambda: f'{brief(mine, 900)} failed ({res[:200]}) but changed {S.diff(before, after)}')
            rec.count('bad_refused')
            return
        rec.count('bad_accepted', before != after)
        # accepted text is stored and returned verbatim, and leaves every read working
        plain = put(op, place, 'tok_new')
        self.m.map['tok_new'] = bad
        try:
            ops.apply(self.plain, plain, self.env)
        except Exception as e:      # noqa: BLE001
            rec.fail(f'{brief(mine, 900)} is accepted, but with plain words raises {type(e).__name__}: {e}')
        self.log.append(f'{brief(mine, 400)} -> {res}')
        self.compare(f'after {brief(mine, 700)}')
        self.look(f'after {brief(mine, 700)}')
        self.done = True

    def translate(self, place):
        return tuple(('key', self.m.map.get(p[1], p[1])) if isinstance(p, tuple) else
                     (self.m.map.get(p, p) if isinstance(p, str) and p not in OP_KEYS else p) for p in place)

    def case_pairs(self):
        """Column names that differ only by case cannot both exist."""
        rec, rng = self.rec, self.rng
        cols = [c for c in self.hostile.index_columns if c.lower() != c.upper() and c.isascii()]
        if not cols:
            return
        c = rng.choice(cols)
        v = c.swapcase()
        if v in RESERVED:
            return
        before = S.full(S.space_state(self.hostile))
        probes = [lambda: self.hostile.add_index_columns(v), lambda: self.hostile.add_index_columns('fresh_x', v),
                  lambda: self.hostile.add_index_columns('fresh_x', 'FRESH_X')]
        others = [k for k in self.hostile.index_columns if k != c]
        if others:
            probes.append(lambda: self.hostile.rename_index_columns({rng.choice(others): v}))
            probes.append(lambda: self.hostile.rename_label_column(rng.choice(others), v))
        for f in probes:
            try:
                f()
                res = 'ok'
            except Exception as e:      # noqa: BLE001
                res = repr(e)
            after = S.full(S.space_state(self.hostile))
            rec.check(res != 'ok' and before == after,
                      lambda: f'a column {v!r} beside {c!r}: {res}; {S.diff(before, after)}')
            rec.count('case_pairs')


def run_case(spec, rec):
    rng = rng_for('case', spec['seed'])
    with case_dir() as d:
        c = Case(spec, rec, rng, d)
        try:
            for f in gen.base_ops(c.gen, rng):
                op = f(c.state())
                if op:
                    c.step(op)
            c.look('at the beginning')
            for n in range(spec['steps']):
                c.step(c.gen.op(c.state()))
                if n % 7 == 6:
                    c.look('midway')
            if rng.random() < 0.7:
                for fix in flow.heal(c.state(), c.gen, 0.9):
                    c.step(fix)
                st = c.state()
                if st.links:
                    from vt.checks.c07 import cover
                    c.step(cover(st, c.gen, rng))
            c.look('at the end')
            c.translations()
            c.mapping_file()
            c.files()
            if rng.random() < 0.3:
                c.case_pairs()
            c.done = False
            for _ in range(8):
                if not c.done:
                    c.bad_once()
        except Violation as e:
            tail = '\n'.join(f'      {x}' for x in c.log[-12:])
            words = {k: v for k, v in c.m.map.items() if v != k}
            raise Violation(f'{e.message}\n   case {spec["seed"]}, file {c.file!r}, words {words!r}:\n{tail}', mech=e.mech)
        finally:
            rec.sample(f'case {spec["seed"]}: ' + '; '.join(x[:160] for x in c.log[-3:]))
            c.plain = c.hostile = None
