"""Random operation histories.

``Gen.op(state)`` draws one operation that makes sense for the given contents,
mixing valid, borderline and invalid rows.  Everything is JSON-serialisable.
"""
import random
from . import ops as O

VALUES = [0, 1, 2, 3, 5, 7, 10, 0.5, 0.25, 12.75, 100, 1.5, 3.25]
ATTRS = [('category', ['TOTAL', 'MALE', 'FEMALE']), ('year', ['2019', '2020']),
         ('kind', ['x', 'y', 'z'])]
SELECTORS = ['[category]', '[category="TOTAL"]', '[category="MALE"]', '[category="FEMALE"]',
             '[year="2020"]', '[category="TOTAL"][year="2020"]', '[kind="x"]', '[kind]',
             ':not([kind])', '[year^="20"]', ':is([kind="x"], [kind="y"])',
             '[category="MALE"][year]', ':where([year="2019"])', '[domain="d1"]',
             '[category*="MALE"]']

DEFAULT_MIX = {
    'insert_index': 8, 'update_index': 6, 'delete_index': 5,
    'add_columns': 1.2, 'drop_columns': 1.2, 'rename_columns': 1, 'rename_label': 1,
    'label_order': 1, 'set_domain': 0.8,
    'add_partition': 1.5, 'add_partitions': 1, 'drop_partitions': 1,
    'set_attrs': 0.8, 'attr_order': 0.5,
    'add_group': 1.5, 'edit_group': 1, 'drop_group': 0.7, 'set_default': 0.7,
    'insert_weights': 4, 'update_weights': 3, 'delete_weights': 2,
    'add_link': 1.5, 'edit_link': 1, 'drop_link': 0.6,
    'insert_mappings': 3, 'insert_mappings2': 3, 'update_mappings': 2,
    'delete_mappings': 2, 'reify': 1,
    'insert_quantities': 2, 'insert_quantities2': 3,
    'delete_without_index': 0.5, 'delete_unmatched': 0.5,
}


def mix(base=0.25, **focus):
    out = {k: v * base for k, v in DEFAULT_MIX.items()}
    for k, v in focus.items():
        out[k] = DEFAULT_MIX[k] * v if v is not None else 0
    return out


class Gen(object):
    COLUMNS = ['A', 'B', 'C', 'D', 'E', 'F']
    LABELS = ['a', 'b', 'c', 'd', 'e', 'f', 'g']
    GROUPS = ['g1', 'g2', 'g3', 'pop']
    LINKS = ['k1', 'k2', 'k3']
    DOMAINS = ['', 'd1', 'd2']
    LINK_HINT = 0.3
    HINTS = ['src.toron', 'other']
    VALUES = VALUES
    NEGATIVE = 0.0      # how often a quantity is negative
    LEGACY = 0.2        # how often columns are altered with the helpers for old SQLites
    bulk = 0            # how many records there should be (0: a few)
    plain = False       # only adding rows to a table

    def qvalue(self, bad=0.0):
        v = self.value(bad)
        if self.NEGATIVE and isinstance(v, (int, float)) and self.p(self.NEGATIVE):
            return -v
        return v

    BY = 0              # how often another space is given as text
    BY_REF = ('edit_link', 'drop_link', 'insert_mappings', 'insert_mappings2', 'update_mappings',
              'delete_mappings', 'reify')
    TURNED = 0.1        # how often attribute values are repeated under other names

    def __init__(self, rng, env=None, weights=None, size=8, wild=0.12, other_ids=None,
                 hostile=None):
        self.rng = rng
        self.env = env
        self.mix = dict(weights or DEFAULT_MIX)
        self.size = size
        self.wild = wild           # probability of something odd
        self.other_ids = dict(other_ids or {})     # key -> list of ids
        side = random.Random(repr(rng.getstate()[1][:8]))      # (does not advance *rng*)
        if type(self).LABELS is Gen.LABELS and side.random() < 0.2:
            # labels that run together, or differ in little
            self.LABELS = side.choice([['a', 'aa', 'aaa', 'ab', 'b', 'ba', 'baa'],
                                       ['a', 'A', 'aA', 'Aa', 'AA', 'aa', 'b'],
                                       ['1', '1.0', '01', '11', '0', '10', '1e0'],
                                       ['a', 'a ', ' a', 'a  ', 'b', 'b ', 'ab']])
        self.aside = side
        if side.random() < 0.35:
            # file names that differ in little
            self.HINTS = side.choice([['s_1.toron', 's-1.toron', 's_1'], ['src.toron', 'SRC.toron', 'Src'],
                                      ['s%.toron', 'src.toron', 's%'], ['src.toron', 'src.toron.toron', 'src'],
                                      ['*.toron', 'src.toron', 's?c']])

    # ------------------------------------------------------------- choices
    def p(self, prob):
        return self.rng.random() < prob

    def odd(self):
        return self.rng.random() < self.wild

    def pick(self, seq):
        return self.rng.choice(list(seq))

    def some(self, seq, lo=0, hi=None):
        seq = list(seq)
        hi = len(seq) if hi is None else min(hi, len(seq))
        lo = min(lo, hi)
        return self.rng.sample(seq, self.rng.randint(lo, hi))

    def value(self, bad=0.0):
        if self.rng.random() < bad:
            return self.pick([-1, 'x', '', None, float('nan'), float('inf'), '-2', 'nan', 'inf'])
        v = self.pick(self.VALUES)
        if self.p(0.15):
            return str(v)
        if self.p(0.2):
            return float(v)
        return v

    def labels(self, st):
        if self.odd():
            return [self.pick(self.LABELS + ['-', '-', '']) for _ in st.columns]
        return [self.pick(self.LABELS[:max(2, self.size // 2)]) for _ in st.columns]

    def record(self, st):
        """(id, labels) of an existing record, defined most of the time."""
        ids = [i for i in st.index if i != 0]
        if not ids or self.rng.random() < 0.03:
            return 0, list(st.index[0])
        i = self.pick(ids)
        return i, list(st.index[i])

    def idval(self, i):
        return str(i) if self.p(0.15) else i

    def table(self, op, columns, rows, shuffle=True):
        cols = list(columns)
        rows = [list(r) for r in rows]
        if shuffle and self.p(0.4):
            order = list(range(len(cols)))
            self.rng.shuffle(order)
            cols = [cols[k] for k in order]
            rows = [[r[k] for k in order] for r in rows]
        op['columns'] = cols
        op['rows'] = rows
        op['form'] = self.pick(O.usable_forms(cols, rows))
        return op

    def maybe_break_columns(self, cols, rows):
        """Occasionally drop one required column."""
        if self.rng.random() < self.wild * 0.25 and cols:
            k = self.rng.randrange(len(cols))
            cols = cols[:k] + cols[k + 1:]
            rows = [r[:k] + r[k + 1:] for r in rows]
        return cols, rows

    def extra(self, cols, rows):
        if self.p(0.15):
            cols = cols + ['zzz']
            rows = [r + [self.pick(['', 'q', 'w'])] if self.p(.5) else r + ['q'] for r in rows]
        return cols, rows

    # ----------------------------------------------------------- drawing
    def op(self, st):
        for _ in range(30):
            names = list(self.mix)
            name = self.rng.choices(names, [self.mix[n] for n in names])[0]
            op = getattr(self, 'g_' + name)(st)
            if op is not None:
                op['op'] = name
                if self.BY and name in self.BY_REF and self.aside.random() < self.BY:
                    # the other space named by its id or the beginning of it
                    uid = self.env.others[op['other']].unique_id if op.get('other') in self.env.others else None
                    if any(u == uid for u, _ in st.links):
                        op['by'] = self.aside.choice([7, 8, 12, 23, 36])
                if self.bulk and op.get('rows') and self.p(0.35):
                    self.multiply(op, name, st, self.rng.choice([40, 150, 400]))
                return op
        return {'op': 'set_domain', 'domain': self.pick(self.DOMAINS)}

    def multiply(self, op, name, st, times):
        """Many more rows of the same kind for different records."""
        cols = op['columns']
        keys = [k for k, c in enumerate(cols) if c in ('index_id', 'other_index_id') or c in st.columns]
        if not keys:
            return
        rows = list(op['rows'])
        seen = {tuple(str(r[k]) for k in keys if k < len(r)) for r in rows}
        wild, self.wild, self.plain = self.wild, 0, True
        for _ in range(times):
            more = getattr(self, 'g_' + name)(st)
            if not more or sorted(more.get('columns') or ()) != sorted(cols) \
                    or any(more.get(k) != op.get(k) for k in ('other', 'name')):
                continue
            at = [more['columns'].index(c) for c in cols]
            for r in more['rows']:
                if len(r) != len(cols):
                    continue
                r = [r[k] for k in at]
                key = tuple(str(r[k]) for k in keys)
                if key not in seen:
                    seen.add(key)
                    rows.append(r)
        self.wild, self.plain = wild, False
        if name.startswith('insert') and self.p(0.5):
            rows.append(rows.pop(0))        # the odd ones need not come first
        op['rows'] = rows
        op['form'] = self.pick(O.usable_forms(cols, rows))

    # --------------------------------------------------------- structure ops
    def g_add_columns(self, st):
        if len(st.columns) >= 5 and not self.odd():
            return None
        free = [c for c in self.COLUMNS if c not in st.columns]
        if self.odd():
            free = self.COLUMNS + ['value', 'index_id', 'category', 'a' if 'A' in st.columns else 'Z',
                                   'domain']
        if not free:
            return None
        return {'cols': self.some(free, 1, 2)}

    def g_drop_columns(self, st):
        if len(st.columns) < 2 and not self.odd():
            return None
        pool = list(st.columns) + (['nocol', 'value'] if self.odd() else [])
        op = {'cols': self.some(pool, 1, 2 if self.p(.3) else 1)} if pool else None
        if op and self.aside.random() < self.LEGACY:
            op['legacy'] = True
        return op

    def g_rename_columns(self, st):
        if not st.columns:
            return None
        olds = self.some(st.columns, 1, 2)
        if self.odd():
            olds = olds + ['nocol'] if self.p(.4) else olds
        free = [c for c in self.COLUMNS + ['G', 'H'] if c not in st.columns]
        pool = free if not self.odd() else self.COLUMNS + ['value', 'category', 'G']
        if not pool:
            return None
        op = {'mapping': {o: self.pick(pool) for o in olds}}
        if self.aside.random() < self.LEGACY and 'nocol' not in olds:
            op['legacy'] = True
        return op

    def g_rename_label(self, st):
        op = self.g_rename_columns(st)
        if not op:
            return None
        old, new = next(iter(op['mapping'].items()))
        return {'old': old, 'new': new}

    def g_label_order(self, st):
        pool = list(st.columns) + (['nocol'] if self.odd() else [])
        if not pool:
            return None
        return {'label': self.pick(pool), 'offset': self.rng.randint(-3, 3)}

    def g_set_domain(self, st):
        return {'domain': self.pick(self.DOMAINS)}

    def _partition(self, st):
        pool = list(st.columns) + (['nocol'] if self.odd() and self.p(.4) else [])
        return sorted(self.some(pool, 1, max(1, len(pool))))

    def g_add_partition(self, st):
        if not st.columns:
            return None
        return {'partition': self._partition(st)}

    def g_add_partitions(self, st):
        if not st.columns:
            return None
        return {'partitions': [self._partition(st) for _ in range(self.rng.randint(1, 3))]}

    def g_drop_partitions(self, st):
        if not st.columns:
            return None
        pool = [sorted(p) for p in st.partitions]
        pool.sort()
        if not self.odd():
            pool = [p for p in pool if frozenset(p) != frozenset(st.columns)]
        if not pool:
            return None
        return {'partitions': self.some(pool, 1, 2)}

    def g_set_attrs(self, st):
        names = [a for a, _ in ATTRS]
        pool = names + ([self.pick(st.columns)] if st.columns and self.odd() else [])
        if self.odd():
            pool = pool + ['value']
        return {'attrs': self.some(pool, 1)}

    def g_attr_order(self, st):
        pool = list(st.registered) + (['noattr'] if self.odd() else [])
        if not pool:
            return None
        return {'attr': self.pick(pool), 'offset': self.rng.randint(-3, 3)}

    # -------------------------------------------------------------- index ops
    def g_insert_index(self, st):
        if not st.columns and not self.odd():
            return None
        n = self.rng.choice([0, 1, 1, 2, 3, 5])
        use_id = self.p(0.25)
        use_labels = not use_id or self.p(0.8)
        groups = self.some(st.groups, 0, 2) if self.p(0.45) else []
        if len(st.index) > 2 and st.columns and self.p(0.07):
            return self.chain_insert(st)
        rows = []
        for _ in range(n):
            iid, labels = '', self.labels(st)
            if (use_id and self.p(0.75)) or (not use_id and self.p(0.15)):
                iid, own = self.record(st)
                if self.p(0.7):
                    labels = own
                iid = self.idval(iid)
                if self.rng.random() < self.wild * 0.3:
                    iid = self.pick([999, 'x', -1, '0'])
            row = ([iid] if use_id else []) + (labels if use_labels else [])
            row += [self.value(bad=self.wild * 0.4) if not self.p(0.1) else '' for _ in groups]
            rows.append(row)
        cols = (['index_id'] if use_id else []) + (list(st.columns) if use_labels else []) + list(groups)
        if not cols:
            return None
        cols, rows = self.maybe_break_columns(cols, rows)
        cols, rows = self.extra(cols, rows)
        if self.p(0.1) and 'domain' not in cols:
            cols = cols + ['domain']
            rows = [r + [st.domain] for r in rows]
        op = {'on_label': self.pick(['abort', 'ignore', 'replace']),
              'on_weight': self.pick(['abort', 'ignore', 'replace'])}
        if groups and self.p(0.4):
            op['weights'] = groups if self.p(0.7) else groups[0]
            if self.odd():
                op['weights'] = list(groups) + ['nogroup']
        return self.table(op, cols, rows)

    def chain(self, st):
        """Rows that build on each other: records hand labels to one another."""
        now = {i: list(l) for i, l in st.index.items() if i}
        ids = self.rng.sample(sorted(now), min(len(now), self.rng.choice([2, 2, 3])))
        held = [list(now[i]) for i in ids]               # labels held at some time
        rows = []
        if self.p(0.6):                                  # one label set passed on
            a, b = ids[:2]
            own, new = list(now[a]), self.labels(st)
            if new not in now.values():
                rows = [(0, own), (a, new), (b, own), (0, list(own)), (0, new)]
                rows = [r for r in rows if r[0] or self.p(0.8)]
                now[a], now[b] = new, own
                held.append(new)
        for _ in range(self.rng.choice([0, 2, 3, 5]) if rows else self.rng.choice([3, 4, 5, 6, 8])):
            r = self.rng.random()
            if r < 0.4:
                rows.append((0, list(self.rng.choice(held))))
                continue
            i = self.rng.choice(ids)
            free = [h for h in held if h not in now.values()]
            labels = self.rng.choice(free) if free and r < 0.75 else self.labels(st)
            if labels not in now.values():
                now[i] = list(labels)
                if labels not in held:
                    held.append(list(labels))
            rows.append((i, list(labels)))
        return rows

    def chain_insert(self, st):
        groups = self.some(st.groups, 0, 2)
        rows = [[i or ''] + labels + [self.value() if not self.p(0.2) else '' for _ in groups]
                for i, labels in self.chain(st)]
        return self.table({'on_label': 'replace', 'on_weight': self.pick(['replace', 'replace', 'ignore'])},
                          ['index_id'] + list(st.columns) + list(groups), rows)

    def g_update_index(self, st):
        if not st.columns:
            return None
        n = self.rng.choice([0, 1, 1, 2, 3])
        rows = []
        merge = self.p(0.55)
        if len(st.index) > 2 and self.p(0.07):
            rows = [[i] + labels for i, labels in self.chain(st) if i]
            return self.table({'merge': merge}, ['index_id'] + list(st.columns), rows)
        for _ in range(n):
            i, own = self.record(st)
            labels = list(own)
            r = self.rng.random()
            if r < 0.35:
                k = self.rng.randrange(len(labels))
                labels[k] = self.pick(self.LABELS)
            elif r < 0.65:
                labels = self.record(st)[1] if merge or self.odd() else self.labels(st)
            elif r < 0.85:
                labels = self.labels(st)
            if self.rng.random() < self.wild * 0.4:
                i = self.pick([999, '', 'x'])
            rows.append([i if merge else self.idval(i)] + labels)
        cols = ['index_id'] + list(st.columns)
        cols, rows = self.maybe_break_columns(cols, rows)
        cols, rows = self.extra(cols, rows)
        return self.table({'merge': merge}, cols, rows)

    def criteria(self, st):
        if not st.columns:
            return {'x': 'y'} if self.odd() else None
        ks = self.some(st.columns, 1, 2)
        _, labels = self.record(st)
        rec = dict(zip(st.columns, labels))
        crit = {k: rec[k] if self.p(0.85) else self.pick(self.LABELS + ['-']) for k in ks}
        if self.rng.random() < self.wild * 0.3:
            crit['nocol'] = self.pick(['nocol', 'a'])
        return crit

    def g_delete_index(self, st):
        if self.p(0.35):
            crit = self.criteria(st)
            return {'criteria': crit} if crit else None
        if not st.columns:
            return None
        rows = []
        for _ in range(self.rng.choice([0, 1, 1, 2, 3])):
            i, own = self.record(st)
            if i == 0 and not self.odd():
                continue
            if self.odd():
                own = self.labels(st)
            rows.append([self.idval(i) if not self.odd() else self.pick([i, 999, ''])] + own)
        cols = ['index_id'] + list(st.columns)
        cols, rows = self.maybe_break_columns(cols, rows)
        cols, rows = self.extra(cols, rows)
        return self.table({}, cols, rows)

    # ------------------------------------------------------------- weight ops
    def _selectors(self):
        if self.p(0.5):
            return None
        return self.some(SELECTORS, 1, 2)

    def g_add_group(self, st):
        free = [g for g in self.GROUPS if g not in st.groups]
        pool = free if free and not self.odd() else self.GROUPS
        op = {'name': self.pick(pool), 'selectors': self._selectors()}
        if self.p(0.3):
            op['description'] = self.pick(['some text', ''])
        if self.p(0.35):
            op['make_default'] = self.p(0.5)
        return op

    def _group(self, st):
        if st.groups and not self.odd():
            return self.pick(sorted(st.groups))
        return self.pick(self.GROUPS)

    def g_edit_group(self, st):
        ch = {}
        if self.p(0.5):
            ch['name'] = self.pick(self.GROUPS + ['renamed'])
        if self.p(0.5):
            ch['description'] = self.pick(['new text', None])
        if self.p(0.5):
            ch['selectors'] = self._selectors()
        return {'name': self._group(st), 'changes': ch} if ch else None

    def g_drop_group(self, st):
        return {'name': self._group(st)}

    def g_set_default(self, st):
        if not st.groups:
            return None
        op = {'name': self.pick(sorted(st.groups))}
        if self.rng.random() < 0.08:
            op['gone'] = self.rng.choice([1000, 77777])
        return op

    def _weight_rows(self, st, with_id, n=None, missing_first=False, bad=None):
        rows = []
        ids = [i for i in st.index if i != 0]
        n = self.rng.choice([1, 2, 3, 6]) if n is None else n
        chosen = ids if self.p(0.3) else self.some(ids, 0, n)
        for i in chosen:
            labels = list(st.index[i])
            r = self.rng.random()
            raw = self.idval(i)
            if r < self.wild * 0.4:
                labels = self.labels(st)
            elif r < self.wild * 0.6:
                raw = self.pick([999, 0, ''])
            elif r < self.wild * 0.8:
                raw, labels = 0, list(st.index[0])
            v = self.value(bad=self.wild * 0.25 if bad is None else bad)
            rows.append(([raw] if with_id else []) + labels + [v])
        return rows

    def g_insert_weights(self, st):
        if not st.columns:
            return None
        name = self._group(st)
        with_id = self.p(0.4)
        rows = self._weight_rows(st, with_id, bad=self.wild * (0.6 if self.p(.3) else 0.1))
        op = {'name': name, 'on_conflict': self.pick(['abort', 'ignore', 'replace', 'sum'])}
        vcol = name
        if self.p(0.2):
            vcol = op['value_column'] = 'val'
        cols = (['index_id'] if with_id else []) + list(st.columns) + [vcol]
        # prefer records which have no weight yet when the policy is 'abort'
        if op['on_conflict'] == 'abort' and self.p(0.7):
            have = {lab for i, lab in st.index.items() if (name, i) in st.weights}
            k = 1 if with_id else 0
            rows = [r for r in rows if tuple(r[k:k + len(st.columns)]) not in have]
        cols, rows = self.maybe_break_columns(cols, rows)
        cols, rows = self.extra(cols, rows)
        return self.table(op, cols, rows)

    def g_update_weights(self, st):
        if not st.columns:
            return None
        name = self._group(st)
        rows = self._weight_rows(st, True, bad=self.wild * 0.15)
        op = {'name': name}
        vcol = name
        if self.p(0.2):
            vcol = op['value_column'] = 'val'
        cols = ['index_id'] + list(st.columns) + [vcol]
        cols, rows = self.maybe_break_columns(cols, rows)
        cols, rows = self.extra(cols, rows)
        return self.table(op, cols, rows)

    def g_delete_weights(self, st):
        name = self._group(st)
        if self.p(0.4):
            crit = self.criteria(st)
            return {'name': name, 'criteria': crit} if crit else None
        if not st.columns:
            return None
        rows = [r[:-1] for r in self._weight_rows(st, True, n=self.rng.choice([1, 1, 2]))]
        cols = ['index_id'] + list(st.columns)
        cols, rows = self.maybe_break_columns(cols, rows)
        return self.table({'name': name}, cols, rows)

    # --------------------------------------------------------------- link ops
    def _other(self):
        return self.pick(sorted(self.other_ids))

    def g_add_link(self, st):
        if not self.other_ids:
            return None
        key = self._other()
        op = {'other': key, 'name': self.pick(self.LINKS), 'selectors': self._selectors()}
        if self.p(0.4):
            op['is_default'] = self.p(0.6)
        if self.p(self.LINK_HINT):
            op['other_filename_hint'] = self.pick(self.HINTS)
        if self.p(0.2):
            op['description'] = 'link text'
        if self.p(0.2):
            op['user_properties'] = {'k': [1, 'two', None]}
        return op

    def _link(self, st):
        if st.links and not self.odd():
            uid, name = self.pick(sorted(st.links))
            for k in self.other_ids:
                if self.env.uid(k) == uid:
                    return k, name
        if not self.other_ids:
            return None, None
        return self._other(), self.pick(self.LINKS)

    def g_edit_link(self, st):
        k, name = self._link(st)
        if k is None:
            return None
        ch = {}
        if self.p(0.4):
            ch['name'] = self.pick(self.LINKS + ['k9'])
        if self.p(0.3):
            ch['description'] = self.pick(['d', None])
        if self.p(0.4):
            ch['selectors'] = self._selectors()
        if self.p(0.4):
            ch['is_default'] = self.p(0.7)
        return {'other': k, 'name': name, 'changes': ch} if ch else None

    def g_drop_link(self, st):
        k, name = self._link(st)
        return {'other': k, 'name': name} if k else None

    def _level_sym(self, st, exact=0.6):
        if self.p(exact):
            return list(st.columns)
        if self.odd():
            return '!'
        return sorted(self.pick(sorted(sorted(x) for x in st.levels())))

    def g_insert_mappings(self, st, update=False):
        k, name = self._link(st)
        if k is None or not st.columns:
            return None
        rows = []
        key = (self.env.uid(k), name)
        for _ in range(self.rng.choice([1, 2, 3, 6])):
            i, labels = self.record(st)
            other = self.pick(self.other_ids[k])
            if not update and not self.odd():
                # avoid duplicates most of the time
                for _ in range(6):
                    if any(m[:4] == key + (other, i) for m in st.mappings) or \
                            any(r[0] == other and r[2] == i for r in rows) or (other == 0 and i == 0):
                        i, labels = self.record(st)
                        other = self.pick(self.other_ids[k])
                    else:
                        break
                else:
                    continue
            if self.rng.random() < self.wild * 0.3:
                labels = self.labels(st)
            v = self.pick(self.VALUES)
            if self.rng.random() < self.wild * 0.15:
                v = self.pick([-1, float('inf'), 'x', None])
            rows.append([other, v, i] + labels + [self._level_sym(st)])
        cols = ['other_index_id', name, 'index_id'] + list(st.columns) + ['mapping_level']
        op = {'other': k, 'name': name}
        return self.table(op, cols, rows, shuffle=False)

    def g_update_mappings(self, st):
        k, name = self._link(st)
        if k is None or not st.columns:
            return None
        key = (self.env.uid(k), name)
        have = sorted(m for m in st.mappings if m[:2] == key)
        rows = []
        for m in self.some(have, 0, 3):
            rows.append([m[2], self.pick(VALUES), m[3]] + list(st.index[m[3]])
                        + [self._level_sym(st)])
        if self.p(0.4):
            i, labels = self.record(st)
            rows.append([self.pick(self.other_ids[k]), self.pick(VALUES), i] + labels
                        + [self._level_sym(st)])
        cols = ['other_index_id', name, 'index_id'] + list(st.columns) + ['mapping_level']
        return self.table({'other': k, 'name': name}, cols, rows, shuffle=False)

    def g_insert_mappings2(self, st):
        op = self.g_insert_mappings(st)
        if op is None:
            return None
        rows = []
        for r in op['rows']:
            rows.append([r[0], r[2], r[-1], r[1]])
        # usually map every record of the other space so that the link is current
        if not self.plain and self.p(0.35):
            have = {(r[0]) for r in rows}
            key = (self.env.uid(op['other']), op['name'])
            have |= {m[2] for m in st.mappings if m[:2] == key}
            ids = [i for i in st.index if i != 0] or [0]
            for o in self.other_ids[op['other']]:
                if o not in have:
                    rows.append([o, self.pick(ids), list(st.columns), self.pick(VALUES)])
            if self.p(0.5):
                hit = {r[1] for r in rows} | {m[3] for m in st.mappings if m[:2] == key}
                srcs = [o for o in self.other_ids[op['other']] if o]
                for i in ids:
                    if i not in hit and srcs:
                        rows.append([self.pick(srcs), i, list(st.columns), self.pick(VALUES)])
        return self.table({'other': op['other'], 'name': op['name']},
                          ['other_index_id', 'index_id', 'mapping_level', op['name']], rows,
                          shuffle=False)

    def g_delete_mappings(self, st):
        k, name = self._link(st)
        if k is None:
            return None
        if self.p(0.45):
            crit = self.criteria(st)
            return {'other': k, 'name': name, 'criteria': crit} if crit else None
        key = (self.env.uid(k), name)
        have = sorted(m for m in st.mappings if m[:2] == key)
        rows = []
        for m in self.some(have, 0, 3):
            v = st.mappings[m][0]
            if self.odd():
                v = v + 1
            labels = list(st.index[m[3]])
            if self.odd():
                labels = self.labels(st)
            rows.append([m[2], v, m[3]] + labels)
        if self.odd():
            rows.append([999, 1.0] + [self.record(st)[0]] + self.record(st)[1])
        cols = ['other_index_id', name, 'index_id'] + list(st.columns)
        return self.table({'other': k, 'name': name}, cols, rows, shuffle=False)

    def g_reify(self, st):
        k, name = self._link(st)
        if k is None:
            return None
        op = {'other': k, 'name': name}
        if self.p(0.5):
            crit = self.criteria(st)
            if crit:
                op['criteria'] = crit
        return op

    # ----------------------------------------------------------- quantity ops
    def _location(self, st):
        """Labels of a location, usually at a valid level matching a record."""
        levels = sorted(sorted(x) for x in st.levels())
        level = set(self.pick(levels))
        if self.p(0.35):
            level = set(st.columns)
        if self.odd():
            level = set(self.some(st.columns, 0))
        _, own = self.record(st)
        if self.odd():
            own = self.labels(st)
        return [x if c in level else '' for c, x in zip(st.columns, own)]

    def _attrs(self, names):
        out = []
        for n in names:
            vals = dict(ATTRS).get(n, ['v1', 'v2'])
            if self.plain and self.bulk and self.p(0.5):
                vals = [f'n{self.rng.randrange(self.bulk)}']     # many different ones
            out.append(self.pick(vals) if not self.p(0.25) else '')
        return out

    def _quantity_rows(self, st, names, bad):
        rows = []
        for _ in range(self.rng.choice([1, 2, 4, 6])):
            rows.append(self._location(st) + self._attrs(names) + [self.qvalue(bad=bad)])
            if len(names) > 1 and self.aside.random() < self.TURNED:
                # the same attribute values once more, but of other attributes
                n, k = len(st.columns), self.aside.randrange(1, len(names))
                loc, a = rows[-1][:n], rows[-1][n:-1]
                rows.append(loc + a[k:] + a[:k] + [self.qvalue()])
        return rows

    def _dedupe(self, st, names, rows, against=True):
        """Drop rows repeating a location and attribute set."""
        seen = set(st.quantities) if against else set()
        out = []
        n = len(st.columns)
        for r in rows:
            loc = tuple(r[:n])
            a = tuple(sorted((k, v) for k, v in zip(names, r[n:n + len(names)]) if v))
            if (loc, a) in seen and not self.rng.random() < 0.05:
                continue
            seen.add((loc, a))
            out.append(r)
        return out

    def g_insert_quantities(self, st):
        if not st.columns:
            return None
        names = self.some([a for a, _ in ATTRS if a not in st.columns], 1)
        if not names:
            return None
        rows = self._quantity_rows(st, names, bad=self.wild * 0.1)
        rows = self._dedupe(st, names, rows)
        cols = list(st.columns) + names + ['val']
        op = {'value': 'val', 'attributes': names if len(names) > 1 or self.p(.5) else names[0]}
        if st.domain or self.p(0.1):
            cols = cols + ['domain']
            rows = [r + [st.domain if not self.odd() else 'zz'] for r in rows]
        cols, rows = self.maybe_break_columns(cols, rows)
        return self.table(op, cols, rows)

    def g_insert_quantities2(self, st):
        if not st.columns:
            return None
        names = list(st.registered)
        if names and self.p(0.2):
            names = self.some(names, 1)
        if not names and not self.odd():
            return None
        rows = self._quantity_rows(st, names, bad=self.wild * 0.1)
        policy = self.pick(['abort', 'ignore', 'replace', 'sum'])
        if policy == 'abort' and self.p(0.85):
            rows = self._dedupe(st, names, rows)
        elif self.p(0.4) and st.quantities:
            # repeat some stored ones
            for (loc, a), v in sorted(st.quantities.items(), key=repr)[:2]:
                d = dict(a)
                if set(d) <= set(names) and len(loc) == len(st.columns):
                    rows.append(list(loc) + [d.get(n, '') for n in names] + [self.qvalue()])
        allow_label, allow_partition = self.p(0.5), self.p(0.5)
        if not self.plain and not self.odd():
            from . import model
            n = len(st.columns)
            keep = []
            for r in rows:
                idx, lvl = model.placeable(st, tuple(r[:n]))
                if (idx or allow_label) and (lvl or allow_partition):
                    keep.append(r)
            rows = keep
        if rows and len(st.columns) > 1 and self.p(0.15):
            # the labels of a good row once more, but in other columns
            n = len(st.columns)
            r = list(self.pick(rows))
            k = self.rng.randrange(1, n)
            rows.append(r[k:n] + r[:k] + r[n:])
        cols = list(st.columns) + names + ['val']
        if self.p(0.15):
            cols = cols + ['domain']
            rows = [r + [st.domain if not self.odd() else 'zz'] for r in rows]
        op = {'value': 'val', 'on_existing': policy, 'allow_label': allow_label,
              'allow_partition': allow_partition}
        cols, rows = self.maybe_break_columns(cols, rows)
        return self.table(op, cols, rows)

    def g_delete_without_index(self, st):
        return {}

    def g_delete_unmatched(self, st):
        return {}


# ------------------------------------------------------------ whole spaces

def base_ops(gen, rng, rich=True):
    """Operations building a typical space (drawn lazily from its state)."""
    ncols = rng.choice([1, 2, 2, 3, 3, 4])
    yield lambda st: {'op': 'add_columns', 'cols': gen.COLUMNS[:ncols]}
    if rng.random() < 0.6:
        yield lambda st: dict(gen.g_add_partition(st), op='add_partition')
    if rng.random() < 0.3:
        yield lambda st: dict(gen.g_add_partition(st), op='add_partition')
    if rng.random() < 0.5:
        yield lambda st: {'op': 'set_domain', 'domain': rng.choice(gen.DOMAINS)}

    def records(st):
        if gen.bulk:
            width = {1: gen.bulk, 2: 50, 3: 14}.get(len(st.columns), 7)
            rows = {tuple(f'{c[:1].lower()}{rng.randrange(width)}' for c in st.columns)
                    for _ in range(gen.bulk * (2 if len(st.columns) == 1 else 1))}
            rows = sorted(rows)
            rng.shuffle(rows)
            return gen.table({'op': 'insert_index'}, list(st.columns), [list(r) for r in rows[:gen.bulk]])
        n = rng.randint(1, max(2, gen.size))
        rows, seen = [], set()
        for _ in range(n):
            lab = tuple(rng.choice(gen.LABELS[:max(2, gen.size // 2)]) for _ in st.columns)
            if lab not in seen:
                seen.add(lab)
                rows.append(list(lab))
        return gen.table({'op': 'insert_index'}, list(st.columns), rows)
    yield records
    if not rich:
        return
    for _ in range(rng.randint(1, 3)):
        def group(st):
            op = gen.g_add_group(st)
            op['op'] = 'add_group'
            return op
        yield group

        def weights(st):
            names = sorted(st.groups)
            todo = [g for g in names if not any(k[0] == g for k in st.weights)] or names
            name = rng.choice(todo)
            rows = [[i] + list(st.index[i]) + [rng.choice(gen.VALUES)] for i in st.index if i
                    and (name, i) not in st.weights]
            return gen.table({'op': 'insert_weights', 'name': name},
                             ['index_id'] + list(st.columns) + [name], rows)
        yield weights
    yield lambda st: {'op': 'set_attrs', 'attrs': [a for a, _ in ATTRS]}
    for _ in range(rng.randint(0, 2)):
        def quants(st):
            op = gen.g_insert_quantities2(st)
            if op is None:
                return None
            op['op'] = 'insert_quantities2'
            if gen.bulk:
                gen.multiply(op, 'insert_quantities2', st, gen.bulk // 2)
            return op
        yield quants
    if gen.other_ids:
        for _ in range(rng.randint(1, 2)):
            def link(st):
                op = gen.g_add_link(st)
                op['op'] = 'add_link'
                return op
            yield link

            def maps(st):
                if not st.links:
                    return None
                op = gen.g_insert_mappings2(st)
                if op is None:
                    return None
                op['op'] = 'insert_mappings2'
                if gen.bulk:
                    gen.multiply(op, 'insert_mappings2', st, gen.bulk // 4)
                return op
            yield maps


def make_others(rng, n=2, size=6, bulk=0):
    """Source spaces for links: key -> DataSpace (in memory)."""
    import toron
    out = {}
    for k in range(n):
        s = toron.DataSpace()
        s.add_index_columns('P', 'Q')
        rows = []
        for _ in range(rng.randint(1, size)):
            lab = (rng.choice('abc'), rng.choice('wxyz'))
            if lab not in rows:
                rows.append(lab)
        for b in range(bulk // 4):
            rows.append((f'p{b % 37}', f'q{b}'))
        s.insert_index([('P', 'Q')] + rows)
        if rng.random() < 0.3 and len(rows) > 1:
            s.delete_index([('index_id', 'P', 'Q'), (1,) + rows[0]])
        out[f'S{k + 1}'] = s
    return out
