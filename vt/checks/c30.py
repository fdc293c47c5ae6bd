"""C30: legacy nodes keep records, weights, levels and quantities true through edits."""
import csv
import io
import json
import math
import os
import random
import sqlite3
import tempfile
import warnings

import toron

from vt import selref

PROPERTY = 'C30'
LEVEL = 'exploration'
RULE = ('Random histories of edits of real legacy nodes (in memory, cached on drive, reloaded from '
        'files; refused, malformed and failing inputs included), each step compared with a reference '
        'model of the edit applied to the contents observed before it; a situation is one '
        '(edit, options, outcome, shape of the contents) combination.')
ASSUMPTIONS = ['contents are read by a separate SQLite reader of saved copies',
               'column names differ in more than case and white space and partitions name existing columns']
MIN = {'histories': 100, 'steps_ok': 3000, 'steps_refused': 400, 'op_remove': 150, 'coarsened': 30,
       'weights_merged': 10, 'quantities_merged': 10, 'reloads': 50, 'disaggregated': 50,
       'failing_inputs': 30, 'op_delete': 100, 'quantities_read': 300, 'joined_labels': 50, 'disaggregated_some': 30}

NAMES = ['A', 'B', 'C', 'D', 'E', 'x y', 'order', 'a-b', 'naïve', "it's"]
LABELS = ['x', 'y', 'z', 'w', 'ä', 'X', '10', '1', 'a b', "o'k"]
GROUPS = ['pop', 'area', 'g 3', 'order by']
ATTRS = ['kind', 'sex']
SELECTORS = ['[kind="m"]', '[kind]', '[sex="f"]', '[kind="n"][sex="f"]', '[sex]']


class Refuse(Exception):
    """The model refuses the edit."""


class Maybe(Exception):
    """Either refused without a trace, or done as described by .state."""


class Boom(Exception):
    pass


def closure(sets):
    out = {frozenset()}
    for s in sets:
        out |= {r | s for r in out}
    return out


def minimal(sets):
    """The sets that are not unions of the others (empty sets left out)."""
    sets = {frozenset(s) for s in sets if s}
    return {s for s in sets if frozenset().union(*(t for t in sets if t < s)) != s}


class State(object):
    def copy(self):
        new = State()
        new.columns = list(self.columns)
        new.index = dict(self.index)
        new.seq = self.seq
        new.groups = {k: (s, d, c, dict(w)) for k, (s, d, c, w) in self.groups.items()}
        new.ids = dict(self.ids)
        new.default = self.default
        new.cats = set(self.cats)
        new.quants = {k: list(v) for k, v in self.quants.items()}
        return new

    def levels(self):
        n = len([i for i in self.index if i])
        out = {}
        for level in closure(self.cats):
            if not n:
                out[level] = None
                continue
            sizes = {}
            for i, labels in self.index.items():
                if i:
                    key = tuple(l for c, l in zip(self.columns, labels) if c in level)
                    sizes[key] = sizes.get(key, 0) + 1
            out[level] = math.log2(n) - sum(s / n * math.log2(s) for s in sizes.values())
        return out


def read(path):
    con = sqlite3.connect(path)
    try:
        cur = con.cursor()
        st = State()
        st.bad = [r for r in cur.execute('PRAGMA foreign_key_check')]
        st.bad += [r for r in cur.execute('PRAGMA integrity_check') if r != ('ok',)]
        names = lambda t: [r[1] for r in cur.execute(f'PRAGMA table_info({t})')]
        st.columns = names('node_index')[1:]
        if names('location')[1:] != st.columns or names('structure')[2:] != st.columns:
            st.bad.append('the tables disagree on the columns')
        st.index = {r[0]: tuple(r[1:]) for r in cur.execute('SELECT * FROM node_index')}
        st.seq = max([r[0] for r in cur.execute("SELECT seq FROM sqlite_sequence WHERE name='node_index'")] + [0])
        props = {k: None if v is None else json.loads(v) for k, v in cur.execute('SELECT key, value FROM property')}
        st.default = props.get('default_weighting')
        st.hash = props.get('index_hash')
        st.unique_id = props.get('unique_id')
        st.cats = {frozenset(x) for x in props.get('partition_definitions') or []}
        st.groups, st.ids = {}, {}
        for wid, name, desc, sel, done in list(cur.execute(
                'SELECT weighting_id, name, description, selectors, is_complete FROM weighting')):
            st.ids[name] = wid
            st.groups[name] = (None if sel is None else tuple(json.loads(sel)), desc, bool(done), dict(
                cur.execute('SELECT index_id, weight_value FROM weight WHERE weighting_id=?', (wid,)).fetchall()))
        n = cur.execute('SELECT COUNT(*) FROM weight').fetchone()[0]
        if n != sum(len(g[3]) for g in st.groups.values()):
            st.bad.append('weights without a weighting')
        st.structure = {}
        for r in cur.execute('SELECT * FROM structure'):
            level = frozenset(c for c, b in zip(st.columns, r[2:]) if b)
            if level in st.structure:
                st.bad.append(f'level {sorted(level)} twice')
            st.structure[level] = r[1]
        st.quants = {}
        total = 0
        for r in cur.execute('SELECT q.quantity_value, a.attribute_value, l.* FROM quantity q '
                             'JOIN attribute a USING (attribute_id) JOIN location l USING (_location_id)'):
            key = (tuple(r[3:]), tuple(sorted(json.loads(r[1]).items())))
            st.quants.setdefault(key, []).append(r[0])
            total += 1
        if total != cur.execute('SELECT COUNT(*) FROM quantity').fetchone()[0]:
            st.bad.append('quantities without a location or attributes')
        for v in st.quants.values():
            v.sort(key=repr)
        return st
    finally:
        con.close()


def close(a, b):
    if a is None or b is None:
        return a is b
    return abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b))


def differences(exp, got, totals=False):
    """What the observed contents have that the expected ones have not."""
    out = []

    def put(what, a, b):
        out.append(f'{what}: expected {a!r}, found {b!r}')
    if exp.columns != got.columns:
        put('columns', exp.columns, got.columns)
    if exp.index != got.index:
        put('records', sorted(exp.index.items()), sorted(got.index.items()))
    if exp.default != got.default:
        put('default weighting', exp.default, got.default)
    if set(exp.groups) != set(got.groups):
        put('weightings', sorted(exp.groups), sorted(got.groups))
    for name in set(exp.groups) & set(got.groups):
        a, b = exp.groups[name], got.groups[name]
        if a[:2] != b[:2]:
            put(f'weighting {name!r}', a[:2], b[:2])
        if set(a[3]) != set(b[3]) or not all(close(a[3][i], b[3][i]) for i in a[3]):
            put(f'weights of {name!r}', sorted(a[3].items()), sorted(b[3].items()))
        want = len(b[3]) == len([i for i in got.index if i])
        if want != b[2] and any(i for i in got.index):
            put(f'completeness of {name!r}', want, b[2])
    if minimal(exp.cats) != minimal(got.cats):
        put('partitions', exp.cats, got.cats)
    levels = exp.levels() if exp.columns else {k: got.structure[k] for k in got.structure}
    if set(levels) != set(got.structure):
        put('levels', sorted(map(sorted, levels)), sorted(map(sorted, got.structure)))
    for k in set(levels) & set(got.structure):
        if any(i for i in exp.index) and not close(levels[k], got.structure[k]):
            put(f'granularity of {sorted(k)}', levels[k], got.structure[k])
    if set(exp.quants) != set(got.quants):
        put('quantities', sorted(exp.quants.items()), sorted(got.quants.items()))
    for k in set(exp.quants) & set(got.quants):
        a, b = exp.quants[k], got.quants[k]
        if totals:
            if not close(sum(a), sum(b)):
                put(f'total of {k!r}', sum(a), sum(b))
        elif len(a) != len(b) or not all(close(x, y) for x, y in zip(sorted(a), sorted(b))):
            put(f'quantities of {k!r}', a, b)
    return out + [f'damage: {b!r}' for b in got.bad]


# ------------------------------------------------------------------ the model
def m_add_columns(st, op):
    new = [c for c in op['columns'] if c not in st.columns]
    if {'index_id', '_location_id', '_structure_id'} & set(op['columns']):
        raise Refuse
    if len(set(new)) < len(new):
        raise Refuse
    st.columns += new
    st.index = {i: l + ('-',) * len(new) for i, l in st.index.items()}
    st.quants = {(l + ('',) * len(new), a): v for (l, a), v in st.quants.items()}
    st.cats = minimal(st.cats | {frozenset(st.columns)})


def m_rename(st, op):
    new = [op['names'].get(c, c) for c in st.columns]
    if len(set(new)) < len(new):
        raise Refuse
    pairs = dict(zip(st.columns, new))
    clash = any(pairs[c] != c and pairs[c] in st.columns for c in st.columns)
    if {'index_id', '_location_id', '_structure_id', '_granularity'} & set(new):
        raise Refuse
    st.columns = new
    st.cats = {frozenset(pairs[c] for c in s) for s in st.cats}
    if clash:
        raise Maybe


def m_remove(st, op):
    gone = [c for c in st.columns if c in op['columns']]
    if not gone:
        return
    keep = [c for c in st.columns if c not in gone]
    if not keep:
        raise Refuse
    cats = {s for s in st.cats if not s & set(gone)}
    if set(keep) - frozenset().union(*cats):
        if op['preserve_structure']:
            raise Refuse
        cats = {s - set(gone) for s in st.cats}
    st.cats = minimal(cats | {frozenset(keep)})
    pos = [st.columns.index(c) for c in keep]
    cut = lambda t: tuple(t[k] for k in pos)
    first, to = {}, {}
    for i in sorted(st.index):
        to[i] = first.setdefault(cut(st.index[i]), i)
    merged = any(a != b for a, b in to.items())
    if merged and op['preserve_granularity']:
        raise Refuse
    if any(b == 0 != a for a, b in to.items()):
        raise Maybe('undefined')
    st.columns = keep
    st.index = {b: cut(st.index[b]) for b in set(to.values())}
    for name, (s, d, c, w) in st.groups.items():
        new = {}
        for i, v in w.items():
            new[to[i]] = new.get(to[i], 0) + v
        st.groups[name] = (s, d, c, new)
    quants, clash = {}, False
    for (l, a), v in st.quants.items():
        clash = clash or any(cut(l) == cut(k[0]) and l != k[0] for k in st.quants)
        quants.setdefault((cut(l), a), []).extend(v)
    st.quants = quants
    if not merged:
        raise Maybe('locations')       # locations that differ only in these columns may forbid it
    op['merged'] = merged


def table(op):
    return op['header'], op['rows']


def m_records(st, op):
    header, rows = table(op)
    if 'index_id' in header:
        raise Refuse
    names = [c for c in header if c in st.columns]
    if not names:
        raise Refuse
    if op.get('boom') is not None:
        raise Refuse
    seen = set(st.index.values())
    for row in rows:
        rec = dict(zip(header, row))
        labels = tuple(rec[c] if c in rec else '-' for c in st.columns)
        if labels in seen or any(l in ('', None) for l in labels):
            raise Refuse
        seen.add(labels)
        st.seq += 1
        st.index[st.seq] = labels


def m_weights(st, op):
    header, rows = table(op)
    if op['name'] not in header or op['name'] in st.groups:
        raise Refuse
    names = [c for c in header if c in st.columns]
    if not names or op.get('boom') is not None:
        raise Refuse
    at = header.index(op['name'])
    weights = {}
    for row in rows:
        if row[at] is None:
            continue
        crit = [(st.columns.index(c), l) for c, l in zip(header, row) if c in st.columns]
        hits = [i for i, labels in st.index.items() if i and all(labels[k] == l for k, l in crit)]
        if len(hits) == 1:
            if hits[0] in weights:
                raise Refuse
            weights[hits[0]] = float(row[at])
    st.groups[op['name']] = (tuple(op['selectors']) if op['selectors'] else None, op['description'], None, weights)
    if len(st.groups) == 1:
        st.default = op['name']


def m_add_parts(st, op):
    st.cats = minimal(st.cats | set(map(frozenset, op['parts'])) | {frozenset(st.columns)})


def m_drop_parts(st, op):
    whole = frozenset(st.columns)
    st.cats = minimal({s for s in minimal(st.cats) if s == whole or s not in set(map(frozenset, op['parts']))} | {whole})


def m_quantities(st, op):
    header, rows = table(op)
    if op.get('boom') is not None:
        raise Refuse
    for row in rows:
        rec = dict(zip(header, row))
        labels = tuple(str(rec.get(c) or '').strip() for c in st.columns)
        if op['attributes']:
            attrs = {k: v for k, v in rec.items() if k in op['attributes']}
        else:
            attrs = {k: v for k, v in rec.items() if k not in st.columns and k != op['value']
                     and not k.startswith('_') and k.strip()}
        attrs = {k: v for k, v in attrs.items() if v not in ('', None)}
        value = rec[op['value']]
        if not attrs or value in ('', None):
            continue
        st.quants.setdefault((labels, tuple(sorted(attrs.items()))), []).append(float(value))


def meets(st, key, where):
    labels, attrs = key
    rec = dict(attrs)
    rec.update(zip(st.columns, labels))
    return all(rec.get(k) == v for k, v in where.items())


def m_delete(st, op):
    if not op['where']:
        raise Refuse
    st.quants = {k: v for k, v in st.quants.items() if not meets(st, k, op['where'])}


MODEL = {'delete': m_delete, 'add_columns': m_add_columns, 'rename': m_rename, 'remove': m_remove, 'records': m_records,
         'weights': m_weights, 'add_parts': m_add_parts, 'drop_parts': m_drop_parts,
         'quantities': m_quantities}


# ------------------------------------------------------------------- the edits
def data(op):
    header, rows = list(op['header']), [list(r) for r in op['rows']]
    form, boom = op['form'], op.get('boom')
    if boom is not None:
        def failing():
            yield header
            for k, row in enumerate(rows):
                if k == boom:
                    raise Boom('no more rows')
                yield row
            raise Boom('no more rows')
        return failing()
    if form == 'dicts' and rows:
        return [dict(zip(header, r)) for r in rows]
    if form == 'iter':
        return iter([tuple(header)] + [tuple(r) for r in rows])
    if form in ('csv', 'dictreader') and all(isinstance(x, str) for r in rows for x in r):
        text = io.StringIO()
        csv.writer(text).writerows([header] + rows)
        text.seek(0)
        return csv.reader(text) if form == 'csv' else csv.DictReader(text)
    return [header] + rows


def apply(node, op):
    kind = op['op']
    if kind == 'add_columns':
        node.add_index_columns(list(op['columns']))
    elif kind == 'rename':
        names = op['names']
        node.rename_index_columns((lambda c: names.get(c, c)) if op['call'] else dict(names))
    elif kind == 'remove':
        node.remove_index_columns(list(op['columns']), preserve_structure=op['preserve_structure'],
                                  preserve_granularity=op['preserve_granularity'])
    elif kind == 'records':
        node.add_index_records(data(op))
    elif kind == 'weights':
        node.add_weights(data(op), op['name'], selectors=op['selectors'], description=op['description'])
    elif kind == 'add_parts':
        node.add_partition_definitions([set(s) for s in op['parts']])
    elif kind == 'drop_parts':
        node.remove_partition_definitions([set(s) for s in op['parts']])
    elif kind == 'quantities':
        node.add_quantities(data(op), op['value'], attributes=op['attributes'])
    elif kind == 'delete':
        node._dal.delete_raw_quantities(**op['where'])


class Gen(object):
    def __init__(self, rng, names, labels):
        self.rng, self.names, self.labels = rng, names, labels

    def p(self, x):
        return self.rng.random() < x

    def table(self, op, header, rows, texts=False):
        op['header'], op['rows'] = header, rows
        op['form'] = self.rng.choice(['rows', 'iter', 'dicts', 'csv', 'dictreader'])
        if self.p(0.04):
            op['boom'] = self.rng.randrange(len(rows) + 1)
        return op

    def pick_columns(self, st, few=0.25):
        cols = list(st.columns)
        self.rng.shuffle(cols)
        if self.p(few) and len(cols) > 1:
            cols = cols[:self.rng.randrange(1, len(cols))]
        return cols

    def op(self, st):
        r = self.rng
        if not st.columns:
            return self.add_columns(st)
        kinds = [(1, self.add_columns), (1, self.rename), (2, self.remove), (4, self.records),
                 (3, self.weights), (2, self.add_parts), (1, self.drop_parts), (4, self.quantities),
                 (1 if st.quants else 0, self.delete)]
        if len(st.index) < 4:
            kinds.append((6, self.records))
        return r.choices([f for _, f in kinds], [w for w, _ in kinds])[0](st)

    def add_columns(self, st):
        free = [c for c in self.names if c not in st.columns]
        n = self.rng.choice([1, 1, 2, 3]) if st.columns else self.rng.choice([1, 2, 3, 3])
        cols = self.rng.sample(free, min(n, len(free)))
        if st.columns and self.p(0.3):
            cols.append(self.rng.choice(st.columns))
        if cols and self.p(0.05):
            cols.append(cols[0])
        if self.p(0.05):
            cols.append(self.rng.choice(['index_id', '_location_id', '_structure_id']))
        return {'op': 'add_columns', 'columns': cols}

    def rename(self, st):
        names = {}
        for c in self.rng.sample(st.columns, min(len(st.columns), self.rng.choice([1, 1, 2]))):
            names[c] = self.rng.choice(self.names)
        if self.p(0.05):
            names[st.columns[0]] = 'index_id'
        return {'op': 'rename', 'names': names, 'call': self.p(0.4)}

    def remove(self, st):
        cols = self.rng.sample(st.columns, min(len(st.columns), self.rng.choice([1, 1, 1, 2])))
        if self.p(0.1):
            cols.append('nothing')
        return {'op': 'remove', 'columns': cols, 'preserve_structure': self.p(0.4),
                'preserve_granularity': self.p(0.4)}

    def records(self, st):
        cols = self.pick_columns(st, 0.1)
        n = self.rng.choice([1, 2, 3, 5, 8])
        rows = []
        taken = set(st.index.values())
        for _ in range(n):
            for _ in range(6):
                rec = {c: self.rng.choice(self.labels) for c in cols}
                labels = tuple(rec.get(c, '-') for c in st.columns)
                if labels not in taken or self.p(0.03):
                    break
            else:
                continue
            taken.add(labels)
            if self.p(0.01):
                rec[cols[0]] = self.rng.choice(['', None])
            rows.append([rec[c] for c in cols])
        header = list(cols)
        if self.p(0.15):
            header.append('other')
            rows = [r + ['?'] for r in rows]
        if self.p(0.03):
            header.append('index_id')
            rows = [r + ['7'] for r in rows]
        return self.table({'op': 'records'}, header, rows)

    def weights(self, st):
        name = self.rng.choice(GROUPS)
        if name in st.columns:
            return None
        cols = self.pick_columns(st, 0.15)
        ids = [i for i in st.index if i]
        self.rng.shuffle(ids)
        if self.p(0.35):
            ids = ids[:self.rng.randrange(len(ids) + 1)]
        rows = []
        texts = self.p(0.3)
        for i in ids:
            rec = dict(zip(st.columns, st.index[i]))
            v = self.rng.choice([0, 1, 2, 2.5, 10, 0.125, 3, None if self.p(0.2) else 7])
            rows.append([rec[c] for c in cols] + [str(v) if texts and v is not None else v])
        if rows and self.p(0.05):
            rows.append(list(self.rng.choice(rows)))
        if self.p(0.08):
            rows.insert(0, ['-' for _ in cols] + [3])    # the labels of the undefined record
        if self.p(0.1):
            rows.append([self.rng.choice(self.labels) for _ in cols] + [5])
        header = cols + [name]
        if self.p(0.05):
            header[-1] = 'other'
        at = self.rng.randrange(len(header))             # the value may be anywhere
        header.insert(at, header.pop())
        for row in rows:
            row.insert(at, row.pop())
        return self.table({'op': 'weights', 'name': name,
                           'selectors': self.rng.choice([None, [], [self.rng.choice(SELECTORS)],
                                                         self.rng.sample(SELECTORS, 2)]),
                           'description': self.rng.choice([None, 'some text'])}, header, rows)

    def some_sets(self, st):
        out = []
        for _ in range(self.rng.choice([1, 1, 2])):
            out.append(self.rng.sample(st.columns, self.rng.randrange(1, len(st.columns) + 1)))
        return out

    def add_parts(self, st):
        return {'op': 'add_parts', 'parts': self.some_sets(st)}

    def drop_parts(self, st):
        parts = self.some_sets(st)
        if st.cats and self.p(0.7):
            parts[0] = sorted(self.rng.choice(sorted(st.cats, key=sorted)))
        wide = [sorted(s) for s in sorted(st.cats, key=sorted) if len(s) > 1]
        if wide and self.p(0.3):                         # sets that together are another one
            whole = self.rng.choice(wide)
            self.rng.shuffle(whole)
            k = self.rng.randrange(1, len(whole))
            parts = [whole[:k], whole[k:]]
        return {'op': 'drop_parts', 'parts': parts}

    def quantities(self, st):
        attrs = self.rng.sample(ATTRS, self.rng.choice([1, 2]))
        value = self.rng.choice(['value', 'count'])
        cols = self.pick_columns(st, 0.15)
        levels = sorted(st.structure, key=sorted)
        rows = []
        texts = self.p(0.3)
        clash = []
        if len(st.columns) > 1 and self.p(0.15):         # places that read the same when joined
            k = self.rng.randrange(len(st.columns) - 1)
            a, b, c = (self.rng.choice(self.labels) for _ in range(3))
            sep = self.rng.choice([' ', ',', '', '|', '\x1f'])
            clash = [{st.columns[k]: x, st.columns[k + 1]: y} for x, y in [(a, b + sep + c), (a + sep + b, c)]]
        for _ in range(self.rng.choice([2, 4, 8] if clash else [1, 2, 4, 8])):
            labels = dict(zip(st.columns, st.index[self.rng.choice(sorted(st.index))]))
            if clash:
                labels.update(clash.pop())
            level = self.rng.choice(levels) if levels and self.p(0.85) else self.rng.sample(st.columns, 1)
            if self.p(0.1):
                labels = {c: self.rng.choice(self.labels) for c in st.columns}
            row = [labels[c] if c in level else '' for c in cols]
            row += [self.rng.choice(['m', 'n', 'f'] + ['']) for _ in attrs]
            v = self.rng.choice([0, 1, 2.5, 10, -3, 0.1, 100, ''])
            rows.append(row + [str(v) if texts else v])
        header = cols + attrs + [value]
        explicit = None
        if self.p(0.3):
            explicit = self.rng.sample(attrs, 1)
        if self.p(0.2):
            header.append('_note')
            rows = [r + ['n'] for r in rows]
        if any(c in header[len(cols):] for c in st.columns):
            return None
        return self.table({'op': 'quantities', 'value': value, 'attributes': explicit}, header, rows)


    def where(self, st):
        """A condition on labels, attributes or both."""
        out = {}
        labels, attrs = self.rng.choice(sorted(st.quants, key=repr))
        pairs = list(zip(st.columns, labels)) + list(attrs)
        for k, v in self.rng.sample(pairs, min(len(pairs), self.rng.choice([1, 1, 2]))):
            out[k] = v if self.p(0.8) else self.rng.choice(self.labels)
        return out

    def delete(self, st):
        return {'op': 'delete', 'where': self.where(st) if self.p(0.95) else {}}


# ------------------------------------------------------------------ the driver
def observe(node, d):
    path = os.path.join(d, 'look.toron')
    node._dal.to_file(path, fsync=False)
    return read(path)


def static(st):
    """What disaggregating the stored quantities has to give."""
    cands = {st.ids[n]: [selref.parse(s) for s in g[0]] for n, g in st.groups.items() if g[0] and g[2]}
    by_id = {st.ids[n]: g[3] for n, g in st.groups.items()}
    out, sure = {}, {}
    for (labels, attrs), values in st.quants.items():
        level = frozenset(c for c, l in zip(st.columns, labels) if l)
        key = selref.best_key(cands, dict(attrs), 1)
        weights = by_id.get(key, {})
        hits = [i for i, rec in st.index.items() if i in weights and all(
            not l or l == r for l, r in zip(labels, rec))]
        if level not in st.structure or not hits:
            continue
        total = sum(weights[i] for i in hits)
        for v in values:
            sure[attrs] = sure.get(attrs, 0) + v
            for i in hits:
                share = weights[i] / total if total else 1 / len(hits)
                out[i, attrs] = out.get((i, attrs), 0) + v * share
    return out, sure


def disaggregate(rec, node, st, where):
    want, totals = static(st)
    got = {}
    for i, attrs, v in node._dal.static_disaggregate():
        key = (i, tuple(sorted(attrs.items())))
        rec.check(key not in got, lambda: f'disaggregated row {key!r} twice')
        got[key] = v
    same = set(got) == set(want) and all(close(got[k], want[k]) for k in want)
    rec.check(same, lambda: f'disaggregated:\n  {sorted(got.items())!r}\nexpected:\n  {sorted(want.items())!r}\n'
                            f'records {st.index!r}\nweightings {st.groups!r}\nquantities {st.quants!r}')
    sums = {}
    for i, attrs, v in node._dal.adaptive_disaggregate():
        key = tuple(sorted(attrs.items()))
        sums[key] = sums.get(key, 0) + v
        rec.check(i in st.index and i > 0, lambda: f'disaggregated to record {i!r}')
    rec.check(set(sums) == set(totals) and all(close(sums[k], totals[k]) for k in totals),
              lambda: f'totals after adaptive disaggregation: {sums!r}, stored {totals!r}\n'
                      f'records {st.index!r}\nweightings {st.groups!r}\nquantities {st.quants!r}')
    some = {(i, k): v for (i, k), v in want.items() if meets(st, (st.index[i], k), where)}
    found = {(i, tuple(sorted(a.items()))): v for i, a, v in node._dal.static_disaggregate(**where)}
    rec.check(set(found) == set(some) and all(close(found[k], some[k]) for k in some),
              lambda: f'disaggregated where {where!r}:\n  {sorted(found.items())!r}\nexpected:\n  {sorted(some.items())!r}')
    rec.count('disaggregated_some', bool(some))
    rec.ev(len(want) + len(totals))
    rec.count('disaggregated', 1 if want else 0)


def plan(tier, seed):
    n = 700 if tier == 'quick' else 12000
    return [{'seed': f'{seed}/{PROPERTY}/{k}', 'steps': 14 if k % 5 else 30} for k in range(n)]


def run_case(spec, rec):
    warnings.simplefilter('ignore')
    rng = random.Random(spec['seed'])
    names = rng.sample(NAMES, rng.choice([3, 4, 5]))
    labels = rng.sample(LABELS, rng.choice([2, 3, 5]))
    if rng.random() < 0.3:                               # many that read the same when joined
        x, y = rng.sample(['x', 'y', '1'], 2)
        sep = rng.choice([' ', ',', '', '\x00', '|', ', ', '-'])
        labels = [x, y, x + sep + y, y + sep + x, x + sep + y + sep + x][:rng.choice([4, 5])]
        rec.count('joined_labels')
    gen = Gen(rng, names, labels)
    hashes = {}
    with tempfile.TemporaryDirectory() as d:
        node = toron.xNode(cache_to_drive=rng.random() < 0.3)
        pre = observe(node, d)
        unique_id = pre.unique_id
        done = []
        for step in range(spec['steps']):
            op = gen.op(pre)
            if op is None:
                continue
            done.append(op)
            exp, refuse, maybe = pre.copy(), False, None
            try:
                MODEL[op['op']](exp, op)
            except Refuse:
                refuse = True
            except Maybe as e:
                maybe = str(e) or 'maybe'
            error = None
            try:
                apply(node, op)
            except Exception as e:
                error = e
            what = lambda: f'{op!r} -> {error!r}'
            post = observe(node, d)
            rec.ev()
            rec.count('op_' + op['op'])
            rec.count('failing_inputs', 'boom' in op)
            same = differences(pre, post)
            if error is not None:
                rec.check(refuse or maybe is not None, lambda: f'refused: {what()}\n  contents {vars(pre)!r}')
                rec.check(not same, lambda: f'refused but changed: {what()}\n  {same!r}')
                rec.count('steps_refused')
            elif refuse:
                rec.fail(f'accepted: {what()}\n  changed {same!r}')
            elif maybe == 'undefined':
                return                                   # records equal to the undefined one
            else:
                wrong = differences(exp, post, op['op'] == 'remove')
                rec.check(not wrong, lambda: f'{what()}\n  {wrong!r}\n  before {vars(pre)!r}')
                rec.count('steps_ok')
                if op.get('merged'):
                    rec.count('coarsened')
                    rec.count('weights_merged', sum(len(g[3]) for g in pre.groups.values()) >
                              sum(len(g[3]) for g in post.groups.values()))
                    rec.count('quantities_merged', len(pre.quants) > len(post.quants))
            ids = tuple(sorted(i for i in post.index if i))
            if post.hash is not None:
                rec.check(hashes.setdefault(ids, post.hash) == post.hash and
                          all(h != post.hash or k == ids for k, h in hashes.items()),
                          lambda: f'record checksum {post.hash!r} of {ids!r}: {what()}')
            rec.check(post.unique_id == unique_id, lambda: f'identifier changed: {what()}')
            rec.check(list(node.index_columns()) == post.columns, lambda: f'columns read: {node.index_columns()!r}')
            rec.check(dict((r[0], tuple(r[1:])) for r in node.index_records()) == post.index,
                      lambda: f'records read: {list(node.index_records())!r}: {what()}')
            if post.columns and rng.random() < 0.3:
                c = rng.choice(post.columns)
                l = rng.choice([r[post.columns.index(c)] for r in post.index.values()])
                rec.eq(sorted(r[0] for r in node.index_records(**{c: l})),
                       sorted(i for i, r in post.index.items() if r[post.columns.index(c)] == l),
                       f'records with {c}={l!r}')
            rec.eq({frozenset(k for k, b in zip(post.columns, bits) if b) for bits in node.structure()},
                   set(post.structure), 'levels read')
            if post.quants and rng.random() < 0.3:
                where = gen.where(post) if rng.random() < 0.7 else {}
                want = sorted(((*zip(post.columns, k[0]), *k[1], ('value', v)) for k, vs in post.quants.items()
                               for v in vs if meets(post, k, where)), key=repr)
                rec.eq(sorted(map(sorted, map(dict.items, node._dal.get_raw_quantities(**where))), key=repr),
                       sorted((sorted(x) for x in want), key=repr), f'quantities where {where!r}')
                rec.count('quantities_read')
            rec.sig((op['op'], op.get('form'), op.get('preserve_structure'), op.get('preserve_granularity'),
                     type(error).__name__, len(pre.columns), min(len(pre.index), 6), len(pre.groups),
                     len(pre.structure), bool(pre.quants)))
            pre = post
            if rng.random() < 0.1:
                path = os.path.join(d, rng.choice(['saved.toron', 'other one.toron']))
                node._dal.to_file(path)
                node = toron.xNode.from_file(path, cache_to_drive=rng.random() < 0.4)
                post = observe(node, d)
                wrong = differences(pre, post)
                rec.check(not wrong, lambda: f'reloaded: {wrong!r}')
                rec.check(post.unique_id == unique_id, lambda: 'identifier changed by a reload')
                left = sorted(set(os.listdir(d)) - {'saved.toron', 'other one.toron', 'look.toron'})
                rec.check(not left, lambda: f'left beside the file: {left!r}')
                rec.count('reloads')
        if pre.structure and pre.quants:
            disaggregate(rec, node, pre, gen.where(pre))
        rec.count('histories')
        rec.sample(f'{len(done)} edits, last {done[-1]!r}'[:400])
