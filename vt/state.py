"""Observable contents of a space, read straight from its file format.

``read_state(path)`` opens the file with a plain read-only SQLite connection
(nothing of the code under test is involved) and returns a ``State`` whose
fields do not mention row ids of internal tables.
"""
import copy
import json
import os
import sqlite3

from .base import scratch_root

UNDEF = 0


class State(object):
    FIELDS = ('unique_id', 'domain', 'columns', 'order', 'partitions', 'registered',
              'index', 'seq', 'structure', 'groups', 'default', 'weights',
              'quantities', 'links', 'mappings', 'index_hash', 'props')

    def copy(self):
        new = State()
        for name in self.FIELDS:
            setattr(new, name, copy.deepcopy(getattr(self, name)))
        new.problems = list(self.problems)
        new.unused_locations = self.unused_locations
        return new

    def as_dict(self, skip=()):
        return {k: getattr(self, k) for k in self.FIELDS if k not in skip}

    # -- derived -----------------------------------------------------------
    def defined(self):
        return [i for i in self.index if i != 0]

    def whole_level(self):
        return level_bytes(self.columns, self.columns)

    def levels(self):
        return closure(self.partitions) | ({frozenset(self.columns)} if self.columns else set())


def level_bytes(columns, subset):
    """Encode a set of columns the way mapping levels are stored."""
    bits = [1 if c in subset else 0 for c in columns]
    while len(bits) % 8:
        bits.append(0)
    out = bytearray()
    for i in range(0, len(bits), 8):
        n = 0
        for b in bits[i:i + 8]:
            n = n * 2 + b
        out.append(n)
    return bytes(out).rstrip(b'\x00')


def level_columns(columns, data):
    bits = []
    for byte in data or b'':
        for k in range(7, -1, -1):
            bits.append((byte >> k) & 1)
    return frozenset(c for c, b in zip(columns, bits) if b)


def closure(sets):
    result = {frozenset()}
    for s in sets:
        result |= {r | s for r in result}
    return result


def _json(text):
    return None if text is None else json.loads(text)


def read_connection(con):
    con.text_factory = str
    cur = con.cursor()
    st = State()
    st.problems = []
    props = {k: _json(v) for k, v in cur.execute('SELECT key, value FROM main.property')}
    st.unique_id = props.pop('unique_id', None)
    st.domain = props.pop('domain', '') or ''
    st.index_hash = props.pop('index_hash', None)
    st.registered = list(props.pop('registered_attributes', None) or [])
    parts = props.pop('partition_definitions', None) or []
    st.partitions = frozenset(frozenset(p) for p in parts)
    if len(st.partitions) != len(parts):
        st.problems.append(f'duplicate partition definitions: {parts!r}')
    default_id = props.pop('default_weight_group_id', None)
    order = props.pop('label_display_order', None) or []

    info = [r[1] for r in cur.execute("PRAGMA main.table_info('label_index')")]
    st.columns = info[1:]
    st.order = [x for x in order if x in st.columns]
    st.order += [x for x in st.columns if x not in st.order]
    st.index = {}
    for row in cur.execute('SELECT * FROM main.label_index ORDER BY 1'):
        st.index[row[0]] = tuple(row[1:])
    seq = cur.execute("SELECT seq FROM main.sqlite_sequence WHERE name='label_index'").fetchone()
    st.seq = seq[0] if seq else 0

    st.structure = []
    scols = [r[1] for r in cur.execute("PRAGMA main.table_info('label_structure')")][2:]
    for row in cur.execute('SELECT * FROM main.label_structure'):
        st.structure.append((frozenset(c for c, b in zip(scols, row[2:]) if b), row[1]))
    if scols != st.columns:
        st.problems.append(f'structure columns {scols!r} differ from index columns {st.columns!r}')

    gnames = {}
    st.groups = {}
    for gid, name, desc, sel, comp in cur.execute(
            'SELECT weight_group_id, name, description, selectors, is_complete FROM main.weight_group'):
        gnames[gid] = name
        st.groups[name] = {'description': desc, 'selectors': _json(sel), 'is_complete': bool(comp)}
    st.default = gnames.get(default_id) if default_id is not None else None
    if default_id is not None and default_id not in gnames:
        st.problems.append(f'default weight group id {default_id!r} does not exist')
    st.weights = {}
    for gid, iid, val in cur.execute('SELECT weight_group_id, index_id, weight_value FROM main.weight'):
        if gid not in gnames:
            st.problems.append(f'weight of missing group {gid!r}')
        if iid not in st.index:
            st.problems.append(f'weight of missing record {iid!r} in group {gnames.get(gid)!r}')
        key = (gnames.get(gid), iid)
        if key in st.weights:
            st.problems.append(f'duplicate weight {key!r}')
        st.weights[key] = val

    lcols = [r[1] for r in cur.execute("PRAGMA main.table_info('label_location')")][1:]
    if lcols != st.columns:
        st.problems.append(f'location columns {lcols!r} differ from index columns {st.columns!r}')
    locs = {r[0]: tuple(r[1:]) for r in cur.execute('SELECT * FROM main.label_location')}
    attrs = {}
    for aid, text in cur.execute('SELECT attribute_group_id, attributes FROM main.attribute_group'):
        attrs[aid] = tuple(sorted(json.loads(text).items()))
    if len(set(attrs.values())) != len(attrs):
        st.problems.append('duplicate attribute sets')
    st.quantities = {}
    for lid, aid, val in cur.execute('SELECT _location_id, attribute_group_id, quantity_value FROM main.quantity'):
        if lid not in locs:
            st.problems.append(f'quantity of missing location {lid!r}')
        if aid not in attrs:
            st.problems.append(f'quantity of missing attribute set {aid!r}')
        key = (locs.get(lid), attrs.get(aid))
        if key in st.quantities:
            st.problems.append(f'duplicate quantity {key!r}')
        st.quantities[key] = val
    st.unused_locations = len(locs) - len({k[0] for k in st.quantities})

    lnames = {}
    st.links = {}
    for (lid, uid, hint, name, desc, sel, dflt, uprops, ohash, comp) in cur.execute(
            'SELECT link_id, other_unique_id, other_filename_hint, name, description, selectors,'
            ' is_default, user_properties, other_index_hash, is_locally_complete FROM main.link'):
        lnames[lid] = (uid, name)
        st.links[(uid, name)] = {
            'hint': hint, 'description': desc, 'selectors': _json(sel), 'is_default': bool(dflt),
            'user_properties': _json(uprops), 'hash': ohash, 'complete': bool(comp)}
    st.mappings = {}
    for lid, oid, iid, level, val, prop in cur.execute(
            'SELECT link_id, other_index_id, index_id, mapping_level, mapping_value, proportion FROM main.mapping'):
        if lid not in lnames:
            st.problems.append(f'mapping of missing link {lid!r}')
        if iid not in st.index:
            st.problems.append(f'mapping to missing record {iid!r} in link {lnames.get(lid)!r}')
        key = lnames.get(lid, (None, None)) + (oid, iid, bytes(level or b''))
        if key in st.mappings:
            st.problems.append(f'duplicate mapping {key!r}')
        st.mappings[key] = (val, prop)
    props.pop('toron_app_version', None)
    st.props = props
    for row in cur.execute('PRAGMA main.foreign_key_check'):
        st.problems.append(f'foreign key violation: {row!r}')
    return st


def read_state(path):
    uri = 'file:' + _quote(os.path.abspath(path)) + '?mode=ro'
    con = sqlite3.Connection(uri, uri=True, isolation_level=None)
    try:
        return read_connection(con)
    finally:
        con.close()


def _quote(path):
    from urllib.parse import quote
    return quote(path)


_counter = [0]


def space_state(space):
    """State of any space: write it to a scratch file and read that."""
    _counter[0] += 1
    path = os.path.join(scratch_root(), f'dump{_counter[0]}.toron')
    space.to_file(path, fsync=False)
    try:
        return read_state(path)
    finally:
        os.unlink(path)


# -- canonical full contents (used where no model is needed) ----------------

def full(st, skip=()):
    d = st.as_dict(skip)
    d['partitions'] = sorted(sorted(p) for p in st.partitions)
    d['structure'] = sorted((sorted(s), g) for s, g in st.structure)
    for name in ('index', 'weights', 'quantities', 'links', 'mappings', 'groups', 'props'):
        if name in d:
            d[name] = sorted(d[name].items(), key=repr)
    for name in skip:
        d.pop(name, None)
    return d


def diff(a, b):
    """Short description of how two full() dicts differ."""
    out = []
    for k in sorted(set(a) | set(b)):
        x, y = a.get(k), b.get(k)
        if x == y:
            continue
        if isinstance(x, list) and isinstance(y, list):
            only_x = [i for i in x if i not in y][:6]
            only_y = [i for i in y if i not in x][:6]
            out.append(f'{k}: only in first {only_x!r}, only in second {only_y!r}')
        else:
            out.append(f'{k}: {x!r} != {y!r}')
    return '; '.join(out)[:3000]
