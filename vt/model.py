"""Reference model: what each operation must do to the contents of a space.

``expect(state, op, env)`` returns ``('ok', new_state)``, ``('err', None)`` or
``('any', None)`` (the outcome is not specified).  The model is written from
the documented behaviour; it shares no code with the library.
"""
import json
import math

from . import state as S


class Err(Exception):
    """The operation must be refused."""


class Unspecified(Exception):
    """The statement of the properties does not settle this outcome."""


RESERVED = None


def reserved():
    global RESERVED
    if RESERVED is None:
        import toron
        RESERVED = {'domain', 'index_id', 'value', 'weight'} | set(
            toron.DataSpace()._dal.reserved_identifiers)
    return RESERVED


def expect(st, op, env):
    new = st.copy()
    try:
        _TABLE[op['op']](new, op, env)
    except Err as e:
        return ('err', str(e))
    except Unspecified as e:
        return ('any', str(e))
    return ('ok', new)


# ---------------------------------------------------------------- helpers

def is_id(x):
    return isinstance(x, int) and not isinstance(x, bool)


def get_id(st, raw):
    """Find the record an id value refers to (ints or their text)."""
    if is_id(raw):
        return raw if raw in st.index else None
    if isinstance(raw, str):
        if raw.isdigit() and raw.isascii() and str(int(raw)) == raw:
            return int(raw) if int(raw) in st.index else None
        try:
            float(raw)
        except ValueError:
            return None
        raise Unspecified('odd id text')
    if raw is None:
        return None
    raise Unspecified('odd id')


def number(x):
    """float(x) or None."""
    if isinstance(x, (int, float)):
        return float(x)
    if isinstance(x, str):
        try:
            return float(x)
        except ValueError:
            return None
    return None


def finite(v):
    return v is not None and not math.isnan(v) and not math.isinf(v)


def rows_dicts(op):
    cols = list(op['columns'])
    for row in op['rows']:
        yield dict(zip(cols, row)), list(row)


def need(cols, required):
    missing = [c for c in required if c not in cols]
    if missing:
        raise Err(f'missing {missing}')


def group_truth(st, name):
    return all((name, i) in st.weights for i in st.index if i != 0)


def link_truth(st, key):
    mapped = {k[3] for k in st.mappings if k[:2] == key}
    return all(i in mapped for i in st.index if i != 0)


def entropy(st, level):
    recs = [labels for i, labels in st.index.items() if i != 0]
    if not level or not recs:
        return None
    pos = [i for i, c in enumerate(st.columns) if c in level]
    blocks = {}
    for labels in recs:
        k = tuple(labels[p] for p in pos)
        blocks[k] = blocks.get(k, 0) + 1
    n = len(recs)
    return math.log2(n) - sum(b / n * math.log2(b) for b in blocks.values())


def undefined_labels(st):
    return tuple('-' for _ in st.columns)


def find_labels(st, labels):
    for i, lab in st.index.items():
        if lab == labels:
            return i
    return None


def select(st, criteria):
    """Records whose labels equal every criterion."""
    out = []
    for i, labels in st.index.items():
        rec = dict(zip(st.columns, labels))
        if all(k in rec and rec[k] == v for k, v in criteria.items()):
            out.append(i)
    return out


def refresh(st, link, other):
    keys = [k for k in st.mappings if k[:2] == link and k[2] == other]
    total = math.fsum(st.mappings[k][0] for k in keys)
    for k in keys:
        v = st.mappings[k][0]
        if other == 0:
            p = 0.0
        elif total:
            p = v / total
        else:
            p = 1.0 / len(keys)
        st.mappings[k] = (v, p)


def refresh_link(st, link):
    for other in {k[2] for k in st.mappings if k[:2] == link}:
        refresh(st, link, other)


# ------------------------------------------------------------ link lookup

def links_by_ref(st, ref):
    if not ref:
        raise Err('no reference')
    found = [k for k in st.links if k[0] == ref]
    if found:
        return found
    found = [k for k in st.links if st.links[k]['hint'] == ref]
    if not ref.endswith('.toron'):
        found += [k for k in st.links if st.links[k]['hint'] == ref + '.toron']
    if not found and len(ref) >= 7:
        found = [k for k in st.links if k[0].startswith(ref)]
    if len({k[0] for k in found}) > 1:
        raise Err('ambiguous')
    if not found:
        raise Err('missing')
    return found


def find_link(st, ref, name):
    found = links_by_ref(st, ref)
    if name:
        hits = [k for k in found if k[1] == name]
        if not hits:
            raise Err('no such name')
        return hits[0]
    if len(found) == 1:
        return found[0]
    hits = [k for k in found if st.links[k]['is_default']]
    if not hits:
        raise Err('no default')
    return hits[0]


def resolve(st, op, env):
    key = op['other']
    ref = env.uid(key) if key in env.others else key
    return find_link(st, ref, op['name'])


# ------------------------------------------------------------------ columns

def _check_new_names(st, names):
    for n in names:
        if n in reserved():
            raise Err(f'{n!r} reserved')
        if n in st.columns:
            raise Err(f'{n!r} exists')
        if n in st.registered:
            raise Err(f'{n!r} is an attribute')


def _fold(s):
    """SQLite compares column names without regard to ASCII case."""
    return ''.join(chr(ord(c) + 32) if 'A' <= c <= 'Z' else c for c in s)


def bad_identifier(n):
    if '\x00' in n:
        return True
    try:
        n.encode('utf-8')
    except UnicodeEncodeError:
        return True
    return False


def _check_collisions(names):
    folded = [_fold(n) for n in names]
    if len(set(folded)) != len(folded):
        raise Err('column names collide')
    if set(folded) & {'index_id', '_location_id', '_structure_id', '_granularity'}:
        raise Err('column name collides with an internal one')
    if any(bad_identifier(n) for n in names):
        raise Err('not a possible name')


def m_add_columns(st, op, env):
    names = op['cols']
    _check_new_names(st, names)
    if any(n == '' for n in names):
        raise Unspecified('empty name')
    old_whole = frozenset(st.columns)
    old_columns = list(st.columns)
    new_columns = old_columns + list(names)
    _check_collisions(new_columns)
    quantities_at_whole = any(
        all(x != '' for x in loc) for (loc, a) in st.quantities) and old_columns
    level = S.level_bytes(old_columns, old_columns)
    mappings_at_whole = any(k[4] == level for k in st.mappings) and old_columns
    st.columns = new_columns
    st.order = st.order + list(names)
    n = len(names)
    st.index = {i: lab + ('-',) * n for i, lab in st.index.items()}
    st.quantities = {(loc + ('',) * n, a): v for (loc, a), v in st.quantities.items()}
    whole = frozenset(new_columns)
    parts = set(st.partitions) | {whole}
    if old_whole and not quantities_at_whole and not mappings_at_whole:
        parts.discard(old_whole)
    st.partitions = frozenset(parts)


def _rename(st, mapping):
    for old in mapping:
        if old not in st.columns:
            raise Err(f'no column {old!r}')
    _check_new_names(st, mapping.values())
    new = [mapping.get(c, c) for c in st.columns]
    if any(n == '' for n in mapping.values()):
        raise Unspecified('empty name')
    # A change of letter case only is a collision with itself on the way.
    if len({_fold(c) for c in st.columns} | {_fold(v) for v in mapping.values()}) < \
            len(st.columns) + len(mapping):
        if len({_fold(c) for c in new}) == len(new):
            raise Unspecified('case-only rename')
    _check_collisions(new)
    st.columns = new
    st.order = [mapping.get(c, c) for c in st.order]
    st.partitions = frozenset(frozenset(mapping.get(c, c) for c in p) for p in st.partitions)


def m_rename_columns(st, op, env):
    _rename(st, dict(op['mapping']))


def m_rename_label(st, op, env):
    _rename(st, {op['old']: op['new']})


def m_drop_columns(st, op, env):
    names = set(op['cols'])
    if names & reserved():
        raise Err('reserved')
    keep = [c for c in st.columns if c not in names]
    if not keep:
        raise Err('all columns')
    pos = [i for i, c in enumerate(st.columns) if c not in names]
    pick = lambda lab: tuple(lab[p] for p in pos)
    new_index = {i: pick(lab) for i, lab in st.index.items()}
    if len(set(new_index.values())) != len(new_index):
        raise Err('records collide')
    locs = {k[0] for k in st.quantities}
    if len({pick(x) for x in locs}) != len(locs):
        raise Err('locations collide')
    if st.unused_locations:
        raise Unspecified('unused locations may collide')
    new_map = {}
    for k, v in st.mappings.items():
        old_level = S.level_columns(st.columns, k[4])
        nk = k[:4] + (S.level_bytes(keep, old_level),)
        if nk in new_map:
            raise Err('mappings collide')
        new_map[nk] = v
    st.index = new_index
    st.quantities = {(pick(loc), a): v for (loc, a), v in st.quantities.items()}
    st.mappings = new_map
    st.partitions = frozenset(frozenset(p - names) for p in st.partitions if p - names) \
        | {frozenset(keep)}
    st.columns = keep
    st.order = [c for c in st.order if c not in names]


def m_label_order(st, op, env):
    _move(st.order, op['label'], op['offset'])


def _move(seq, item, offset):
    if item not in seq:
        raise Err('not found')
    pos = seq.index(item)
    new = min(max(0, pos + offset), len(seq) - 1)
    seq.insert(new, seq.pop(pos))


def m_set_domain(st, op, env):
    st.domain = op['domain']


def _union_of(p, parts):
    u = frozenset()
    for q in parts:
        if q <= p and q != p:
            u |= q
    return u == p


def m_add_partition(st, op, env):
    p = frozenset(op['partition'])
    if not st.columns:
        raise Err('no columns')
    if p - set(st.columns):
        raise Err('unknown label')
    if p in st.partitions:
        raise Err('exists')
    if _union_of(p, st.partitions | {frozenset(st.columns)}):
        raise Err('covered')
    if not p:
        raise Unspecified('empty partition')
    st.partitions = st.partitions | {p, frozenset(st.columns)}


def m_add_partitions(st, op, env):
    parts = [frozenset(p) for p in op['partitions']]
    if not st.columns:
        raise Err('no columns')
    for p in parts:
        if p - set(st.columns):
            raise Err('unknown label')
    st.partitions = st.partitions | {p for p in parts if p} | {frozenset(st.columns)}


def m_drop_partitions(st, op, env):
    parts = [frozenset(p) for p in op['partitions']]
    whole = frozenset(st.columns)
    if whole in parts:
        raise Err('whole space')
    if not st.partitions:
        raise Unspecified('no partitions yet')
    st.partitions = frozenset(p for p in st.partitions if p not in parts) | (
        {whole} if whole else set())


def m_set_attrs(st, op, env):
    attrs = list(op['attrs'])
    if len(set(attrs)) != len(attrs):
        raise Err('duplicate')
    for a in attrs:
        if a in reserved():
            raise Err('reserved')
        if a in st.columns:
            raise Err('is a label')
    st.registered = attrs


def m_attr_order(st, op, env):
    _move(st.registered, op['attr'], op['offset'])


# -------------------------------------------------------------------- index

def m_insert_index(st, op, env):
    cols = list(op['columns'])
    weights = op.get('weights')
    on_label, on_weight = op.get('on_label', 'abort'), op.get('on_weight', 'abort')
    if weights is not None:
        if isinstance(weights, str):
            weights = [weights]
        need(cols, weights)
    if not st.columns:
        raise Err('no columns')
    labels_in = [c for c in cols if c in st.columns]
    if labels_in:
        need(cols, st.columns)
    if weights is not None:
        for w in weights:
            if w not in st.groups:
                raise Err('no such group')
        groups = list(weights)
    else:
        groups = list(st.groups)
    gpos = [(p, c) for p, c in enumerate(cols) if c in groups]
    if len(set(cols)) != len(cols):
        raise Unspecified('duplicate column names')
    inserted = False
    for row in op['rows']:
        if not row:
            continue
        if len(row) < len(cols):
            raise Unspecified('ragged row')
        labels = tuple(row[cols.index(c)] for c in st.columns) if labels_in else ()
        if '' in labels:
            continue
        if any(not isinstance(x, str) for x in labels):
            raise Unspecified('labels that are not text')
        raw = row[cols.index('index_id')] if 'index_id' in cols else ''
        if raw != '':
            try:
                iid = int(raw)
            except (TypeError, ValueError):
                raise Err('bad id')
            if iid not in st.index:
                raise Err('no such id')
            if labels and labels != st.index[iid]:
                if on_label == 'abort':
                    raise Err('labels differ')
                if on_label == 'replace':
                    if iid == 0:
                        raise Err('undefined record')
                    if find_labels(st, labels) is not None:
                        raise Err('labels taken')
                    st.index[iid] = labels
        else:
            if not labels:
                raise Err('neither id nor labels')
            iid = find_labels(st, labels)
            if iid is None:
                st.seq += 1
                iid = st.seq
                st.index[iid] = labels
                inserted = True
        for p, g in gpos:
            v = row[p]
            if v is None or v == '':
                continue
            v = number(v)
            if v is None or not finite(v):
                raise Err('bad weight')
            if iid == 0 and v == 0:
                continue
            if (g, iid) in st.weights:
                if on_weight == 'abort':
                    raise Err('weight exists')
                if on_weight == 'ignore':
                    continue
                if v < 0:
                    raise Err('negative')
                st.weights[g, iid] = v
            else:
                if iid == 0 or v < 0:
                    raise Err('undefined or negative')
                st.weights[g, iid] = v
    if inserted and not st.partitions:
        st.partitions = frozenset([frozenset(st.columns)])


def m_update_index(st, op, env):
    cols = list(op['columns'])
    if 'index_id' not in cols:
        raise Err('no index_id')
    need(cols, st.columns)
    merged = set()
    for rec, row in rows_dicts(op):
        if '' in row:
            continue
        if len(row) != len(cols):
            raise Unspecified('ragged row')
        iid = get_id(st, rec['index_id'])
        if iid is None:
            if rec['index_id'] in merged:
                raise Err('merged earlier')
            if rec['index_id'] in {str(x) for x in merged}:
                raise Unspecified('text id of a merged record')
            continue
        labels = tuple(rec[c] for c in st.columns)
        if any(not isinstance(x, str) for x in labels):
            raise Unspecified('labels that are not text')
        other = find_labels(st, labels)
        if other is not None and other != iid:
            if not op.get('merge'):
                raise Err('labels conflict')
            if other == 0 or iid == 0:
                raise Err('undefined record')
            _merge(st, other, iid)
            merged.add(other)
        if iid == 0:
            if labels == st.index[0]:
                raise Unspecified('same labels on the undefined record')
            raise Err('undefined record')
        st.index[iid] = labels


def _merge(st, gone, keep):
    for name in st.groups:
        if (name, gone) in st.weights:
            v = st.weights.pop((name, gone))
            st.weights[name, keep] = st.weights.get((name, keep), 0.0) + v
    for k in [k for k in st.mappings if k[3] == gone]:
        v, p = st.mappings.pop(k)
        nk = k[:3] + (keep, k[4])
        if nk in st.mappings:
            v2, p2 = st.mappings[nk]
            v += v2
            p = None if p is None or p2 is None else min(p + p2, 1.0)
        st.mappings[nk] = (v, p)
    del st.index[gone]


def _delete_record(st, iid):
    if iid == 0:
        raise Err('undefined record')
    whole = st.whole_level()
    keys = [k for k in st.mappings if k[3] == iid]
    if any(k[4] != whole for k in keys):
        raise Err('approximate mapping')
    for k in [k for k in st.weights if k[1] == iid]:
        del st.weights[k]
    for k in keys:
        del st.mappings[k]
    for other in {k[2] for k in keys}:
        for link in st.links:
            refresh(st, link, other)
    del st.index[iid]


def m_delete_index(st, op, env):
    if 'criteria' in op:
        if not op['criteria']:
            raise Err('neither')
        for iid in select(st, op['criteria']):
            _delete_record(st, iid)
        return
    if not op['rows'] and op.get('form', 'header') == 'columns':
        raise Err('neither')      # an empty table is "no data"
    cols = list(op['columns'])
    if 'index_id' not in cols:
        raise Err('no index_id')
    need(cols, st.columns)
    for rec, row in rows_dicts(op):
        if len(row) != len(cols):
            raise Unspecified('ragged row')
        iid = get_id(st, rec['index_id'])
        if iid is None or tuple(rec[c] for c in st.columns) != st.index[iid]:
            continue
        _delete_record(st, iid)


# ------------------------------------------------------------------ weights

def m_add_group(st, op, env):
    name = op['name']
    if name in st.groups:
        raise Err('exists')
    make_default = op.get('make_default')
    if make_default is None and not st.groups:
        make_default = True
    sel = op.get('selectors')
    if isinstance(sel, str):
        raise Unspecified('selector text')
    st.groups[name] = {'description': op.get('description'), 'selectors': sel or None,
                       'is_complete': False}
    if make_default:
        st.default = name


def m_edit_group(st, op, env):
    name = op['name']
    if name not in st.groups:
        return
    ch = dict(op['changes'])
    if set(ch) - {'name', 'description', 'selectors'}:
        raise Unspecified('other change')
    g = st.groups[name]
    if 'description' in ch:
        g['description'] = ch['description']
    if 'selectors' in ch:
        g['selectors'] = ch['selectors'] or None
    new = ch.get('name', name)
    if new != name:
        if new in st.groups:
            raise Err('exists')
        st.groups = {new if k == name else k: v for k, v in st.groups.items()}
        st.weights = {((new if k[0] == name else k[0]), k[1]): v for k, v in st.weights.items()}
        if st.default == name:
            st.default = new


def m_drop_group(st, op, env):
    name = op['name']
    if name not in st.groups:
        return
    del st.groups[name]
    st.weights = {k: v for k, v in st.weights.items() if k[0] != name}
    if st.default == name:
        st.default = None


def m_set_default(st, op, env):
    if op['name'] not in st.groups:
        raise Unspecified('no such group')
    if op.get('gone'):
        raise Err('the group was removed')
    st.default = op['name']


def m_insert_weights(st, op, env):
    name = op['name']
    cols = list(op['columns'])
    need(cols, st.columns)
    vcol = op.get('value_column') or name
    if name not in st.groups:
        st.groups[name] = {'description': None, 'selectors': None, 'is_complete': False}
    policy = op.get('on_conflict', 'abort')
    for rec, row in rows_dicts(op):
        if len(row) != len(cols):
            raise Unspecified('ragged row')
        if vcol not in rec:
            raise Err('no value column')
        if vcol in st.columns or vcol == 'index_id':
            raise Unspecified('value column doubles as a label')
        v = number(rec[vcol])
        if not finite(v):
            continue
        labels = tuple(rec[c] for c in st.columns)
        if 'index_id' in rec:
            iid = get_id(st, rec['index_id'])
            if iid is None or st.index[iid] != labels:
                continue
        else:
            iid = find_labels(st, labels)
            if iid is None:
                continue
        if iid == 0:
            continue
        if (name, iid) in st.weights:
            if policy == 'abort':
                raise Err('exists')
            if policy == 'ignore':
                if v < 0:
                    raise Unspecified('negative value for an existing weight')
                continue
            if policy == 'sum':
                if v < 0:
                    raise Unspecified('negative value for an existing weight')
                v = st.weights[name, iid] + v
            if v < 0:
                raise Err('negative')
            st.weights[name, iid] = v
        else:
            if v < 0:
                raise Err('negative')
            st.weights[name, iid] = v


def m_update_weights(st, op, env):
    name = op['name']
    cols = list(op['columns'])
    vcol = op.get('value_column') or name
    if 'index_id' not in cols or vcol not in cols:
        raise Err('missing columns')
    need(cols, st.columns)
    if name not in st.groups:
        raise Err('no such group')
    for rec, row in rows_dicts(op):
        if len(row) != len(cols):
            raise Unspecified('ragged row')
        iid = get_id(st, rec['index_id'])
        if iid is None or tuple(rec[c] for c in st.columns) != st.index[iid]:
            continue
        v = number(rec[vcol])
        if not finite(v):
            raise Err('not real')
        if iid == 0 or v < 0:
            raise Err('undefined or negative')
        st.weights[name, iid] = v


def m_delete_weights(st, op, env):
    name = op['name']
    if name not in st.groups:
        raise Err('no such group')
    if 'criteria' in op:
        if not op['criteria']:
            raise Err('neither')
        for iid in select(st, op['criteria']):
            st.weights.pop((name, iid), None)
        return
    if not op['rows'] and op.get('form', 'header') == 'columns':
        raise Err('neither')
    cols = list(op['columns'])
    if 'index_id' not in cols:
        raise Err('no index_id')
    need(cols, st.columns)
    for rec, row in rows_dicts(op):
        if len(row) != len(cols):
            raise Unspecified('ragged row')
        iid = get_id(st, rec['index_id'])
        if iid is None or tuple(rec[c] for c in st.columns) != st.index[iid]:
            continue
        st.weights.pop((name, iid), None)


# -------------------------------------------------------------------- links

def m_add_link(st, op, env):
    uid = env.uid(op['other'])
    key = (uid, op['name'])
    if key in st.links:
        raise Err('exists')
    same = [k for k in st.links if k[0] == uid]
    dflt = op.get('is_default')
    if dflt is None:
        dflt = not same
    if dflt:
        for k in same:
            st.links[k]['is_default'] = False
    st.links[key] = {'hint': op.get('other_filename_hint'), 'description': op.get('description'),
                     'selectors': op.get('selectors') or None, 'is_default': bool(dflt),
                     'user_properties': op.get('user_properties'), 'hash': None,
                     'complete': False}


def m_edit_link(st, op, env):
    key = resolve(st, op, env)
    ch = dict(op['changes'])
    if set(ch) - {'name', 'description', 'selectors', 'is_default', 'user_properties',
                  'other_filename_hint'}:
        raise Unspecified('other change')
    if ch.get('is_default'):
        for k in st.links:
            if k[0] == key[0]:
                st.links[k]['is_default'] = False
    ln = st.links[key]
    for a, b in (('description', 'description'), ('user_properties', 'user_properties'),
                 ('other_filename_hint', 'hint')):
        if a in ch:
            ln[b] = ch[a]
    if 'selectors' in ch:
        ln['selectors'] = ch['selectors'] or None
    if 'is_default' in ch:
        ln['is_default'] = bool(ch['is_default'])
    new = (key[0], ch.get('name', key[1]))
    if new != key:
        if new in st.links:
            raise Err('exists')
        st.links = {new if k == key else k: v for k, v in st.links.items()}
        st.mappings = {(new + k[2:] if k[:2] == key else k): v for k, v in st.mappings.items()}


def m_drop_link(st, op, env):
    key = resolve(st, op, env)
    del st.links[key]
    st.mappings = {k: v for k, v in st.mappings.items() if k[:2] != key}


# ----------------------------------------------------------------- mappings

def _level(st, level):
    """Return the stored form of a symbolic level or None when invalid."""
    if level is None:
        return b''
    if level == '!':
        return None
    if isinstance(level, str):
        return bytes.fromhex(level).rstrip(b'\x00')
    return S.level_bytes(st.columns, level)


def _level_ok(st, level):
    raw = _level(st, level)
    return raw is not None and raw in {S.level_bytes(st.columns, x) for x in st.levels()}


def _mapping_row(st, op, row, cols):
    if len(row) != len(cols):
        raise Unspecified('ragged row')
    rec = dict(zip(cols[3:], row[3:]))
    other, value, raw = row[:3]
    iid = get_id(st, raw)
    if iid is None or tuple(rec[c] for c in st.columns) != st.index[iid]:
        return None
    return other, value, iid, rec


def _mapping_columns(st, op):
    cols = list(op['columns'])
    if cols[:3] != ['other_index_id', op['name'], 'index_id']:
        raise Err('bad columns')
    need(cols, st.columns)
    return cols


def _check_new_mapping(other, iid, v):
    if not is_id(other):
        raise Unspecified('odd other id')
    if v is None or math.isnan(v) or math.isinf(v) or v < 0:
        raise Err('bad value')
    if other == 0 and iid == 0:
        raise Err('undefined to undefined')


def m_insert_mappings(st, op, env):
    cols = _mapping_columns(st, op)
    link = resolve(st, op, env)
    done = False
    for row in op['rows']:
        got = _mapping_row(st, op, row, cols)
        if got is None:
            continue
        other, value, iid, rec = got
        if 'mapping_level' not in rec:
            raise Err('no mapping level')
        if rec['mapping_level'] and not _level_ok(st, rec['mapping_level']):
            continue
        if isinstance(value, str) or value is None:
            if number(value) is None:
                raise Err('bad value')
            raise Unspecified('value given as text')
        v = number(value)
        _check_new_mapping(other, iid, v)
        key = link + (other, iid, _level(st, rec['mapping_level']))
        if key in st.mappings:
            raise Err('exists')
        st.mappings[key] = (v, None)
        done = True
    if done:
        refresh_link(st, link)


def m_insert_mappings2(st, op, env):
    link = resolve(st, op, env)
    done = False
    for row in op['rows']:
        other, iid, level, value = row[:4]
        if not level or not _level_ok(st, level):  # the empty level is no level here
            continue
        if other == 0 and iid == 0:
            continue
        if not is_id(iid):
            raise Unspecified('odd id')
        if isinstance(value, str) or value is None:
            if number(value) is None:
                raise Err('bad value')
            raise Unspecified('value given as text')
        v = number(value)
        if iid not in st.index:
            raise Err('no such record')
        _check_new_mapping(other, iid, v)
        key = link + (other, iid, _level(st, level))
        if key in st.mappings:
            raise Err('exists')
        st.mappings[key] = (v, None)
        done = True
    if done:
        refresh_link(st, link)


def m_update_mappings(st, op, env):
    cols = _mapping_columns(st, op)
    link = resolve(st, op, env)
    done = False
    for row in op['rows']:
        got = _mapping_row(st, op, row, cols)
        if got is None:
            continue
        other, value, iid, rec = got
        if 'mapping_level' not in rec:
            raise Err('no mapping level')
        if rec['mapping_level'] and not _level_ok(st, rec['mapping_level']):
            continue
        if isinstance(value, str) or value is None:
            if number(value) is None:
                raise Err('bad value')
            raise Unspecified('value given as text')
        v = number(value)
        _check_new_mapping(other, iid, v)
        have = [k for k in st.mappings if k[:4] == link + (other, iid)]
        if len(have) > 1:
            raise Unspecified('several levels for one pair')
        for k in have:
            del st.mappings[k]
        st.mappings[link + (other, iid, _level(st, rec['mapping_level']))] = (v, None)
        done = True
    if done:
        refresh_link(st, link)


def m_delete_mappings(st, op, env):
    if 'criteria' in op:
        link = resolve(st, op, env)
        if not op['criteria']:
            raise Err('neither')
        given = set(op['criteria'])
        gone = []
        for iid in select(st, op['criteria']):
            for k in st.mappings:
                if k[:2] == link and k[3] == iid and \
                        S.level_columns(st.columns, k[4]) <= given:
                    gone.append(k)
        for k in gone:
            del st.mappings[k]
        if gone:
            refresh_link(st, link)
        return
    link = resolve(st, op, env)
    if not op['rows'] and op.get('form', 'header') == 'columns':
        raise Err('neither')
    cols = list(op['columns'])
    need(cols, st.columns)
    cols = _mapping_columns(st, op)
    whole = st.whole_level()
    done = False
    for row in op['rows']:
        got = _mapping_row(st, op, row, cols)
        if got is None:
            continue
        other, value, iid, rec = got
        have = [k for k in st.mappings if k[:4] == link + (other, iid)]
        if len(have) > 1:
            raise Unspecified('several levels for one pair')
        if not have:
            continue
        v = number(value)
        if v is None:
            raise Err('bad value')
        if v != st.mappings[have[0]][0] or have[0][4] != whole:
            continue
        del st.mappings[have[0]]
        done = True
    if done:
        refresh_link(st, link)


def m_reify(st, op, env):
    link = resolve(st, op, env)
    whole = st.whole_level()
    crit = op.get('criteria') or {}
    ids = set(select(st, crit)) if crit else set(st.index)
    todo = []
    for k in st.mappings:
        if k[:2] != link or k[3] not in ids or k[4] == whole:
            continue
        if crit and not S.level_columns(st.columns, k[4]) <= set(crit):
            continue
        todo.append(k)
    for k in todo:
        nk = k[:4] + (whole,)
        if nk in st.mappings:
            raise Err('coincides with an exact mapping')
        st.mappings[nk] = st.mappings.pop(k)


# --------------------------------------------------------------- quantities

def _qvalue(x):
    """The stored number for a quantity value, or Err."""
    if isinstance(x, bool) or x is None:
        raise Unspecified('odd value') if isinstance(x, bool) else Err('no value')
    if isinstance(x, (int, float)):
        if isinstance(x, float) and math.isnan(x):
            raise Err('nan')
        return x
    v = number(x)
    if v is None:
        raise Err('not a number')
    s = x.strip()
    if not s or any(c not in '0123456789+-.eE' for c in s):
        raise Unspecified('unusual number text')
    if s != x:
        raise Unspecified('padded number text')
    return v


def _attr_key(d):
    return tuple(sorted(d.items()))


def m_insert_quantities(st, op, env):
    cols = list(op['columns'])
    attrs = op['attributes']
    attrs = [attrs] if isinstance(attrs, str) else list(attrs)
    if st.domain:
        attrs = [a for a in attrs if a != 'domain']
    need(cols, st.columns + (['domain'] if st.domain else []) + attrs + [op['value']])
    for rec, row in rows_dicts(op):
        if len(row) != len(cols):
            raise Unspecified('ragged row')
        if st.domain and rec['domain'] != st.domain:
            continue
        a = {k: rec[k] for k in attrs if rec[k]}
        if not a:
            continue
        loc = tuple(rec[c] for c in st.columns)
        key = (loc, _attr_key(a))
        if key in st.quantities:
            raise Err('duplicate')
        st.quantities[key] = _qvalue(rec[op['value']])


def m_insert_quantities2(st, op, env):
    cols = list(op['columns'])
    if not st.registered:
        raise Err('no attributes registered')
    load = [a for a in st.registered if a in cols]
    need(cols, st.columns + load + [op['value']])
    policy = op.get('on_existing', 'abort')
    places = Places(st)
    for rec, row in rows_dicts(op):
        if len(row) != len(cols):
            raise Unspecified('ragged row')
        if 'domain' in rec and rec['domain'] != st.domain:
            raise Err('domain')
        a = {k: rec[k] for k in load if rec[k]}
        if not a:
            continue
        loc = tuple(rec[c] for c in st.columns)
        known, level = places(loc)
        if not level:
            if not op.get('allow_partition'):
                raise Err('invalid partition')
        if not known:
            if not op.get('allow_label'):
                raise Err('invalid label')
        key = (loc, _attr_key(a))
        if key in st.quantities:
            if policy == 'abort':
                _qvalue(rec[op['value']])
                raise Err('exists')
            if policy == 'ignore':
                try:
                    _qvalue(rec[op['value']])
                except Err:
                    raise Unspecified('bad value for an ignored row')
                continue
            v = _qvalue(rec[op['value']])
            if policy == 'sum':
                v = st.quantities[key] + float(v)
            st.quantities[key] = v
        else:
            st.quantities[key] = _qvalue(rec[op['value']])


class Places(object):
    """(has a matching record, has a matching level) for one location, while
    the records stay as they are."""

    def __init__(self, st):
        self.columns, self.index, self.levels = list(st.columns), list(st.index.values()), st.levels()
        self.labels = {}

    def __call__(self, loc):
        at = tuple(k for k, x in zip(range(len(self.columns)), loc) if x)
        if at not in self.labels:
            self.labels[at] = {tuple(lab[k] for k in at) for lab in self.index}
        return tuple(loc[k] for k in at) in self.labels[at], \
            frozenset(self.columns[k] for k in at) in self.levels


def placeable(st, loc):
    return Places(st)(loc)


def m_delete_without_index(st, op, env):
    places = Places(st)
    st.quantities = {k: v for k, v in st.quantities.items() if places(k[0])[0]}


def m_delete_unmatched(st, op, env):
    places = Places(st)
    st.quantities = {k: v for k, v in st.quantities.items() if all(places(k[0]))}


_TABLE = {name[2:]: func for name, func in list(globals().items()) if name.startswith('m_')}


# ---------------------------------------------------------- disaggregation

class Refused(Exception):
    """Disaggregation or translation must be refused."""


def group_chooser(st):
    """attrs dict -> name of the weight group that applies (Refused if none)."""
    from . import selref
    if st.default is None or not st.groups[st.default]['is_complete']:
        raise Refused('no complete default weight group')
    cands = {n: [selref.parse(s) for s in g['selectors']] for n, g in st.groups.items()
             if g['is_complete'] and g['selectors']}
    return lambda attrs: selref.best_key(cands, attrs, st.default)


def full_attrs(st, attr):
    d = dict(attr)
    if st.domain:
        d['domain'] = st.domain
    return d


def disaggregate(st, choose_group, keep=None):
    """Exact shares: {(index_id, attr_key): Fraction} plus per-quantity list.

    ``choose_group(attrs dict)`` returns the group name; ``keep(attr_key)``
    filters attribute sets.  Raises Refused when a quantity cannot be placed.
    """
    from fractions import Fraction
    out = {}
    parts = []
    finest = _granularity(st, frozenset(st.columns))
    for (loc, attr), value in st.quantities.items():
        if keep is not None and not keep(attr):
            continue
        crit = {c: x for c, x in zip(st.columns, loc) if x != ''}
        level = frozenset(crit)
        if level not in st.levels():
            continue            # silently not placed
        ids = select(st, crit)
        if not ids:
            raise Refused('no matching record')
        real = [i for i in ids if i != 0]
        attrs = dict(attr)
        if st.domain:
            attrs['domain'] = st.domain
        group = choose_group(attrs)
        shares = split(st, group, real)
        rows = []
        for i, share in shares:
            rows.append((i, Fraction(value) * share))
            k = (i, attr)
            out[k] = out.get(k, Fraction(0)) + Fraction(value) * share
        parts.append(((loc, attr), value, rows))
    return out, parts


def _granularity(st, level):
    for s, g in st.structure:
        if s == level:
            return g
    return None


def split(st, group, real):
    """[(index_id, share)] for the defined records *real* (0 when empty)."""
    from fractions import Fraction
    if not real:
        return [(0, Fraction(1))]
    if len(real) == 1:
        return [(real[0], Fraction(1))]
    ws = [Fraction(st.weights[group, i]) for i in real]
    total = sum(ws)
    if total:
        return [(i, w / total) for i, w in zip(real, ws)]
    return [(i, Fraction(1, len(real))) for i in real]
