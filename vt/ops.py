"""Applying JSON-serialisable operations to real spaces.

An operation is a dict ``{'op': name, ...}``.  ``Env`` maps short keys to the
other spaces an operation may refer to.  Mapping levels are written as a list
of column names (or ``None``, or ``'!'`` for a level that never exists).
"""
import csv
import dataclasses
import io

from .state import level_bytes


class Env(object):
    """The other spaces an operation may mention: key -> DataSpace."""

    def __init__(self, others=None):
        self.others = dict(others or {})

    def uid(self, key):
        return self.others[key].unique_id

    def ref(self, op):
        key = op['other']
        if 'by' in op:
            return self.others[key].unique_id[:op['by']]
        return self.others.get(key, key)


# ------------------------------------------------------------ input forms

FORMS = ('header', 'columns', 'dicts', 'gen_header', 'gen_columns', 'gen_dicts',
         'tuples', 'dicts_columns')
TEXT_FORMS = ('csv', 'dictcsv')


def present(columns, rows, form='header', fault=None):
    """Return positional arguments (data, columns) presenting one table.

    ``fault`` is an optional callable invoked before row *i* is produced.
    """
    columns = list(columns)
    rows = [list(r) for r in rows]

    def walk(items):
        for i, item in enumerate(items):
            if fault is not None:
                fault(i)
            yield item
        if fault is not None:
            fault(len(rows) if not items else len(items))

    if form == 'header':
        data = [columns] + rows
        return (walk(data) if fault else data), None
    if form == 'tuples':
        data = [tuple(columns)] + [tuple(r) for r in rows]
        return (walk(data) if fault else data), None
    if form == 'columns':
        return (walk(rows) if fault else rows), columns
    if form == 'dicts':
        data = [dict(zip(columns, r)) for r in rows]
        return (walk(data) if fault else data), None
    if form == 'dicts_columns':
        data = [dict(zip(columns, r)) for r in rows]
        return (walk(data) if fault else data), columns
    if form == 'gen_header':
        return walk([columns] + rows), None
    if form == 'gen_columns':
        return walk(rows), columns
    if form == 'gen_dicts':
        return walk([dict(zip(columns, r)) for r in rows]), None
    if form in TEXT_FORMS:
        buf = io.StringIO()
        w = csv.writer(buf)
        w.writerow(columns)
        w.writerows(rows)
        text = buf.getvalue()
        if form == 'csv':
            return csv.reader(io.StringIO(text)), None
        return csv.DictReader(io.StringIO(text)), None
    raise AssertionError(form)


def usable_forms(columns, rows):
    """Forms that present exactly this table (no duplicates, not empty, ...)."""
    forms = ['header', 'columns', 'gen_header', 'gen_columns', 'tuples']
    same_length = all(len(r) == len(columns) for r in rows)
    if rows and same_length and len(set(columns)) == len(columns):
        forms += ['dicts', 'gen_dicts', 'dicts_columns']
    if same_length and rows and all(isinstance(x, str) for r in rows for x in r):
        forms += ['csv', 'dictcsv']
    return forms


# -------------------------------------------------------------- application

def _table(op, fault=None):
    return present(op['columns'], op['rows'], op.get('form', 'header'), fault)


def _mapping_level(cols, level):
    if level is None:
        return None
    if level == '!':
        return b'\xff\xff\xff'
    if isinstance(level, str):
        return bytes.fromhex(level)
    return level_bytes(cols, level)


def apply(space, op, env=None, fault=None):
    """Execute one operation; exceptions propagate.  Returns a plain result."""
    name = op['op']
    func = _TABLE[name]
    return func(space, op, env or Env(), fault)


def _kw(op, *names):
    return {k: op[k] for k in names if k in op and op[k] is not ...}


def dal1():
    import toron.dal1       # (the helpers for Pythons with an old SQLite live there)
    return toron.dal1


def _add_columns(s, op, env, fault):
    s.add_index_columns(*op['cols'])


def _drop_columns(s, op, env, fault):
    if op.get('legacy'):
        return dal1().legacy_drop_labels(s, *op['cols'])
    s.drop_index_columns(*op['cols'])


def _rename_columns(s, op, env, fault):
    if op.get('legacy'):
        return dal1().legacy_rename_labels(s, dict(op['mapping']))
    s.rename_index_columns(dict(op['mapping']))


def _rename_label(s, op, env, fault):
    s.rename_label_column(op['old'], op['new'])


def _label_order(s, op, env, fault):
    s.change_label_order(op['label'], op['offset'])


def _set_domain(s, op, env, fault):
    s.set_domain(op['domain'])


def _add_partition(s, op, env, fault):
    s.add_partition_definition(set(op['partition']))


def _add_partitions(s, op, env, fault):
    s.add_partition_definitions(*[set(p) for p in op['partitions']])


def _drop_partitions(s, op, env, fault):
    s.drop_partition_definitions(*[set(p) for p in op['partitions']])


def _set_attrs(s, op, env, fault):
    s.set_registered_attributes(list(op['attrs']))


def _attr_order(s, op, env, fault):
    s.change_attribute_order(op['attr'], op['offset'])


def _insert_index(s, op, env, fault):
    data, cols = _table(op, fault)
    s.insert_index(data, cols, weights=op.get('weights'),
                   on_label_conflict=op.get('on_label', 'abort'),
                   on_weight_conflict=op.get('on_weight', 'abort'))


def _update_index(s, op, env, fault):
    data, cols = _table(op, fault)
    s.update_index(data, cols, merge_on_conflict=bool(op.get('merge')))


def _delete_index(s, op, env, fault):
    if 'criteria' in op:
        s.delete_index(**op['criteria'])
    else:
        data, cols = _table(op, fault)
        s.delete_index(data, cols)


def _add_group(s, op, env, fault):
    s.add_weight_group(op['name'], op.get('description'), op.get('selectors'),
                       make_default=op.get('make_default'))


def _edit_group(s, op, env, fault):
    s.edit_weight_group(op['name'], **op['changes'])


def _drop_group(s, op, env, fault):
    s.drop_weight_group(op['name'])


def _set_default(s, op, env, fault):
    group = s.get_weight_group(op['name'])
    if op.get('gone'):
        group = dataclasses.replace(group, id=op['gone'])   # as of a group removed since
    s.set_default_weight_group(group)


def _insert_weights(s, op, env, fault):
    data, cols = _table(op, fault)
    s.insert_weights(op['name'], data, cols, value_column=op.get('value_column'),
                     on_conflict=op.get('on_conflict', 'abort'))


def _update_weights(s, op, env, fault):
    data, cols = _table(op, fault)
    s.update_weights(op['name'], data, cols, value_column=op.get('value_column'))


def _delete_weights(s, op, env, fault):
    if 'criteria' in op:
        s.delete_weights(op['name'], **op['criteria'])
    else:
        data, cols = _table(op, fault)
        s.delete_weights(op['name'], data, cols)


def _add_link(s, op, env, fault):
    s.add_link(env.others[op['other']], op['name'],
               **{k: op[k] for k in ('other_filename_hint', 'description', 'selectors',
                                     'is_default', 'user_properties') if k in op})


def _edit_link(s, op, env, fault):
    s.edit_link(env.ref(op), op['name'], **op['changes'])


def _drop_link(s, op, env, fault):
    s.drop_link(env.ref(op), op['name'])


def _mapping_rows(s, op):
    """Convert symbolic levels of the 'mapping_level' column to bytes."""
    if 'mapping_level' not in op['columns']:
        return op
    cols = s.index_columns
    pos = list(op['columns']).index('mapping_level')
    rows = []
    for r in op['rows']:
        r = list(r)
        if pos < len(r):
            r[pos] = _mapping_level(cols, r[pos])
        rows.append(r)
    return dict(op, rows=rows)


def _insert_mappings(s, op, env, fault):
    data, cols = _table(_mapping_rows(s, op), fault)
    s.insert_mappings(env.ref(op), op['name'], data, cols)


def _insert_mappings2(s, op, env, fault):
    data, cols = _table(_mapping_rows(s, op), fault)
    s.insert_mappings2(env.ref(op), op['name'], data, cols)


def _update_mappings(s, op, env, fault):
    data, cols = _table(_mapping_rows(s, op), fault)
    s.update_mappings(env.ref(op), op['name'], data, cols)


def _delete_mappings(s, op, env, fault):
    if 'criteria' in op:
        s.delete_mappings(env.ref(op), op['name'], **op['criteria'])
    else:
        data, cols = _table(_mapping_rows(s, op), fault)
        s.delete_mappings(env.ref(op), op['name'], data, cols)


def _reify(s, op, env, fault):
    s.reify_mappings(env.ref(op), op['name'], **op.get('criteria', {}))


def _insert_quantities(s, op, env, fault):
    data, cols = _table(op, fault)
    s.insert_quantities(value=op['value'], attributes=op['attributes'], data=data, columns=cols)


def _insert_quantities2(s, op, env, fault):
    data, cols = _table(op, fault)
    s.insert_quantities2(value_column=op['value'], data=data, columns=cols,
                         allow_invalid_label=bool(op.get('allow_label')),
                         allow_invalid_partition=bool(op.get('allow_partition')),
                         on_existing=op.get('on_existing', 'abort'))


def _delete_without_index(s, op, env, fault):
    s.delete_quantities_without_index()


def _delete_unmatched(s, op, env, fault):
    s.delete_unmatched_quantities()


_TABLE = {
    'add_columns': _add_columns, 'drop_columns': _drop_columns,
    'rename_columns': _rename_columns, 'rename_label': _rename_label,
    'label_order': _label_order, 'set_domain': _set_domain,
    'add_partition': _add_partition, 'add_partitions': _add_partitions,
    'drop_partitions': _drop_partitions, 'set_attrs': _set_attrs,
    'attr_order': _attr_order, 'insert_index': _insert_index,
    'update_index': _update_index, 'delete_index': _delete_index,
    'add_group': _add_group, 'edit_group': _edit_group, 'drop_group': _drop_group,
    'set_default': _set_default, 'insert_weights': _insert_weights,
    'update_weights': _update_weights, 'delete_weights': _delete_weights,
    'add_link': _add_link, 'edit_link': _edit_link, 'drop_link': _drop_link,
    'insert_mappings': _insert_mappings, 'insert_mappings2': _insert_mappings2,
    'update_mappings': _update_mappings, 'delete_mappings': _delete_mappings,
    'reify': _reify, 'insert_quantities': _insert_quantities,
    'insert_quantities2': _insert_quantities2,
    'delete_without_index': _delete_without_index,
    'delete_unmatched': _delete_unmatched,
}

TABLE_OPS = ('insert_index', 'update_index', 'delete_index', 'insert_weights',
             'update_weights', 'delete_weights', 'insert_mappings',
             'insert_mappings2', 'update_mappings', 'delete_mappings',
             'insert_quantities', 'insert_quantities2')
