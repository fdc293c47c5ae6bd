"""Everything a caller can read from a space, as plain comparable values.

``snapshot`` returns {query name: ('ok', value) | ('raised', type, text)}.
Rows are compared as multisets: their order is not promised.
"""
from toron.graph import get_mapping, get_weights

from .state import level_columns


def _rows(it):
    return sorted((tuple(r) for r in it), key=repr)


def _headed(it):
    it = iter(it)
    return [tuple(next(it))] + _rows(it)


def _reader(r):
    cols = tuple(r.columns)
    out = (cols, _rows(r))
    r.close()
    return out


def queries(space, others, selectors=(), sums=None):
    q = {
        'unique_id': lambda: space.unique_id,
        'domain': lambda: space.domain,
        'index_columns': lambda: list(space.index_columns),
        'label order': lambda: list(space.get_label_columns()),
        'partitions': lambda: sorted(sorted(p) for p in space.partition_definitions),
        'attributes': lambda: list(space.get_registered_attributes()),
        'max_index_id': lambda: space.max_index_id,
        'index': lambda: _headed(space.select_index(header=True)),
        'groups': lambda: sorted((g.name, g.description, tuple(g.selectors or ()), g.is_complete)
                                 for g in space.weight_groups),
        'default': lambda: getattr(space.get_default_weight_group(), 'name', None),
        'links': lambda: sorted(((ln.other_unique_id, ln.name, ln.other_filename_hint, ln.description,
                                  tuple(ln.selectors or ()), ln.is_default, repr(ln.user_properties),
                                  ln.other_index_hash, ln.is_locally_complete)
                                 for ln in space.links), key=repr),
        'quantities': lambda: _headed(space.select_quantities()),
        'quantities2': lambda: _headed(space.select_quantities2()),
        'without index': lambda: _headed(space.select_quantities_without_index()),
        'unmatched': lambda: _headed(space.select_unmatched_quantities()),
        'all weights': lambda: _headed(get_weights(space)),
        'disaggregated': lambda: _reader(space(*selectors, sum_by_attrs=sums)),
        'disaggregated whole': lambda: _reader(space(*selectors, sum_by_attrs=sums, quantize=True)),
    }
    try:
        for g in space.weight_groups:
            q[f'weights of {g.name}'] = lambda g=g: _headed(space.select_weights(g.name, header=True))
        for ln in space.links:
            q[f'mappings of {ln.other_unique_id} {ln.name}'] = lambda ln=ln: _headed(
                space.select_mappings(ln.other_unique_id, ln.name, header=True))
        for key, other in others.items():
            if any(ln.other_unique_id == other.unique_id for ln in space.links):
                q[f'translated from {key}'] = lambda other=other: _reader(other() >> space)
                for ln in space.links:
                    if ln.other_unique_id == other.unique_id:
                        q[f'get_mapping {key} {ln.name}'] = lambda ln=ln, other=other: _headed(
                            get_mapping(other, space, ln.name))
    except Exception as e:      # noqa: BLE001 - reported as a difference of the listing itself
        q['listing'] = lambda e=e: repr(e)
    return q


def snapshot(space, others=(), selectors=(), sums=None, only=None):
    out = {}
    for name, f in queries(space, dict(others), selectors, sums).items():
        if only is not None and name not in only:
            continue
        try:
            out[name] = ('ok', f())
        except Exception as e:      # noqa: BLE001
            out[name] = ('raised', type(e).__name__, str(e))
    return out


def differences(a, b):
    out = []
    for k in sorted(set(a) | set(b)):
        if a.get(k) != b.get(k):
            out.append(f'{k}: {_brief(a.get(k), b.get(k))}')
    return out


def _brief(x, y):
    if x and y and x[0] == y[0] == 'ok' and isinstance(x[1], list) and isinstance(y[1], list):
        return (f'only first {[i for i in x[1] if i not in y[1]][:4]!r}, '
                f'only second {[i for i in y[1] if i not in x[1]][:4]!r}')
    return f'{x!r} / {y!r}'[:900]
