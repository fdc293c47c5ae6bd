"""Reference for disaggregation and translation, in exact arithmetic."""
from fractions import Fraction

from . import model, selref
from .base import brief
from .model import Refused


class Flow(object):
    """Values by (record id, attribute set) with the magnitudes behind them."""

    def __init__(self):
        self.val, self.mag = {}, {}

    def add(self, key, v, m=None):
        self.val[key] = self.val.get(key, Fraction(0)) + v
        self.mag[key] = self.mag.get(key, Fraction(0)) + (abs(v) if m is None else m)


def attr_key(d):
    return tuple(sorted(d.items()))


def disaggregate(st, selectors=(), sum_by=None, quant=None):
    """What space(*selectors, sum_by_attrs=sum_by) must return, before rounding."""
    choose = model.group_chooser(st)
    sels = [selref.parse(s) for s in selectors]
    keep = (lambda attr: any(selref.match(s, dict(attr)) for s in sels)) if sels else None
    _, parts = model.disaggregate(st, choose, keep)
    flow = Flow()
    names = None
    if sum_by:
        names = {sum_by} if isinstance(sum_by, str) else set(sum_by)
        if st.domain:
            names.add('domain')
    for (loc, attr), value, rows in parts:
        d = model.full_attrs(st, attr)
        if names is not None:
            d = {k: v for k, v in d.items() if k in names}
        key = attr_key(d)
        for i, share in rows:
            flow.add((i, key), share)
    return flow, parts


def usable_links(src, trg):
    """Links of *trg* from *src* that are current."""
    ids = set(src.index)
    out = []
    for k in trg.links:
        if k[0] != src.unique_id:
            continue
        mapped = {m[2] for m in trg.mappings if m[:2] == k} | {0}
        if trg.links[k]['hash'] is not None and mapped == ids:
            out.append(k)
    return out


def link_chooser(src, trg):
    if not any(k[0] == src.unique_id for k in trg.links):
        raise Refused('no link')
    links = usable_links(src, trg)
    default = [k for k in links if trg.links[k]['is_default']]
    if not default:
        raise Refused('no current default link')
    cands = {k: [selref.parse(s) for s in trg.links[k]['selectors']]
             for k in links if trg.links[k]['complete'] and trg.links[k]['selectors']}
    return lambda attrs: selref.best_key(cands, attrs, default[0])


def translate(flow, src, trg):
    """The flow after >> (uses the stored proportions)."""
    choose = link_chooser(src, trg)
    by = {}
    for k, (v, p) in trg.mappings.items():
        by.setdefault((k[:2], k[2]), []).append((k[3], Fraction(p)))
    out = Flow()
    links = {}
    for (i, key), v in flow.val.items():
        m = flow.mag[i, key]
        if i == 0:
            out.add((0, key), v, m)
            continue
        if key not in links:
            links[key] = choose(dict(key))
        for j, p in by.get((links[key], i), ()):
            out.add((j, key), v * p, m * p)
    return out, links


def read_rows(rec, reader, st, what):
    """Rows of a reader as {(labels, attr_key): value}; checks form and uniqueness."""
    cols = list(reader.columns)
    n = len(st.columns)
    rec.eq(cols[:n], list(st.columns), f'{what}: label columns')
    rec.eq(cols[-1], 'value', f'{what}: value column')
    names = cols[n:-1]
    rec.eq(names, sorted(names), f'{what}: attribute columns')
    out = {}
    for row in reader:
        rec.check(len(row) == len(cols), f'{what}: row {row!r} does not fit columns {cols!r}')
        labels = tuple(row[:n])
        key = tuple((a, x) for a, x in zip(names, row[n:-1]) if x is not None)
        rec.check((labels, key) not in out, f'{what}: row {row!r} returned twice')
        out[labels, key] = row[-1]
    rec.count('reader_rows', len(out))
    return out


def compare(rec, got, flow, st, what, rel=1e-9):
    """Rows vs reference; a missing row counts as zero."""
    exp, mag = {}, {}
    for (i, key), v in flow.val.items():
        k = (st.index[i], key)
        exp[k] = v
        mag[k] = flow.mag[i, key]
    for k in set(got) | set(exp):
        a, b = got.get(k, 0), exp.get(k, Fraction(0))
        tol = float(mag.get(k, 0)) * rel + 1e-300
        rec.ev()
        if a is None or a != a or abs(a) == float('inf') or abs(Fraction(a) - b) > tol:
            rec.fail(f'{what}: share of record {k[0]!r} for {dict(k[1])!r} is {a!r}, '
                     f'expected {float(b)!r}')
    totals, scale = {}, {}
    for (i, key), v in flow.val.items():
        totals[key] = totals.get(key, Fraction(0)) + v
        scale[key] = scale.get(key, Fraction(0)) + flow.mag[i, key]
    seen = {}
    for (lab, key), v in got.items():
        seen[key] = seen.get(key, Fraction(0)) + Fraction(v)
    for key, t in totals.items():
        rec.ev()
        if abs(seen.get(key, Fraction(0)) - t) > float(scale[key]) * rel + 1e-300:
            rec.fail(f'{what}: total for {dict(key)!r} is {float(seen.get(key, 0))!r}, '
                     f'stored quantities give {float(t)!r}')
    return brief(sorted(got.items(), key=repr)[:3], 400)


def group_totals(flow):
    out = {}
    for (i, key), v in flow.val.items():
        out[key] = out.get(key, Fraction(0)) + v
    return out


def heal(st, gen, p=0.8):
    """Operations that make a space fit for disaggregation again."""
    out = []
    if not st.columns or len(st.index) < 2:
        return out
    if not st.groups:
        out.append({'op': 'add_group', 'name': 'g1', 'make_default': True})
        return out
    for g in sorted(st.groups):
        rows = [[i] + list(lab) + [gen.value()] for i, lab in st.index.items()
                if i and (g, i) not in st.weights]
        if rows and gen.p(p):
            out.append(dict(gen.table({'op': 'insert_weights', 'name': g, 'value_column': 'val'},
                                      ['index_id'] + list(st.columns) + ['val'], rows)))
    if st.default is None:
        out.append({'op': 'set_default', 'name': sorted(st.groups)[0]})
    if any(not all(model.placeable(st, k[0])) for k in st.quantities) and gen.p(p):
        out.append({'op': 'delete_unmatched'})
    return out
