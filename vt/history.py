"""Run operation histories against real spaces and compare with the model.

Every step reads the actual contents before the operation, asks the model what
the operation must do, executes it, reads the contents afterwards and compares
the parts ("slices") a property speaks about.  The model never drifts because
each step starts from the contents actually observed.
"""
import traceback

from . import model, ops
from . import state as S
from .base import Violation, brief

TOL = 1e-9

# id sets <-> fingerprints seen anywhere in this process
_HASH_OF = {}
_IDS_OF = {}


def note_hash(rec, ids, digest, what):
    """The fingerprint is a function of the id set, and injective in practice."""
    ids = frozenset(ids)
    rec.ev()
    if _HASH_OF.setdefault(ids, digest) != digest:
        rec.fail(f'{what}: two fingerprints for the same records {brief(sorted(ids), 300)}')
    if _IDS_OF.setdefault(digest, ids) != ids:
        rec.fail(f'{what}: the same fingerprint for different records '
                 f'{brief(sorted(ids), 300)} and {brief(sorted(_IDS_OF[digest]), 300)}')


def raised(exc):
    return f'{type(exc).__name__}: {exc}'[:400]


class Mismatch(Violation):
    pass


def _cmp(rec, what, actual, expected, op):
    rec.ev()
    if actual != expected:
        if isinstance(actual, dict) and isinstance(expected, dict):
            extra = {k: actual[k] for k in actual if k not in expected or expected[k] != actual[k]}
            lack = {k: expected[k] for k in expected if k not in actual or actual[k] != expected[k]}
            text = f'observed {brief(extra, 700)}\n   expected {brief(lack, 700)}'
        else:
            text = f'observed {brief(actual, 700)}\n   expected {brief(expected, 700)}'
        raise Violation(f'{what} wrong after {brief(op, 900)}:\n   {text}')


# --------------------------------------------------------------- slices
# Each takes (rec, pre, exp, post, op): exp is the expected state (pre itself
# when the operation was refused) or None when the outcome is unspecified.

def align_new_ids(pre, exp, post):
    """Rename the model's new record ids to the ids actually given out."""
    new_exp = [i for i in exp.index if i not in pre.index]
    by_labels = {lab: i for i, lab in post.index.items() if i not in pre.index}
    ren = {}
    for i in new_exp:
        j = by_labels.get(exp.index[i])
        if j is not None and j != i:
            ren[i] = j
    if not ren:
        return exp
    exp = exp.copy()
    exp.index = {ren.get(i, i): v for i, v in exp.index.items()}
    exp.weights = {(g, ren.get(i, i)): v for (g, i), v in exp.weights.items()}
    exp.mappings = {k[:3] + (ren.get(k[3], k[3]),) + k[4:]: v for k, v in exp.mappings.items()}
    return exp


def sl_index(rec, pre, exp, post, op):
    und = tuple('-' for _ in post.columns)
    rec.check(post.index.get(0) == und or not post.columns,
              lambda: f'undefined record is {post.index.get(0)!r} after {op!r}')
    rec.check(0 in post.index, lambda: f'undefined record missing after {op!r}')
    live = list(post.index.values())
    rec.check(len(set(live)) == len(live) or not post.columns,
              lambda: f'duplicate label tuples after {op!r}: {live!r}')
    rec.check(all('' not in v for v in live), lambda: f'blank labels stored after {op!r}')
    fresh = [i for i in post.index if i not in pre.index]
    rec.check(all(i > pre.seq for i in fresh),
              lambda: f'id given out again after {op!r}: new {fresh}, largest ever {pre.seq}')
    rec.check(post.seq >= max(post.index) and post.seq >= pre.seq,
              lambda: f'id sequence went back from {pre.seq} to {post.seq} after {op!r}')
    if exp is not None:
        _cmp(rec, 'columns', post.columns, exp.columns, op)
        _cmp(rec, 'records', post.index, exp.index, op)


def sl_weights(rec, pre, exp, post, op):
    for (g, i), v in post.weights.items():
        rec.check(i != 0 and v >= 0 and v == v and v != float('inf'),
                  lambda: f'weight {v!r} of record {i} in group {g!r} after {op!r}')
    if len(post.index) > 1:
        for g in post.groups:
            truth = model.group_truth(post, g)
            rec.check(post.groups[g]['is_complete'] == truth,
                      lambda: f'group {g!r} reported complete={post.groups[g]["is_complete"]}, '
                              f'really {truth}, after {brief(op, 900)}')
    if exp is not None:
        _cmp(rec, 'weights', post.weights, exp.weights, op)


def _group_defs(st):
    return {g: (v['description'], _sel(v['selectors'])) for g, v in st.groups.items()}


def _sel(s):
    if s is None:
        return ()
    return tuple(s) if isinstance(s, list) else s


def sl_groups(rec, pre, exp, post, op):
    rec.check(post.default is None or post.default in post.groups,
              lambda: f'default group {post.default!r} does not exist after {op!r}')
    if exp is not None:
        _cmp(rec, 'weight groups', _group_defs(post), _group_defs(exp), op)
        _cmp(rec, 'default weight group', post.default, exp.default, op)


def _link_defs(st):
    return {k: (v['hint'], v['description'], _sel(v['selectors']), v['is_default'],
                v['user_properties']) for k, v in st.links.items()}


def sl_links(rec, pre, exp, post, op):
    for uid in {k[0] for k in post.links}:
        n = sum(v['is_default'] for k, v in post.links.items() if k[0] == uid)
        rec.check(n <= 1, lambda: f'{n} default links from {uid} after {op!r}')
    if exp is not None:
        _cmp(rec, 'links', _link_defs(post), _link_defs(exp), op)


def sl_mappings(rec, pre, exp, post, op):
    check_proportions(rec, post, op)
    if len(post.index) > 1:
        for key in post.links:
            truth = model.link_truth(post, key)
            rec.check(post.links[key]['complete'] == truth,
                      lambda: f'link {key!r} reported complete={post.links[key]["complete"]}, '
                              f'really {truth}, after {brief(op, 900)}')
    if exp is not None:
        _cmp(rec, 'mapping values', {k: v[0] for k, v in post.mappings.items()},
             {k: v[0] for k, v in exp.mappings.items()}, op)
        for k, (v, p) in exp.mappings.items():
            q = post.mappings[k][1]
            rec.check(p is None or (q is not None and abs(p - q) <= TOL),
                      lambda: f'proportion of {k!r} is {q!r}, expected {p!r}, after {brief(op, 900)}')


def check_proportions(rec, post, op):
    by = {}
    for k, (v, p) in post.mappings.items():
        by.setdefault(k[:3], []).append((k, v, p))
    for key, items in by.items():
        if key[2] == 0:
            continue
        total = sum(v for _, v, _ in items)
        ok = all(p is not None for _, _, p in items)
        rec.check(ok and abs(sum(p for _, _, p in items) - 1.0) <= TOL,
                  lambda: f'proportions of source record {key!r} sum to '
                          f'{[p for _, _, p in items]!r} after {brief(op, 900)}')
        if total:
            for k, v, p in items:
                rec.check(abs(p - v / total) <= TOL,
                          lambda: f'proportion of {k!r} is {p!r}, value {v!r} of total {total!r}, '
                                  f'after {brief(op, 900)}')


def sl_quantities(rec, pre, exp, post, op):
    if exp is not None:
        _cmp(rec, 'quantities', _typed(post.quantities), _typed(exp.quantities), op)


def _typed(q):
    return {k: float(v) for k, v in q.items()}


def sl_structure(rec, pre, exp, post, op):
    if not post.columns:
        return
    if not post.partitions and not post.structure:
        return
    levels = [s for s, g in post.structure]
    rec.check(len(set(levels)) == len(levels), lambda: f'duplicate levels after {op!r}')
    want = post.levels()
    rec.check(set(levels) == want,
              lambda: f'levels {_lv(levels)} are not the closure {_lv(want)} of '
                      f'{_lv(post.partitions)} after {brief(op, 900)}')
    for s, g in post.structure:
        t = model.entropy(post, s)
        rec.check((g is None) == (t is None) and (g is None or abs(g - t) <= 1e-9),
                  lambda: f'granularity of {sorted(s)} is {g!r}, should be {t!r}, '
                          f'after {brief(op, 900)}')
    if exp is not None:
        rec.check(post.levels() == exp.levels(),
                  lambda: f'levels {_lv(post.levels())}, expected {_lv(exp.levels())}, '
                          f'after {brief(op, 900)}')


def _lv(levels):
    return sorted(sorted(x) for x in levels)


def sl_meta(rec, pre, exp, post, op):
    if exp is not None:
        _cmp(rec, 'domain', post.domain, exp.domain, op)
        _cmp(rec, 'registered attributes', post.registered, exp.registered, op)
        _cmp(rec, 'display order', post.order, exp.order, op)
        _cmp(rec, 'unique id', post.unique_id, exp.unique_id, op)
        _cmp(rec, 'user properties', post.props, exp.props, op)


def sl_hash(rec, pre, exp, post, op):
    note_hash(rec, post.index, post.index_hash, f'after {brief(op, 500)}')
    same = set(pre.index) == set(post.index)
    rec.check((pre.index_hash == post.index_hash) == same,
              lambda: f'fingerprint {"changed" if same else "did not change"} '
                      f'by {brief(op, 900)}')
    for key, ln in post.links.items():
        mapped = {k[2] for k in post.mappings if k[:2] == key}
        if ln['hash'] is not None and mapped:
            note_hash(rec, mapped | {0}, ln['hash'], f'link {key!r} after {brief(op, 500)}')
        if ln['hash'] is None:
            rec.check(not mapped, lambda: f'link {key!r} has mappings but no fingerprint after {op!r}')


def sl_problems(rec, pre, exp, post, op):
    rec.check(not post.problems, lambda: f'{post.problems[:4]!r} after {brief(op, 900)}')


SLICES = {
    'index': sl_index, 'weights': sl_weights, 'groups': sl_groups, 'links': sl_links,
    'mappings': sl_mappings, 'quantities': sl_quantities, 'structure': sl_structure,
    'meta': sl_meta, 'hash': sl_hash, 'problems': sl_problems,
}
ALL = tuple(SLICES)


class Driver(object):
    """One space under observation plus the others it links to."""

    def __init__(self, rec, space, env, slices, read=None):
        self.rec = rec
        self.space = space
        self.env = env
        self.slices = slices
        self.read = read or S.space_state
        self.state = self.read(space)
        self.log = []
        self.last = None

    def step(self, op, check=True):
        """Apply *op*; returns 'ok', 'err' or 'any:ok'/'any:err'."""
        rec = self.rec
        pre = self.state
        verdict, exp = model.expect(pre, op, self.env)
        err = None
        try:
            ops.apply(self.space, op, self.env)
        except Exception as e:     # noqa: BLE001 - every refusal counts
            err = e
        self.log.append((op, raised(err) if err else 'ok'))
        post = self.state = self.read(self.space)
        self.pre = pre
        rec.count(f'op_{op["op"]}')
        rec.count('old_helpers', bool(op.get('legacy')))
        if verdict == 'ok':
            if err is not None:
                tb = ''.join(traceback.format_exception(type(err), err, err.__traceback__)[-3:])
                rec.fail(f'refused although valid: {brief(op, 1200)}\n   {tb[-900:]}')
            target = align_new_ids(pre, exp, post)
            rec.count('steps_ok')
            if target.index != pre.index or target.weights != pre.weights or \
                    target.mappings != pre.mappings or target.quantities != pre.quantities:
                rec.count('steps_changing')
            out = 'ok'
        elif verdict == 'err':
            if err is None:
                rec.fail(f'accepted although it must be refused ({exp}): {brief(op, 1200)}')
            target = pre
            rec.count('steps_refused')
            out = 'err'
        else:
            target = pre if err is not None else None
            rec.count('steps_unspecified')
            out = 'any:' + ('err' if err else 'ok')
        if check:
            for name in self.slices:
                SLICES[name](rec, pre, target, post, op)
        rec.sig((op['op'], out, op.get('form'), op.get('on_label'), op.get('on_weight'),
                 op.get('on_conflict'), op.get('on_existing'), 'criteria' in op, bool(op.get('merge')),
                 min(len(op.get('rows', ())), 4), shape(pre)))
        self.last = err
        return out


def shape(st):
    """A coarse description of a state, for counting distinct situations."""
    b = lambda n: min(n, 6)
    return (len(st.columns), b(len(st.index)), len(st.groups), b(len(st.weights)),
            len(st.links), b(len(st.mappings)), b(len(st.quantities)), len(st.levels()),
            st.domain != '', len(st.registered), st.default is not None,
            any(v['is_complete'] for v in st.groups.values()),
            any(v['complete'] for v in st.links.values()))
