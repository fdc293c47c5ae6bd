"""C04: a failed operation changes nothing and leaves the space usable."""
import gc

from vt import gen, hist, history, inject, model, ops, store, views
from vt import state as S
from vt.base import brief

PROPERTY = 'C04'
LEVEL = 'fault_enumeration'
RULE = ('Random histories; before selected operations the operation is run on a copy to count its '
        'database events, then repeated with a fault at chosen events (database error, interrupt before '
        'or after the statement, abort inside the engine, full disk, failing fetch, failing '
        'connect) and at every input row; after each fault the raw contents must equal those '
        'before, and the final repetition without fault must give the contents of the clean run; a '
        'situation is one (operation, fault kind, kind of statement, storage, outcome).')
ASSUMPTIONS = ['faults are delivered at the sqlite3 interface; ROLLBACK itself never fails and a '
               'COMMIT that executed is durable']
MIN = {'faults_fired': 5000, 'row_faults': 700, 'kind_err': 500, 'kind_late': 300, 'kind_mid': 300,
       'kind_full': 100, 'kind_kbd': 300, 'retried': 350, 'refused_unchanged': 100,
       'open_iterator': 40}
MIX = gen.mix(0.8, reify=1.2, delete_unmatched=1, delete_without_index=0.8, drop_columns=0.8,
              set_attrs=0.5)
CASE_LIMIT = 120

inject.ENABLED = True


class RowFault(Exception):
    pass


def plan(tier, seed):
    specs = hist.plan(PROPERTY, tier, seed, 1100, 9000, steps=14, bulk=(140, 1100, 300, 60, 600))
    for s in specs:
        s['per_op'] = 14 if tier == 'quick' else 60
        if s.get('bulk'):
            s['per_op'] //= 4
    return specs


def clone(h, d):
    """The same contents in a fresh space of the same storage kind."""
    path = d.path()
    h.space.to_file(path, fsync=False)
    return store.load(path, h.spec['store'])


def attempt(space, op, env, plan=None, fault=None):
    """Returns the exception raised, or None."""
    inject.arm(plan)
    try:
        ops.apply(space, op, env, fault)
    except (Exception, KeyboardInterrupt) as e:
        e.__traceback__ = None
        return e
    finally:
        inject.disarm()
    return None


def family(op):
    return op['op']


def probe(h, d, op):
    """Run all faults for one operation; leaves the operation applied if it is valid."""
    rec, rng, env = h.rec, h.rng, h.env
    pre = S.full(h.state)
    twin = clone(h, d)
    count = inject.Plan()
    err = attempt(twin, op, env, count)
    result = S.full(S.space_state(twin))
    twin = None
    if err is not None:
        rec.check(result == pre, lambda: f'{brief(op, 900)} raised {history.raised(err)} but changed '
                                         f'the contents: {S.diff(pre, result)}')
        rec.count('refused_unchanged')
    n = count.n
    rec.count('events_seen', n)
    # which events to hit
    writes = [i + 1 for i, (l, q) in enumerate(count.trace) if l == 'S' and inject.is_write(q)]
    ends = [i + 1 for i, (l, q) in enumerate(count.trace)
            if l == 'S' and q.lstrip()[:6].upper() in ('COMMIT', 'END TR', 'RELEAS', 'SAVEPO')]
    budget = h.spec['per_op']
    targets = []
    for w in writes:
        targets += [(w, 'err'), (w, 'late'), (w, 'mid'), (w, 'full'), (w, 'kbd')]
    targets += [(e, k) for e in ends for k in ('err', 'kbd')]
    rng.shuffle(targets)
    targets = targets[:budget * 2 // 3]
    for _ in range(budget - len(targets)):
        if n:
            targets.append((rng.randint(1, n), rng.choice(['err', 'kbd', 'late', 'mid', 'full'])))
    targets.sort(key=lambda t: t[1] in ('mid', 'full'))    # these may be absorbed, ending the probe
    done = False
    for at, kind in targets:
        p = inject.Plan(at, kind)
        e = attempt(h.space, op, env, p)
        if p.fired is None:
            if e is None:
                done = True
                break
            continue
        rec.count('faults_fired')
        rec.count(f'kind_{kind}')
        after = S.full(h.driver.read(h.space))
        what = (f'{brief(op, 900)} with fault {kind!r} at event {at}/{n} '
                f'({p.fired.strip()[:150]!r})')
        stmt = ' '.join(p.fired.split()[:3])
        if e is not None and after == pre:
            # the object itself must not remember anything of the failed call
            views.light(rec, h.space, h.state, what)
            rec.count('listed_after_fault')
        if e is None:
            rec.check(after == result and err is None,
                      lambda: f'{what}: no error reported, contents differ from a clean run: '
                              f'{S.diff(result, after)}')
            done = True
            rec.sig((op['op'], kind, stmt, h.spec['store'], 'absorbed'))
            rec.count('absorbed')
            break
        if op.get('legacy') and stmt == 'PRAGMA foreign_keys=ON' and err is None and after == result:
            rec.count('fault_after_end')    # the change was complete before this statement
            done = True
            break
        rec.check(after == pre, lambda: f'{what}: raised {history.raised(e)} but the contents changed: '
                                        f'{S.diff(pre, after)}')
        if kind in ('kbd', 'late'):
            rec.check(isinstance(e, KeyboardInterrupt) or isinstance(e.__context__, KeyboardInterrupt)
                      or err is not None,
                      lambda: f'{what}: interrupt turned into {history.raised(e)}')
        rec.sig((op['op'], kind, stmt, h.spec['store'], type(e).__name__))
    # faults of the input itself
    if not done and op['op'] in ops.TABLE_OPS and 'rows' in op:
        m = len(op['rows']) + 1
        for i in range(m + 1):
            for exc in (RowFault('injected row fault'), KeyboardInterrupt('row')):
                hit = []

                def fault(k, i=i, exc=exc):
                    if k == i:
                        hit.append(k)
                        raise exc
                e = attempt(h.space, op, env, None, fault)
                if not hit:
                    if e is None:
                        done = True
                    break
                rec.count('row_faults')
                after = S.full(h.driver.read(h.space))
                if e is None:
                    rec.check(False, lambda: f'{brief(op, 900)}: error raised by the input at row {i} '
                                             f'was swallowed')
                rec.check(after == pre, lambda: f'{brief(op, 900)}: input raised at row {i} but the '
                                                f'contents changed: {S.diff(pre, after)}')
                views.light(rec, h.space, h.state, f'{brief(op, 900)}: input raised at row {i}')
                rec.sig((op['op'], 'row', type(exc).__name__, i, h.spec['store']))
            if done:
                break
    # half-read selections held open by the caller
    if not done and rng.random() < 0.25 and h.spec['store'] == 'mem':
        it = open_iterator(h, rng)
        if it is not None:
            e = attempt(h.space, op, env)
            it.close()
            del it
            gc.collect()
            after = S.full(h.driver.read(h.space))
            rec.count('open_iterator')
            if e is None:
                rec.check(err is None and after == result,
                          lambda: f'{brief(op, 900)} with a half-read selection open: contents differ '
                                  f'from a clean run: {S.diff(result, after)}')
                done = True
            else:
                rec.check(after == pre, lambda: f'{brief(op, 900)} with a half-read selection open raised '
                                                f'{history.raised(e)} but changed: {S.diff(pre, after)}')
    if not done:
        e = attempt(h.space, op, env)
        after = S.full(h.driver.read(h.space))
        rec.check((e is None) == (err is None),
                  lambda: f'{brief(op, 900)}: after faults the repetition '
                          f'{"raised " + history.raised(e) if e else "succeeded"}, a clean run '
                          f'{"raised " + history.raised(err) if err else "succeeded"}')
        rec.check(after == result, lambda: f'{brief(op, 900)}: repetition after faults differs from a '
                                           f'clean run: {S.diff(result, after)}')
        rec.count('retried')
    h.driver.state = h.driver.read(h.space)
    h.driver.log.append((op, 'probed'))


def open_iterator(h, rng):
    kind = rng.choice(['index', 'weights', 'quantities'])
    try:
        if kind == 'index':
            it = h.space.select_index(header=False)
        elif kind == 'weights' and h.state.groups:
            it = h.space.select_weights(sorted(h.state.groups)[0], header=False)
        else:
            it = h.space.select_quantities2(header=False)
        next(it)
        return it
    except (StopIteration, RuntimeError):
        return None


def look(h, op, outcome):
    if outcome.endswith('err') and h.driver.pre is not None:
        h.rec.check(S.full(h.driver.pre) == S.full(h.state),
                    lambda: f'{brief(op, 900)} was refused but changed the contents: '
                            f'{S.diff(S.full(h.driver.pre), S.full(h.state))}')
        h.rec.count('refused_unchanged')
        views.light(h.rec, h.space, h.state, f'{brief(op, 900)} was refused')


def run_case(spec, rec):
    from vt.base import Violation, case_dir, rng_for
    rng = rng_for('case', spec['seed'])
    with case_dir() as d:
        h = hist.History(spec, rec, rng, d, (), MIX, gen.Gen)
        try:
            for f in gen.base_ops(h.gen, rng):
                op = f(h.state)
                if op:
                    h.step(op, look)
            for k in range(spec['steps']):
                op = h.gen.op(h.state)
                if rng.random() < 0.3:
                    probe(h, d, op)
                else:
                    h.step(op, look)
        except Violation as e:
            tail = '\n'.join(f'      {o!r} -> {r}'[:600] for o, r in h.driver.log[-6:])
            raise Violation(f'{e.message}\n   history {spec["seed"]} ({spec["store"]}):\n{tail}',
                            mech=e.mech)
        finally:
            inject.disarm()
            h.close()
        rec.count('histories')
        rec.sample(f'history {spec["seed"]} ({spec["store"]}): ' +
                   '; '.join(f'{o["op"]} -> {r[:60]}' for o, r in h.driver.log[-4:]))
