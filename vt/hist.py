"""Random histories as cases of a check (used by the model-based properties)."""
from . import gen, history, ops, store, views
from .base import Violation, case_dir, rng_for

STORES = ['mem'] * 6 + ['cache', 'file']


BULK = (1100, 300, 2300, 600, 1030, 140)


def plan(prop, tier, seed, quick, thorough, steps=25, bulk=BULK, **kw):
    n = quick if tier == 'quick' else thorough
    specs = []
    for i in range(n):
        rng = rng_for('plan', prop, seed, i)
        specs.append(dict(seed=f'{prop}-{seed}-{i}', steps=steps,
                          size=rng.choice([4, 6, 8, 8, 10] if tier == 'quick' else [4, 6, 8, 10, 14]),
                          wild=rng.choice([0.02, 0.08, 0.15]),
                          store=rng.choice(STORES), moves=rng.random() < 0.25, **kw))
        if bulk and i % 40 == 7:
            # many records: batches, limits and sizes of the machinery underneath
            specs[-1].update(bulk=bulk[i // 40 % len(bulk)], steps=min(steps, 9))
    return specs


def run(spec, rec, slices, mix, view=(), each=None, end=None, every=4, prologue=None, gencls=None):
    """One history; ``each(h, op, outcome)`` after every step, ``end(h)`` last."""
    rng = rng_for('case', spec['seed'])
    with case_dir() as d:
        h = History(spec, rec, rng, d, slices, mix, gencls or gen.Gen)
        try:
            todo = list(prologue(h) if prologue else gen.base_ops(h.gen, rng))
            for f in todo:
                op = f(h.driver.state)
                if op:
                    h.step(op, each)
            for n in range(spec['steps']):
                h.step(h.gen.op(h.driver.state), each)
                if spec.get('moves') and rng.random() < 0.12:
                    h.move()
                if view and n % every == every - 1:
                    h.look(view)
            if view:
                h.look(view)
            if end:
                end(h)
        except Violation as e:
            tail = '\n'.join(f'      {o!r} -> {r}'[:700] for o, r in h.driver.log[-6:])
            raise Violation(f'{e.message}\n   history {spec["seed"]}, step {len(h.driver.log)}, '
                            f'last steps:\n{tail}', mech=e.mech,
                            data={'log': [[o, r] for o, r in h.driver.log]})
        finally:
            h.close()
        rec.sample(f'history {spec["seed"]} ({spec["store"]}): ' +
                   '; '.join(f'{o} -> {r[:60]}' for o, r in h.driver.log[-3:]))
        rec.count('histories')
        rec.count(f'store_{spec["store"]}')


class History(object):
    def __init__(self, spec, rec, rng, d, slices, mix, gencls):
        self.spec, self.rec, self.rng, self.dir = spec, rec, rng, d
        self.others = gen.make_others(rng, bulk=spec.get('bulk', 0))
        self.env = ops.Env(self.others)
        ids = {k: [r[0] for r in s.select_index()] for k, s in self.others.items()}
        self.gen = gencls(rng, self.env, weights=mix, size=spec['size'], wild=spec['wild'],
                          other_ids=ids)
        self.gen.bulk = spec.get('bulk', 0)
        rec.count('bulk_histories', bool(self.gen.bulk))
        self.space = store.create(spec['store'], d)
        self.driver = history.Driver(rec, self.space, self.env, slices)

    @property
    def state(self):
        return self.driver.state

    def step(self, op, each=None):
        out = self.driver.step(op)
        if each is not None:
            each(self, op, out)
        return out

    def move(self):
        """Save, and go on with the saved file in some storage mode."""
        kind = self.rng.choice(store.KINDS)
        before = self.driver.state
        self.space = self.driver.space = store.move(self.space, kind, self.dir)
        from . import state as S
        after = self.driver.read(self.space)
        self.rec.count('moves')
        self.rec.eq(S.full(after), S.full(before), f'contents after saving and opening as {kind}')
        self.driver.log.append(({'op': 'move', 'to': kind}, 'ok'))

    def look(self, names):
        for n in names:
            views.VIEWS[n](self.rec, self.space, self.driver.state, self.rng)
            self.rec.count(f'view_{n}')

    def close(self):
        self.space = self.driver.space = None
        self.others = None
