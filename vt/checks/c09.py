"""C09: the index fingerprint tracks the id set and stale links are refused."""
from vt import gen, hist, history, ops, state as S
from vt.base import Violation, brief, case_dir, rng_for
from vt.checks import c02

PROPERTY = 'C09'
LEVEL = 'exploration'
RULE = ('Random edits on both sides of links; after every step the fingerprint must be a function of '
        'the record ids (compared across all spaces of the run), change exactly with them, and '
        'translations must be refused exactly when the default link was made for other records; '
        'separate cases delete long runs of ids in different orders; a situation is one (operation, '
        'outcome, shape of contents).')
ASSUMPTIONS = ['two different id sets giving one fingerprint would be a collision of SHA-256']
MIN = {'steps_changing': 2000, 'translated': 500, 'refused': 300, 'run_cases': 60, 'same_set': 300,
       'hash_changes': 800}
MIX = gen.mix(0.25, insert_index=1.2, update_index=1.2, delete_index=1.2, insert_mappings=1,
              insert_mappings2=1, delete_mappings=0.6, edit_link=1, reify=0.3)
SRC_MIX = gen.mix(0.2, insert_index=1.5, update_index=1.2, delete_index=1.5, insert_weights=0.5,
                  insert_quantities2=0.5, add_link=None, edit_link=None, drop_link=None,
                  insert_mappings=None, insert_mappings2=None, update_mappings=None,
                  delete_mappings=None, reify=None)


def plan(tier, seed):
    specs = hist.plan(PROPERTY, tier, seed, 800, 10000, steps=12)
    for i, s in enumerate(specs):
        s['kind'] = 'runs' if i % 8 == 0 else 'links'
    return specs


def run_case(spec, rec):
    if spec['kind'] == 'runs':
        runs(spec, rec)
    else:
        c02.run(spec, rec, ('hash',), MIX, ('hash',), SRC_MIX, p_src=0.5, p_cover=0.3)


def digest(space):
    return S.space_state(space).index_hash


def runs(spec, rec):
    """Delete many ids in several orders; equal sets must give equal fingerprints."""
    import toron
    rng = rng_for('case', spec['seed'])
    with case_dir() as d:
        n = rng.choice([12, 40, 130, 400])
        keep_p = rng.choice([0.1, 0.5, 0.9])
        gone, run = [], rng.random() < keep_p
        for i in range(1, n + 1):
            if rng.random() < 0.2:
                run = rng.random() < keep_p
            if not run:
                gone.append(i)
        rec.count('run_cases')
        final = []
        for variant in range(3):
            s = toron.DataSpace(cache_to_drive=rng.random() < 0.2)
            s.add_index_columns('A')
            rows = [[f'v{i}'] for i in range(1, n + 1)]
            if variant == 0:
                s.insert_index([['A']] + rows)
            else:
                cut = rng.randint(0, n)
                s.insert_index([['A']] + rows[:cut])
                history.note_hash(rec, range(cut + 1), digest(s), f'{cut} records inserted')
                s.insert_index([['A']] + rows[cut:])
            ids = set(range(n + 1))
            history.note_hash(rec, ids, digest(s), f'{n} records inserted')
            order = list(gone)
            if variant:
                rng.shuffle(order)
            while order:
                k = len(order) if variant == 0 else rng.randint(1, len(order))
                part, order = order[:k], order[k:]
                before = digest(s)
                s.delete_index([['index_id', 'A']] + [[i, f'v{i}'] for i in part])
                ids -= set(part)
                now = digest(s)
                history.note_hash(rec, ids, now, f'after deleting {brief(part, 200)} of {n}')
                rec.check(now != before, f'deleting {brief(part, 200)} did not change the fingerprint')
                rec.count('hash_changes')
                rec.sig(('run', n, len(ids), len(part), variant))
            final.append(digest(s))
            rec.count('same_set')
            # changes that keep the ids
            keep = sorted(ids - {0})
            if keep:
                s.update_index([['index_id', 'A'], [rng.choice(keep), 'renamed']])
                s.add_weight_group('w')
                s.insert_weights('w', [['index_id', 'A', 'w'], [keep[0], 'v' + str(keep[0]), 5]])
                s.add_index_columns('B')
                rec.eq(digest(s), final[-1], 'fingerprint after changes that keep the records')
        rec.check(len(set(final)) == 1, 'fingerprint depends on the order of deletion')
