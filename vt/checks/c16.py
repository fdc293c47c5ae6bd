"""C16: quantities are stored and reported exactly as given."""
from vt import gen, hist

PROPERTY = 'C16'
LEVEL = 'exploration'
RULE = ('Random operation histories on real spaces (quantity, index and partition operations weighted up, every storage mode), each '
        'step compared with a reference model of the same operation applied to the contents '
        'observed before it, plus invariants over the contents observed after it; a situation is '
        'one (operation, options, outcome, shape of the contents) combination.')
ASSUMPTIONS = ['contents are read by a separate SQLite reader of the documented tables']
MIN = {'histories': 100, 'op_insert_quantities': 200, 'op_insert_quantities2': 400, 'op_delete_unmatched': 60,
       'op_delete_without_index': 60, 'unmatched_listings_nonempty': 100, 'steps_refused': 100}
MIX = gen.mix(0.1, insert_quantities=3, insert_quantities2=3.5, delete_without_index=2.5,
              delete_unmatched=2.5, insert_index=0.5, update_index=0.5, delete_index=0.7,
              add_partition=0.7, drop_partitions=0.8, set_attrs=1, set_domain=0.5)


def plan(tier, seed):
    return hist.plan(PROPERTY, tier, seed, 800, 10000)


def run_case(spec, rec):
    hist.run(spec, rec, ('quantities', 'problems'), MIX, view=('quantities',))
