"""C12: structure levels are the closure of the partitions with true granularity."""
from vt import gen, hist

PROPERTY = 'C12'
LEVEL = 'exploration'
RULE = ('Random operation histories on real spaces (partition, column and index operations weighted up, every storage mode), each '
        'step compared with a reference model of the same operation applied to the contents '
        'observed before it, plus invariants over the contents observed after it; a situation is '
        'one (operation, options, outcome, shape of the contents) combination.')
ASSUMPTIONS = ['contents are read by a separate SQLite reader of the documented tables']
MIN = {'histories': 100, 'op_add_partition': 100, 'op_add_partitions': 100, 'op_drop_partitions': 100,
       'op_insert_index': 200, 'op_update_index': 100, 'op_delete_index': 100, 'op_drop_columns': 30}
MIX = gen.mix(0.1, add_partition=2.5, add_partitions=2.5, drop_partitions=3, insert_index=0.9,
              update_index=0.9, delete_index=1, add_columns=1, drop_columns=1, rename_columns=0.5,
              insert_quantities2=0.5)


def plan(tier, seed):
    return hist.plan(PROPERTY, tier, seed, 900, 10000)


def run_case(spec, rec):
    hist.run(spec, rec, ('structure', 'index', 'quantities'), MIX, view=('meta',))
