"""C08: index records behave as a keyed table with permanent ids."""
from vt import gen, hist

PROPERTY = 'C08'
LEVEL = 'exploration'
RULE = ('Random histories of operations on real spaces (index operations weighted up), each step '
        'compared with a reference keyed table; a situation is one (operation, options, outcome, '
        'shape of the contents) combination.')
ASSUMPTIONS = ['contents are read by a separate SQLite reader of the documented tables']
MIN = {'histories': 100, 'op_insert_index': 300, 'op_update_index': 200, 'op_delete_index': 200,
       'steps_refused': 100, 'criteria_selects': 200, 'moves': 20}
MIX = gen.mix(0.25, insert_index=1.6, update_index=1.6, delete_index=1.6, add_columns=0.6,
              drop_columns=0.5, insert_weights=0.7)


def plan(tier, seed):
    return hist.plan(PROPERTY, tier, seed, 900, 12000)


def run_case(spec, rec):
    hist.run(spec, rec, ('index', 'problems'), MIX, view=('index',))
