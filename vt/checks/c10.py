"""C10: weights follow the requested policy and completeness flags tell the truth."""
from vt import gen, hist

PROPERTY = 'C10'
LEVEL = 'exploration'
RULE = ('Random operation histories on real spaces (weight, group and index operations weighted up, every storage mode), each '
        'step compared with a reference model of the same operation applied to the contents '
        'observed before it, plus invariants over the contents observed after it; a situation is '
        'one (operation, options, outcome, shape of the contents) combination.')
ASSUMPTIONS = ['contents are read by a separate SQLite reader of the documented tables',
               'completeness is judged while the space has a defined record']
MIN = {'histories': 100, 'op_insert_weights': 300, 'op_update_weights': 200, 'op_delete_weights': 200,
       'op_update_index': 100, 'op_delete_index': 100, 'steps_refused': 100, 'view_weights': 200}
MIX = gen.mix(0.12, insert_weights=2, update_weights=2, delete_weights=2, insert_index=0.9,
              update_index=0.9, delete_index=0.9, add_group=1, edit_group=0.8, drop_group=1,
              set_default=1)


def plan(tier, seed):
    return hist.plan(PROPERTY, tier, seed, 800, 10000)


def run_case(spec, rec):
    hist.run(spec, rec, ('weights', 'groups', 'problems'), MIX, view=('weights',))
