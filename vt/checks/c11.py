"""C11: mapping proportions always partition each source record."""
from vt import gen, hist

PROPERTY = 'C11'
LEVEL = 'exploration'
RULE = ('Random operation histories on real spaces (mapping, link and index operations weighted up, every storage mode), each '
        'step compared with a reference model of the same operation applied to the contents '
        'observed before it, plus invariants over the contents observed after it; a situation is '
        'one (operation, options, outcome, shape of the contents) combination.')
ASSUMPTIONS = ['contents are read by a separate SQLite reader of the documented tables',
               'completeness is judged while the space has a defined record']
MIN = {'histories': 100, 'op_insert_mappings': 100, 'op_insert_mappings2': 100, 'op_update_mappings': 100,
       'op_delete_mappings': 100, 'op_reify': 50, 'op_update_index': 50, 'op_delete_index': 50,
       'mapping_views': 200}
MIX = gen.mix(0.12, insert_mappings=2, insert_mappings2=2, update_mappings=2.5, delete_mappings=2.5,
              reify=2, update_index=0.8, delete_index=0.8, insert_index=0.6, add_link=1,
              drop_link=0.7)


def plan(tier, seed):
    return hist.plan(PROPERTY, tier, seed, 800, 10000)


def run_case(spec, rec):
    hist.run(spec, rec, ('mappings', 'problems'), MIX, view=('mappings',))
