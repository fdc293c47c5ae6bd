"""C17: no operation leaves dangling data behind."""
from vt import gen, hist

PROPERTY = 'C17'
LEVEL = 'exploration'
RULE = ('Random operation histories on real spaces (dropping and deleting operations weighted up, every storage mode), each '
        'step compared with a reference model of the same operation applied to the contents '
        'observed before it, plus invariants over the contents observed after it; a situation is '
        'one (operation, options, outcome, shape of the contents) combination.')
ASSUMPTIONS = ['contents are read by a separate SQLite reader of the documented tables']
MIN = {'histories': 100, 'op_drop_group': 100, 'op_drop_link': 100, 'op_delete_index': 200,
       'store_file': 20, 'store_cache': 20, 'moves': 50}
MIX = gen.mix(0.3, drop_group=4, drop_link=4, add_group=2, add_link=2.5, delete_index=1.2,
              delete_weights=0.6, insert_weights=0.8, insert_mappings2=1, delete_unmatched=1.5,
              delete_without_index=1.5, insert_quantities2=1)


def plan(tier, seed):
    return hist.plan(PROPERTY, tier, seed, 900, 10000)


def run_case(spec, rec):
    hist.run(spec, rec, ('problems', 'groups', 'links', 'weights', 'mappings', 'quantities'), MIX, view=('groups',))
