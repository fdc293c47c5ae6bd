"""C25: changing columns keeps all data and their meaning."""
from vt import gen, hist

PROPERTY = 'C25'
LEVEL = 'exploration'
RULE = ('Random operation histories on real spaces (column operations weighted up, every storage mode), each '
        'step compared with a reference model of the same operation applied to the contents '
        'observed before it, plus invariants over the contents observed after it; a situation is '
        'one (operation, options, outcome, shape of the contents) combination.')
ASSUMPTIONS = ['contents are read by a separate SQLite reader of the documented tables']
MIN = {'histories': 100, 'old_helpers': 100, 'op_add_columns': 300, 'op_drop_columns': 200, 'op_rename_columns': 200,
       'op_rename_label': 200, 'op_label_order': 200, 'steps_refused': 100}
MIX = gen.mix(0.15, add_columns=3, drop_columns=3, rename_columns=3.5, rename_label=3.5,
              label_order=3.5, add_partition=0.6, set_attrs=0.5, set_domain=0.5)


def plan(tier, seed):
    return hist.plan(PROPERTY, tier, seed, 800, 10000)


def run_case(spec, rec):
    hist.run(spec, rec, ('index', 'meta', 'structure', 'weights', 'quantities', 'mappings', 'groups', 'links', 'problems'), MIX, view=('meta', 'quantities'))
