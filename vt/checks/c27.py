"""C27: links and weight groups keep unique names and a single default."""
from vt import gen, hist

PROPERTY = 'C27'
LEVEL = 'exploration'
RULE = ('Random operation histories on real spaces (link and weight-group operations weighted up, every storage mode), each '
        'step compared with a reference model of the same operation applied to the contents '
        'observed before it, plus invariants over the contents observed after it; a situation is '
        'one (operation, options, outcome, shape of the contents) combination.')
ASSUMPTIONS = ['contents are read by a separate SQLite reader of the documented tables']
MIN = {'histories': 100, 'op_add_group': 200, 'op_edit_group': 200, 'op_drop_group': 100, 'op_set_default': 100,
       'op_add_link': 200, 'op_edit_link': 200, 'op_drop_link': 100, 'link_lookups': 1000,
       'steps_refused': 100}
MIX = gen.mix(0.08, add_group=3, edit_group=3.5, drop_group=3, set_default=3.5, add_link=4,
              edit_link=4, drop_link=3, insert_weights=0.4, insert_mappings2=0.4)


class Gen(gen.Gen):
    BY = 0.4
    HINTS = ['src.toron', 'src', 'src', 'other', 'other.toron', 'd/src.toron']
    LINK_HINT = 0.7


def plan(tier, seed):
    return hist.plan(PROPERTY, tier, seed, 900, 10000)


def run_case(spec, rec):
    hist.run(spec, rec, ('groups', 'links', 'weights', 'mappings', 'problems'), MIX, view=('groups', 'links'), gencls=Gen, every=2)
