"""C28: what a space says about itself and its links is true."""
import datetime
import hashlib
import itertools
import logging
import os
import re
import stat
import time

import toron
from toron import graph

from vt import cli, gen, hist, model
from vt import state as S
from vt.base import Violation, case_dir, rng_for

PROPERTY = 'C28'
LEVEL = 'exploration'
RULE = ('Random operation histories on real spaces in every storage mode, in which other spaces change as '
        'well: after the steps the text of the space, the output of the info command and the description '
        'of every link are taken apart and compared with what a separate reader finds in the files; '
        'mappings loaded between random spaces, the counts they report compared the same way. A situation '
        'is one combination of what was shown (markers, kinds of links, unused partitions, counts).')
ASSUMPTIONS = ['contents are read by a separate SQLite reader of the documented tables',
               'the undefined record counts as matched on both sides']
MIN = {'histories': 90, 'texts': 1500, 'infos': 400, 'link_reports': 1000, 'partial_links': 200,
       'stale_reports': 60, 'incomplete_groups': 300, 'default_groups': 200, 'incomplete_links': 300,
       'coarse_partitions': 500, 'loads': 250, 'load_missing': 100, 'readonly': 60}
MIX = gen.mix(0.7, insert_index=0.9, delete_index=0.8, insert_weights=1, delete_weights=0.8,
              add_link=1, insert_mappings=1, insert_mappings2=1, delete_mappings=0.8, edit_link=0.8,
              drop_link=0.4, add_partition=1, drop_partitions=0.6, set_attrs=0.6, label_order=0.8,
              insert_quantities2=0.3)
ZONES = ['UTC', 'America/New_York', 'Asia/Kolkata', 'Pacific/Chatham']


def plan(tier, seed):
    specs = hist.plan(PROPERTY, tier, seed, 450, 5000)
    n = 450 if tier == 'quick' else 5000
    loads = [{'seed': f'{PROPERTY}-load-{seed}-{i}', 'kind': 'load'} for i in range(n)]
    return [x for pair in itertools.zip_longest(specs, loads) for x in pair if x]


def fail(what, text, data=None):
    raise Violation(f'{what}\n   shown: {text!r}', data=data)


class Text(object):
    """A report, taken apart from the front."""

    def __init__(self, text):
        self.all = self.rest = text

    def take(self, part, what):
        if not self.rest.startswith(part):
            fail(f'{what}: expected {part!r}, found {self.rest[:200]!r}', self.all)
        self.rest = self.rest[len(part):]

    def match(self, pattern, what):
        m = re.match(pattern, self.rest)
        if not m:
            fail(f'{what}: expected /{pattern}/, found {self.rest[:200]!r}', self.all)
        self.rest = self.rest[m.end():]
        return m

    def any(self, parts, what):
        """The longest of the acceptable texts that comes next."""
        for p in sorted(set(parts), key=len, reverse=True):
            if self.rest.startswith(p):
                self.rest = self.rest[len(p):]
                return p
        fail(f'{what}: expected one of {sorted(set(parts))!r}, found {self.rest[:200]!r}', self.all)


def partitions(st):
    """Partitions in display order: members of the earlier columns come first."""
    parts = set(st.partitions)
    if st.columns:
        parts.add(frozenset(st.columns))
    parts = sorted(parts, key=lambda p: [c in p for c in st.order], reverse=True)
    return [[c for c in st.order if c in p] for p in parts]


def check_partitions(t, st, rec):
    parts = partitions(st)
    if not parts:
        t.take('None', 'partitions')
        return
    shown = []
    for n, cols in enumerate(parts):
        if n:
            t.take('\n  ', 'partitions')
        m = t.match(r' *(None|-?\d+\.\d+)  ', 'granularity')
        t.take(', '.join(cols), f'partition {cols!r}')
        shown.append((m.group(0)[:-2], m.group(1), model.entropy(st, frozenset(cols)), cols))
        rec.count('coarse_partitions', len(cols) < len(st.columns))
    texts = {x[1] for x in shown if x[1] != 'None'}
    if len({len(x[0]) for x in shown}) > 1 or len({len(x.partition('.')[2]) for x in texts}) > 1:
        fail('granularity not aligned', t.all)
    stored = {}
    for level, value in st.structure:
        stored[level] = value
    for _, text, true, cols in shown:
        if (true is None) != (text == 'None'):
            fail(f'granularity of {cols!r} is {true!r}', t.all)
        if true is None:
            continue
        digits = len(text.partition('.')[2])
        if digits < 3 or abs(float(text) - true) > 0.5000001 * 10 ** -digits + 1e-9:
            fail(f'granularity of {cols!r} is {true!r}', t.all)
    for (_, a, x, c), (_, b, y, d) in itertools.combinations(shown, 2):
        if x is None or y is None:
            continue
        p, q = stored.get(frozenset(c)), stored.get(frozenset(d))
        if (p == q) != (a == b):
            fail(f'granularity of {c!r} and {d!r} are {p!r} and {q!r}', t.all)


def group_complete(st, name):
    return model.group_truth(st, name) if st.defined() else st.groups[name]['is_complete']


def link_complete(st, key):
    return model.link_truth(st, key) if st.defined() else st.links[key]['complete']


def check_weights(t, st, rec):
    if not st.groups:
        t.take('None', 'weights')
        return
    names = []
    for n in sorted(st.groups):
        complete = group_complete(st, n)
        note = {(True, True): ' (default)', (True, False): ' (default, incomplete)',
                (False, True): '', (False, False): ' (incomplete)'}[(n == st.default, complete)]
        rec.count('incomplete_groups', not complete)
        rec.count('default_groups', n == st.default)
        names.append(n + note)
    t.take(', '.join(names), 'weight groups')


def check_links(t, st, rec):
    if not st.links:
        t.take('None', 'incoming links')
        return
    for n, uid in enumerate(sorted({k[0] for k in st.links})):
        if n:
            t.take('\n  ', 'incoming links')
        mine = [k for k in st.links if k[0] == uid]
        hints = [st.links[k]['hint'] or f'[{uid[:7]}]' for k in mine]
        t.any([f'{h}: ' for h in hints], 'name of the other space')
        texts = []
        for k in mine:
            complete = link_complete(st, k)
            note = {(True, True): ' (default)', (True, False): ' (default, locally incomplete)',
                    (False, True): '', (False, False): ' (locally incomplete)'}[
                        (st.links[k]['is_default'], complete)]
            rec.count('incomplete_links', not complete)
            texts.append((k[1], k[1] + note))
        by_name = ', '.join(x for _, x in sorted(texts))
        by_text = ', '.join(sorted(x for _, x in texts))
        t.any([by_name, by_text], f'links of {uid}')


def created(st):
    moment = datetime.datetime.fromisoformat(st.props['created_date']).timestamp()
    return time.strftime('%Y-%m-%d %I:%M:%S %p %Z', time.localtime(moment))


def body(t, st, rec, end):
    for name in ('domain', 'partitions', 'weights', 'attributes', 'incoming links', 'created'):
        t.take((f'{name}:\n  ' if name == 'domain' else f'\n{name}:\n  '), f'heading {name!r}')
        if name == 'domain':
            t.take(st.domain or 'None', 'domain')
        elif name == 'partitions':
            check_partitions(t, st, rec)
        elif name == 'weights':
            check_weights(t, st, rec)
        elif name == 'attributes':
            t.take(', '.join(st.registered) or 'None', 'attributes')
        elif name == 'incoming links':
            check_links(t, st, rec)
        else:
            t.take(created(st), 'created')
    if t.rest != end:
        fail(f'something after the report: {t.rest!r}', t.all)


def loaded_unregistered(st):
    names = {a for _, attrs in st.quantities for a, _ in attrs or ()}
    return names - set(st.registered)


def describe(rec, rng, space, st, path, d):
    """The text of the space and, at times, the output of the info command."""
    os.environ['TZ'] = rng.choice(ZONES)
    time.tzset()
    try:
        text = repr(space)
        t = Text(text)
        t.match(r'<toron\.DataSpace object at 0x[0-9a-fA-F]+>\n', 'first line')
        body(t, st, rec, '')
        rec.count('texts')
        rec.ev(6)
        if str(space) != text:
            fail('str() and repr() differ', str(space))
        if rng.random() < 0.4:
            if path is None:
                path = d.path()
                space.to_file(path, fsync=False)
            frozen = rng.random() < 0.2
            if frozen:
                os.chmod(path, stat.S_IREAD)
                rec.count('readonly')
            with open(path, 'rb') as f:
                before = hashlib.sha256(f.read()).digest()
            r = cli.run([path, 'info'])
            with open(path, 'rb') as f:
                if hashlib.sha256(f.read()).digest() != before:
                    fail('info changed the file', r.out)
            if frozen:
                os.chmod(path, 0o600)
            if not r.ok:
                fail('info failed', repr(r))
            t = Text(r.out)
            name = os.path.basename(path)
            t.match('(─+)\n' + re.escape(name) + '\n(─+)\n', 'heading of info')
            body(t, st, rec, '\n')
            rec.count('infos')
            rec.count('unregistered', bool(loaded_unregistered(st)))
            rec.ev(6)
        rec.sig(repr((bool(st.domain), len(partitions(st)), min(len(st.index), 3),
                             sorted((n == st.default, group_complete(st, n)) for n in st.groups),
                             sorted((v['is_default'], link_complete(st, k), bool(v['hint']))
                                    for k, v in st.links.items()), bool(st.registered))))
    finally:
        os.environ.pop('TZ', None)
        time.tzset()


def counts(source, target, key):
    """(matched, all, gone) of the source and (matched, all) of the target."""
    theirs = {k[2] for k in target.mappings if k[:2] == key} | {0}
    mine = {k[3] for k in target.mappings if k[:2] == key} | {0}
    return (len(theirs & set(source.index)), len(source.index), len(theirs - set(source.index)),
            len(mine & set(target.index)), len(target.index))


def short(space):
    hint = space.path_hint
    return hint[:-6] if hint and hint.endswith('.toron') else f'[{space.unique_id[:7]}]'


def check_link(rec, other, space, ost, st, key, name):
    m, total, gone, mine, size = counts(ost, st, key)
    text = graph.get_mapping_info_str(other, space, name)
    a, b = short(other), short(space)
    want = [f'{key[1]}: {a} -> {b}', '', f'  {a}: matched {m} of {total} indexes',
            f'  {b}: matched {mine} of {size} indexes']
    got = text.split('\n')
    if got[:4] != want:
        fail(f'description of link {key[1]!r}: expected {want!r}', text)
    rest = [x for x in got[4:] if x]
    if gone:
        if len(rest) != 1 or not re.search(r'\b%d\b' % gone, rest[0]) or 'no longer exist' not in rest[0]:
            fail(f'link {key[1]!r}: {gone} records no longer exist', text)
    elif rest:
        fail(f'link {key[1]!r}: no records are gone', text)
    rec.count('link_reports')
    rec.ev(3)
    rec.count('partial_links', m < total)
    rec.count('stale_reports', bool(gone))
    rec.sig(f'link:{m == total},{mine == size},{min(gone, 2)},{m == 1}')


def change_other(rng, other):
    """A change in the space a link comes from."""
    rows = [tuple(r) for r in other.select_index()]
    what = rng.random()
    if what < 0.5 and len(rows) > 1:
        row = rng.choice(rows[1:])
        other.delete_index([('index_id',) + tuple(other.index_columns), row])
    else:
        lab = (rng.choice('abcd'), rng.choice('uvwxyz'))
        if lab not in [r[1:] for r in rows]:
            other.insert_index([('P', 'Q'), lab])


def run_case(spec, rec):
    if spec.get('kind') == 'load':
        return run_load(spec, rec)
    def each(h, op, outcome):
        rng = h.rng
        if rng.random() < 0.12:
            change_other(rng, rng.choice(list(h.others.values())))
            rec.count('other_changes')
        if rng.random() < 0.45:
            st = h.state
            describe(rec, rng, h.space, st, None, h.dir)
            for k, other in h.others.items():
                mine = [x for x in st.links if x[0] == other.unique_id]
                if not mine or rng.random() < 0.3:
                    continue
                ost = S.space_state(other)
                for key in mine:
                    default = st.links[key]['is_default']
                    name = None if default and rng.random() < 0.3 else key[1]
                    check_link(rec, other, h.space, ost, st, key, name)

    def end(h):
        before = S.full(h.state)
        describe(rec, h.rng, h.space, h.state, None, h.dir)
        rec.eq(S.full(h.driver.read(h.space)), before, 'contents after describing the space')

    hist.run(spec, rec, ('links',), MIX, each=each, end=end)


# ------------------------------------------------------------ loading mappings

class Log(logging.Handler):
    def __init__(self):
        super().__init__(0)
        self.lines = []

    def emit(self, record):
        self.lines.append((record.levelname, record.getMessage()))


def make_space(rng, cols, n, d):
    kind = rng.random()
    if kind < 0.3:
        s = toron.bind_file(d.path(), mode='rwc')
    else:
        s = toron.DataSpace()
    s.add_index_columns(*cols)
    pool = [tuple(rng.choice('abcdefg') for _ in cols) for _ in range(n)]
    rows = sorted(set(pool))
    rng.shuffle(rows)
    s.insert_index(rows, columns=cols)
    if len(rows) > 2 and rng.random() < 0.4:
        r = rng.choice([tuple(x) for x in s.select_index()][1:])
        s.delete_index([r], columns=['index_id'] + cols)
    s.add_weight_group('w', make_default=True)
    data = [tuple(x)[1:] + (1.0,) for x in s.select_index()][1:]
    if data:
        s.insert_weights('w', data, columns=cols + ['w'])
    return s


SIDE = {'left': 'left-side', 'right': 'right-side'}


def run_load(spec, rec):
    rng = rng_for('case', spec['seed'])
    with case_dir() as d:
        a = make_space(rng, ['A', 'B'], rng.randint(1, 8), d)
        b = make_space(rng, ['X', 'Y'], rng.randint(1, 8), d)
        sa, sb = S.space_state(a), S.space_state(b)
        left = [v for i, v in sa.index.items()]
        right = [v for i, v in sb.index.items()]
        pairs = set()
        for _ in range(rng.randint(1, 14)):
            pairs.add((rng.choice(left), rng.choice(right)))
        if rng.random() < 0.35:                 # clean on both sides
            pairs |= {(x, rng.choice(right)) for x in left}
            pairs |= {(rng.choice(left), x) for x in right}
        rows = [x + (rng.choice([1, 2, 0.5, 10]),) + y for x, y in sorted(pairs)]
        if rng.random() < 0.3:
            rows.append(('nope', 'nope', 1.0) + rng.choice(right))
        arrow = rng.choice(['->', '<-', '<->', '-->', '<--', '<-->'])
        log = Log()
        logger = logging.getLogger('app-toron')
        keep = logger.level, logger.propagate
        logger.addHandler(log)
        logger.setLevel(1)
        logger.propagate = False
        logging.disable(logging.NOTSET)
        try:
            graph.load_mapping(a, arrow, b, 'pop', rows, columns=['A', 'B', 'pop', 'X', 'Y'])
        finally:
            logging.disable(logging.CRITICAL)
            logger.removeHandler(log)
            logger.setLevel(keep[0])
            logger.propagate = keep[1]
        rec.count('loads')
        rec.ev()
        sa, sb = S.space_state(a), S.space_state(b)
        lines = list(log.lines)
        for sign, src, trg, ss, ts, names in (('->', a, b, sa, sb, ('left', 'right')),
                                              ('<-', b, a, sb, sa, ('right', 'left'))):
            if not (sign in arrow):
                continue
            key = (src.unique_id, 'pop')
            if key not in ts.links:
                fail(f'no link was made for {arrow!r}', lines)
            m, total, gone, mine, size = counts(ss, ts, key)
            start = [i for i, x in enumerate(lines)
                     if x[1] == f'loading mapping from {names[0]} to {names[1]}']
            if len(start) != 1:
                fail(f'{arrow!r}: direction announced {len(start)} times', lines)
            part = []
            for x in lines[start[0] + 1:]:
                if x[1].startswith('loading mapping from'):
                    break
                part.append(x)
            want = set()
            if m < total:
                want.add(('WARNING', f'missing {total - m} indexes on {names[0]}-side'))
            if mine < size:
                want.add(('WARNING', f'missing {size - mine} indexes on {names[1]}-side'))
            if gone:
                want.add(('ERROR', f'found {gone} indexes on {names[0]}-side that no longer exist'))
            if not want:
                want.add(('INFO', 'mapping verified, cleanly matches both sides'))
                rec.count('load_clean')
            else:
                rec.count('load_missing')
            got = {x for x in part if x[1].startswith(('missing', 'found', 'mapping verified'))}
            if got != want:
                fail(f'{arrow!r}: expected {sorted(want)!r}', part,
                     data={'rows': [list(r) for r in rows], 'left': left, 'right': right})
            check_link(rec, src, trg, ss, ts, key, 'pop')
        rec.sig(f'load:{arrow},{len(left)},{len(right)}')
