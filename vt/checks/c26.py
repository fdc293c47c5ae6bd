"""C26: command-line edits equal API edits, back up first and fail cleanly."""
import csv
import hashlib
import io
import os
import shutil
import subprocess
import sys
import uuid

import toron

from vt import cli, gen, inject, model, ops
from vt import state as S
from vt.base import REPO, Violation, brief, case_dir, rng_for

PROPERTY = 'C26'
LEVEL = 'exploration'
RULE = ('Random command sequences over three linked files: each command is run through the real entry '
        'point (some as separate processes, some with a failing database statement); the equivalent '
        'API operation is run on a copy of the files first. Exit status, contents of every file, the '
        'backups and the directory listing are compared. A situation is one (command, options, '
        'outcome, exit status, backup or not, separate process or not).')
ASSUMPTIONS = ['moving a label or attribute by zero positions may be refused',
               'mapping rows identified by codes (matching by labels is decided by C14)',
               'when several files are edited a failing statement may come between them']
MIN = {'commands': 2940, 'succeeded': 2000, 'failed': 900, 'edits_equal': 1393, 'backups': 1300,
       'no_backup': 500, 'shows': 397, 'usage': 118, 'bad_files': 88, 'two_files': 500,
       'faults': 150, 'processes': 59, 'loads': 700, 'effect': 1400, 'refused_backup': 40, 'times_set': 600}
CASE_LIMIT = 120

inject.ENABLED = True


def plan(tier, seed):
    n = 420 if tier == 'quick' else 5000
    return [{'seed': f'{PROPERTY}-{seed}-{i}'} for i in range(n)]


def digest(path):
    with open(path, 'rb') as f:
        return hashlib.blake2b(f.read(), digest_size=12).hexdigest()


class Command(object):
    """A command line, what it involves and the API operation it stands for.

    ``api`` is called with spaces bound to copies of ``files``; None means
    that the command has to fail whatever the contents.
    """
    def __init__(self, kind, argv, files, api, stdin=None, show=False, backup=True, maybe=False):
        self.kind, self.argv, self.files, self.api = kind, argv, files, api
        self.stdin, self.show, self.backup, self.maybe = stdin, show, backup, maybe


class World(object):
    NAMES = [('one.toron', 'two.toron', 'three.toron'), ('a b.toron', "c'd.toron", 'e%20f.toron'),
             ('x', 'y.db', 'z.toron')]

    def __init__(self, rec, rng, d):
        self.rec, self.rng, self.d = rec, rng, d
        self.log = []
        self.n = 0
        names = rng.choice(self.NAMES)
        self.paths = [d.path(n) for n in names]
        self.dir = os.path.dirname(self.paths[0])
        spaces = [toron.DataSpace() for _ in names]
        self.gens = []
        for i, s in enumerate(spaces):
            env = ops.Env({k: o for k, o in zip('pqr', spaces) if o is not s})
            g = gen.Gen(rng, env, size=rng.choice([3, 5]), wild=0.05)
            self.gens.append(g)
            for f in gen.base_ops(g, rng):
                st = S.space_state(s)
                g.other_ids = {k: [r[0] for r in o.select_index()] if o.index_columns else [0]
                               for k, o in env.others.items()}
                op = f(st)
                if op:
                    try:
                        ops.apply(s, op, env)
                    except Exception:       # noqa: BLE001 - only random contents
                        pass
            for _ in range(rng.choice([0, 3, 8])):
                try:
                    ops.apply(s, g.op(S.space_state(s)), env)
                except Exception:           # noqa: BLE001
                    pass
        for s, p in zip(spaces, self.paths):
            s.to_file(p, fsync=False)
        self.uids = [s.unique_id for s in spaces]
        with open(d.path('notes.txt'), 'w') as f:
            f.write('index_code,A\n1X00000000,a\n')
        os.mkdir(d.path('folder'))
        if rng.random() < 0.15:
            os.mkdir(d.path('backup-' + names[2]))      # that file cannot be backed up
            rec.count('unbackable')

    # --------------------------------------------------------- commands
    def state(self, i):
        return S.read_state(self.paths[i])

    def names(self, want):
        """Arguments for a list of names, and the names."""
        rng = self.rng
        plain = not any(c in x for x in want for c in ',"')
        if plain and rng.random() < 0.5:
            return list(want)
        buf = io.StringIO()
        csv.writer(buf, lineterminator='').writerow(want)
        text = buf.getvalue()
        if rng.random() < 0.3 and plain:
            text = text.replace(',', rng.choice([' , ', ', ', ',,', ',  ,']))
        if rng.random() < 0.2 and len(want) > 1 and plain:
            a, b = text.split(',', 1)
            return [a, b]
        return [text]

    def selectors(self):
        return self.rng.sample(gen.SELECTORS + ['[a', 'x y', '[kind="z"]', '[a="b"],'], self.rng.randint(1, 3))

    def command(self):
        rng = self.rng
        kinds = {'add_label': 3, 'add_weight': 3, 'add_partition': 3, 'add_attribute': 2, 'add_link': 5,
                 'update_label': 2, 'update_weight': 4, 'update_attribute': 2, 'rename_label': 2,
                 'rename_domain': 2, 'remove_link': 4, 'index_load': 6, 'quantity_load': 6,
                 'mapping_load': 6, 'index': 2, 'quantity': 2, 'mapping': 2, 'info': 2, 'usage': 2,
                 'bad_file': 2, 'init': 2}
        while True:
            kind = rng.choices(list(kinds), list(kinds.values()))[0]
            c = getattr(self, 'c_' + kind)(rng.randrange(3))
            if c is not None:
                return c

    def edit(self, kind, i, tail, api, stdin=None, files=None, maybe=False):
        argv = [self.paths[i]] + tail
        backup = self.rng.random() < 0.7
        if not backup:
            argv.append('--no-backup')
        if '--selectors' in argv or '--add-selector' in argv or '--remove-selector' in argv:
            pass
        return Command(kind, argv, files or [i], api, stdin, backup=backup, maybe=maybe)

    def c_add_label(self, i):
        rng = self.rng
        cols = [c for c in self.state(i).columns if c == c.strip() != '']
        want = rng.sample(['A', 'B', 'C', 'H', 'J', 'new label', 'it"s', 'x,y'] + cols[:1], rng.randint(1, 3))
        if rng.random() < 0.15:
            want.append(rng.choice(['index_id', '_x', want[0], 'domain', '1st']))
        return self.edit('add label', i, ['add', 'label'] + self.names(want),
                         lambda s: s.add_index_columns(*want))

    def c_add_weight(self, i):
        rng = self.rng
        name = rng.choice(gen.Gen.GROUPS + ['w 1', "o'ne"])
        desc = rng.choice([None, None, 'some text', ''])
        sel = self.selectors() if rng.random() < 0.4 else None
        default = rng.random() < 0.4
        tail = ['add', 'weight', name]
        if desc is not None:
            tail += ['--description', desc]
        if sel:
            tail += ['--selectors'] + sel
        if default:
            tail += ['--default']
        return self.edit('add weight', i, tail,
                         lambda s: s.add_weight_group(name, desc, sel, make_default=default or None))

    def c_add_partition(self, i):
        rng = self.rng
        cols = [c for c in self.state(i).columns if c == c.strip() != '']
        want = rng.sample(cols, rng.randint(1, len(cols))) if cols else ['A']
        if rng.random() < 0.15:
            want.append(rng.choice(['nope', 'A']))
        return self.edit('add partition', i, ['add', 'partition'] + self.names(want),
                         lambda s: s.add_partition_definition(set(want)))

    def c_add_attribute(self, i):
        rng = self.rng
        want = rng.sample(['category', 'year', 'kind', 'sex', 'a b', 'A', 'it"s'], rng.randint(1, 3))
        if rng.random() < 0.1:
            want.append(rng.choice(['index_id', want[0]]))

        def api(s):
            have = s.get_registered_attributes()
            new = [a for a in want if a not in have]
            if new:
                s.set_registered_attributes(have + new)
        return self.edit('add attribute', i, ['add', 'attribute'] + self.names(want), api)

    def pair(self, i):
        j = self.rng.randrange(3) if self.rng.random() < 0.1 else self.rng.choice([k for k in range(3) if k != i])
        return j

    def direction(self):
        return self.rng.choice(['both', 'both', 'left', 'right'])

    def c_add_link(self, i):
        rng = self.rng
        j = self.pair(i)
        name = rng.choice(gen.Gen.LINKS + ['k 4'])
        direction = self.direction()
        desc = rng.choice([None, None, 'link text', ''])
        sel = self.selectors() if rng.random() < 0.3 else None
        default = rng.random() < 0.4
        tail = ['add', 'link', self.paths[j], name]
        if direction != 'both':
            tail += ['--' + direction]
        if desc is not None:
            tail += ['--description', desc]
        if sel:
            tail += ['--selectors'] + sel
        if default:
            tail += ['--default']
        hints = [toron.bind_file(self.paths[k], mode='ro').path_hint for k in (i, j)]

        def api(s1, s2):
            kw = dict(description=desc, selectors=sel, is_default=default or None)
            if direction != 'left':
                s2.add_link(s1, name, other_filename_hint=hints[0], **kw)
            if direction != 'right':
                s1.add_link(s2, name, other_filename_hint=hints[1], **kw)
        return self.edit(f'add link {direction}', i, tail, api, files=[i, j])

    def c_remove_link(self, i):
        rng = self.rng
        j = self.pair(i)
        have = [n for k, o in ((i, j), (j, i)) for (u, n) in self.state(k).links if u == self.uids[o]]
        name = rng.choice(have) if have and rng.random() < 0.8 else rng.choice(gen.Gen.LINKS)
        direction = self.direction()
        tail = ['remove', 'link', self.paths[j], name] + ([] if direction == 'both' else ['--' + direction])

        def api(s1, s2):
            done = 0
            for way, trg, src in (('left', s1, s2), ('right', s2, s1)):
                if direction in ('both', way) and any(x.name == name and x.other_unique_id == src.unique_id
                                                      for x in trg.links):
                    trg.drop_link(src, name)
                    done += 1
            if not done:
                raise LookupError(name)
        c = self.edit(f'remove link {direction}', i, tail, api, files=[i, j])
        return c

    def c_update_label(self, i):
        rng = self.rng
        cols = list(self.state(i).columns)
        label = rng.choice(cols + ['nope']) if rng.random() < 0.9 or not cols else 'nope'
        n = rng.choice([None, 1, 1, 2, 3, 0])
        way = rng.choice(['left', 'right'])
        tail = ['update', 'label', label, '--move-' + way] + ([] if n is None else [str(n)])
        k = 1 if n is None else n
        return self.edit('update label', i, tail,
                         lambda s: s.change_label_order(label, -k if way == 'left' else k), maybe=(k == 0))

    def c_update_attribute(self, i):
        rng = self.rng
        attrs = list(self.state(i).registered or ())
        a = rng.choice(attrs + ['nope']) if attrs else 'nope'
        n = rng.choice([None, 1, 1, 2, 3, 0])
        way = rng.choice(['left', 'right'])
        tail = ['update', 'attribute', a, '--move-' + way] + ([] if n is None else [str(n)])
        k = 1 if n is None else n
        return self.edit('update attribute', i, tail,
                         lambda s: s.change_attribute_order(a, -k if way == 'left' else k), maybe=(k == 0))

    def c_update_weight(self, i):
        rng = self.rng
        groups = sorted(self.state(i).groups)
        name = rng.choice(groups) if groups and rng.random() < 0.9 else 'nope'
        desc = rng.choice([None, None, None, 'changed text', 'more', ''])
        add = self.selectors() if rng.random() < 0.5 else []
        rem = self.selectors() if rng.random() < 0.4 else []
        have = list((self.state(i).groups.get(name) or {}).get('selectors') or []) if groups else []
        if have and rng.random() < 0.5:
            rem = rem + [rng.choice(have)]
        default = rng.random() < 0.4
        tail = ['update', 'weight', name]
        if desc is not None:
            tail += ['--description', desc]
        if add:
            tail += ['--add-selector'] + add
        if rem:
            tail += ['--remove-selector'] + rem
        if default:
            tail += ['--default']

        def api(s):
            g = s.get_weight_group(name)
            if not g:
                raise LookupError(name)
            ch = {}
            if desc is not None:
                ch['description'] = desc
            if add or rem:
                # every selector once; removing takes away one that was added
                out = list(g.selectors or []) + add
                for x in rem:
                    if x in out:
                        out.remove(x)
                ch['selectors'] = sorted(set(out))
            if ch:
                s.edit_weight_group(name, **ch)
            if default:
                s.set_default_weight_group(s.get_weight_group(name))
        return self.edit('update weight', i, tail, api)

    def c_rename_label(self, i):
        rng = self.rng
        cols = list(self.state(i).columns)
        old = rng.choice(cols) if cols and rng.random() < 0.9 else 'nope'
        new = rng.choice(['A', 'B', 'New', 'two words', 'index_id', 'x"y', old, '', 'C', 'D'])
        return self.edit('rename label', i, ['rename', 'label', old, new],
                         lambda s: s.rename_label_column(old, new))

    def c_rename_domain(self, i):
        new = self.rng.choice(['d1', 'd2', 'two words', '', ' pad ', 'x"y'])
        return self.edit('rename domain', i, ['rename', 'domain', new], lambda s: s.set_domain(new))

    @staticmethod
    def text(columns, rows):
        buf = io.StringIO()
        w = csv.writer(buf, quoting=csv.QUOTE_ALL)
        w.writerow(columns)
        w.writerows(rows)
        return buf.getvalue()

    def c_index_load(self, i):
        rng = self.rng
        st = self.state(i)
        op = self.gens[i].g_insert_index(st)
        if op is None or not st.columns:
            return None
        cols = list(op['columns'])
        rows = [['' if v is None else str(v) for v in r] for r in op['rows']]
        if len(set(cols)) < len(cols) or any(len(r) != len(cols) for r in rows):
            return None
        text_cols, text_rows = list(cols), [list(r) for r in rows]
        if 'index_id' in cols:
            k = cols.index('index_id')
            if not any(r[k].lstrip('-').isdigit() for r in rows):
                return None
            for r, t in zip(rows, text_rows):
                if r[k]:
                    if not r[k].lstrip('-').isdigit():
                        return None
                    t[k] = cli.code(int(r[k]), self.uids[i])
                    r[k] = int(r[k])
            text_cols[k] = rng.choice(['index_code', 'index_id', 'whatever'])
            if text_cols[k] in cols and text_cols[k] != 'index_id':
                return None
        stdin = self.text(text_cols, text_rows)
        args = []
        if rng.random() < 0.8:
            args = ['--on-label-conflict', op['on_label'], '--on-weight-conflict', op['on_weight']]
        else:
            op = dict(op, on_label='abort', on_weight='abort')
        return self.edit('index load', i, ['index'] + args,
                         lambda s: s.insert_index([cols] + rows, on_label_conflict=op['on_label'],
                                                  on_weight_conflict=op['on_weight']), stdin)

    def c_quantity_load(self, i):
        rng = self.rng
        st = self.state(i)
        op = self.gens[i].g_insert_quantities2(st)
        if op is None:
            return None
        cols = list(op['columns'])
        rows = [['' if v is None else str(v) for v in r] for r in op['rows']]
        if len(set(cols)) < len(cols) or any(len(r) != len(cols) for r in rows):
            return None
        value = op['value']
        args = []
        if rng.random() < 0.5 and 'quantity' not in cols:
            cols = ['quantity' if c == value else c for c in cols]
            value = 'quantity'
        else:
            args += ['--column', value]
        if op['allow_label']:
            args += ['--allow-invalid-label']
        if op['allow_partition']:
            args += ['--allow-invalid-partition']
        if op['on_existing'] != 'abort' or rng.random() < 0.5:
            args += ['--on-existing', op['on_existing']]
        return self.edit('quantity load', i, ['quantity'] + args,
                         lambda s: s.insert_quantities2(value_column=value, data=[cols] + rows,
                                                        allow_invalid_label=op['allow_label'],
                                                        allow_invalid_partition=op['allow_partition'],
                                                        on_existing=op['on_existing']),
                         self.text(cols, rows))

    def links_between(self, i, j):
        """{name: directions} of the links between two files."""
        out = {}
        for (u, n) in self.state(j).links:
            if u == self.uids[i]:
                out.setdefault(n, set()).add('right')
        for (u, n) in self.state(i).links:
            if u == self.uids[j]:
                out.setdefault(n, set()).add('left')
        return out

    def c_mapping_load(self, i):
        rng = self.rng
        j = self.rng.choice([k for k in range(3) if k != i])
        links = self.links_between(i, j)
        if not links and rng.random() < 0.9:
            return None
        name = rng.choice(sorted(links)) if links and rng.random() < 0.95 else 'k2'
        st = self.state(i), self.state(j)
        if not (st[0].columns and st[1].columns) or name in st[0].columns + st[1].columns \
                or st[0].default is None or st[1].default is None:
            return None
        ids = [sorted(x.index) for x in st]
        have = {'right': {k[2:4] for k in st[1].mappings if k[0] == self.uids[i] and k[1] == name},
                'left': {(k[3], k[2]) for k in st[0].mappings if k[0] == self.uids[j] and k[1] == name}}
        direction = rng.choice(['both', 'both', 'left', 'right'])
        ways = {'left', 'right'} if direction == 'both' else {direction}
        if direction == 'both' and links.get(name):
            ways = set(links[name])
        pairs = {}
        for _ in range(rng.choice([1, 2, 4, 30])):
            p = rng.choice(ids[0]), rng.choice(ids[1])
            if any(p in have[w] for w in ways) and rng.random() < 0.85:
                continue
            pairs[p] = rng.choice([1, 2.5, 0, 7])
        pairs.pop((0, 0), None)
        if not pairs:
            return None
        bad = rng.random() < 0.1
        cols = ['one'] + list(st[0].columns) + [name] + ['two'] + list(st[1].columns)
        rows = [[cli.code(a, self.uids[i])] + list(st[0].index[a]) + [v] +
                [cli.code(b, self.uids[j])] + list(st[1].index[b]) for (a, b), v in sorted(pairs.items())]
        if bad:
            if len(rows) < 2:
                return None
            # (the first row identifies the columns)
            rows[-1][0] = rows[-1][0][:-1] + ('0' if rows[-1][0][-1] != '0' else '1')
        tail = ['mapping', self.paths[j], name] + ([] if direction == 'both' else ['--' + direction])
        incomplete = rng.random() < 0.85
        if incomplete:
            tail.append('--allow-incomplete')
        full = [S.level_bytes(list(x.columns), set(x.columns)) for x in st]

        def api(s1, s2):
            matched = [set(ids[0]) <= {p[0] for p in pairs} | {0}, set(ids[1]) <= {p[1] for p in pairs} | {0}]
            if not (incomplete or all(matched)):
                raise ValueError('mapping is incomplete')
            if bad or not ways <= links.get(name, set()) or not ways:
                raise LookupError(name)
            c = ['other_index_id', 'index_id', 'mapping_level', 'mapping_value']
            if 'right' in ways:
                s2.insert_mappings2(s1, name, [(a, b, full[1], float(v)) for (a, b), v in pairs.items()], c)
            if 'left' in ways:
                s1.insert_mappings2(s2, name, [(b, a, full[0], float(v)) for (a, b), v in pairs.items()], c)
        return self.edit(f'mapping load {direction}', i, tail, api, self.text(cols, rows), files=[i, j])

    def show(self, kind, i, tail, files=None, maybe=True):
        return Command(kind, [self.paths[i]] + tail, files or [i], None, show=True, maybe=maybe)

    def c_index(self, i):
        return self.show('index', i, ['index'])

    def c_quantity(self, i):
        return self.show('quantity', i, ['quantity'])

    def c_mapping(self, i):
        j = self.pair(i)
        links = self.links_between(i, j) if i != j else {}
        name = self.rng.choice(sorted(links) + ['k1'])
        return self.show('mapping', i, ['mapping', self.paths[j], name] +
                         self.rng.choice([[], ['--left'], ['--right']]), [i, j])

    def c_info(self, i):
        return self.show('info', i, self.rng.choice([['info'], []]))

    def c_usage(self, i):
        f, g = self.paths[i], self.paths[self.pair(i)]
        tail = self.rng.choice([
            ['add'], ['add', 'label'], ['add', 'thing', 'x'], ['remove', 'label', 'A'], ['destroy'],
            ['add', 'link', g], ['add', 'link', g, 'k1', '--left', '--right'], ['update', 'label', 'A'],
            ['update', 'label', 'A', '--move-left', '-1'], ['update', 'label', 'A', '--move-left', 'x'],
            ['update', 'attribute', 'category', '--move-left', '--move-right'], ['rename', 'label', 'A'],
            ['rename', 'domain'], ['index', '--on-label-conflict', 'maybe'], ['index', 'extra'],
            ['quantity', '--on-existing', 'never'], ['mapping', g], ['mapping', g, 'k1', '--match-limit', 'x'],
            ['add', 'weight'], ['add', 'weight', 'a', 'b'], ['--bogus'], ['info', '--no-backup'],
            ['add', 'weight', 'zz', '--selectors'], ['remove', 'link', g, 'k1', '--left', '--right']])
        return Command('usage', [f] + tail, [i], None, show=True)

    def c_bad_file(self, i):
        rng = self.rng
        bad = rng.choice([os.path.join(self.dir, 'missing.toron'), os.path.join(self.dir, 'notes.txt'),
                          os.path.join(self.dir, 'folder'), os.path.join(self.dir, 'no', 'where.toron')])
        f = self.paths[i]
        argv, stdin = rng.choice([
            ([bad, 'add', 'label', 'A'], None), ([bad, 'add', 'weight', 'w'], None),
            ([bad, 'rename', 'domain', 'x'], None), ([bad, 'index'], None), ([bad, 'index'], 'A\nx\n'),
            ([bad, 'quantity'], None), ([bad, 'quantity'], 'A,quantity\nx,1\n'), ([bad], None),
            ([bad, 'info'], None), ([bad, 'add', 'link', f, 'k1'], None),
            ([f, 'add', 'link', bad, 'k1'], None), ([f, 'remove', 'link', bad, 'k1'], None),
            ([f, 'mapping', bad, 'k1'], None), ([bad, 'mapping', f, 'k1'], 'A,k1,B\nx,1,y\n'),
            ([f, 'mapping', bad, 'k1'], 'A,k1,B\nx,1,y\n')])
        return Command('bad file', argv, [i], None, stdin, show=True)

    def c_init(self, i):
        rng = self.rng
        kind = rng.choice(['new', 'exists', 'nowhere', 'domain', 'folder'])
        name = f'new{self.n}.toron'
        path = {'exists': self.paths[i], 'nowhere': os.path.join(self.dir, 'no', name),
                'folder': os.path.join(self.dir, 'folder')}.get(kind, os.path.join(self.dir, name))
        c = Command('init ' + kind, [path, 'init'] + (['--domain', 'dom x'] if kind == 'domain' else []),
                    [i], None, show=True)
        return c

    # ------------------------------------------------------------ monitor
    def listing(self):
        out = {}
        for base, dirs, files in os.walk(self.dir):
            for n in dirs:
                out[os.path.relpath(os.path.join(base, n), self.dir)] = 'dir'
            for n in files:
                p = os.path.join(base, n)
                out[os.path.relpath(p, self.dir)] = digest(p)
        return out

    def expected(self, c):
        """States of the files after the API operation on copies, or None."""
        d = self.d.aux(f'copy{self.n}')
        os.mkdir(d)
        try:
            spaces, paths = [], {}
            for i in c.files:
                p = os.path.join(d, os.path.basename(self.paths[i]))
                if i not in paths:
                    shutil.copyfile(self.paths[i], p)
                paths[i] = p
                spaces.append(toron.bind_file(p, mode='rw'))
            try:
                c.api(*spaces)
            except Exception as e:      # noqa: BLE001 - whatever the API refuses
                return None, f'{type(e).__name__}: {e}'
            return {i: S.full(S.read_state(p)) for i, p in paths.items()}, 'ok'
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def run(self, c):
        """(result, did a fault strike, was it a separate process)"""
        rng = self.rng
        if rng.random() < 0.3:
            # modification times say nothing (files get copied, clocks are set)
            for n in os.listdir(self.dir):
                if os.path.isfile(os.path.join(self.dir, n)) and rng.random() < 0.6:
                    t = rng.choice([0, 1e9, 1.5e9, 2e9, 4e9])
                    os.utime(os.path.join(self.dir, n), (t, t))
            self.rec.count('times_set')
        if rng.random() < 0.025 and (not c.show and (c.stdin is not None or ' load' not in c.kind)):
            env = dict(os.environ, PYTHONPATH=os.path.join(REPO, 'src'), PYTHONDONTWRITEBYTECODE='1')
            p = subprocess.run([sys.executable, '-m', 'toron'] + c.argv, input=(c.stdin or '').encode('utf-8'),
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env)
            self.rec.count('processes')
            return cli.Result(p.returncode, p.stdout.decode('utf-8'), p.stderr.decode('utf-8', 'replace'),
                              None), False, True
        if not c.show and len(set(c.files)) == 1 and rng.random() < (0.3 if c.kind == 'update weight' else 0.1):
            plan = inject.Plan(rng.choice([1, 2, 3, 5, 8, 13, 21, 34, 55]), rng.choice(['err', 'late', 'full']))
            inject.arm(plan)
            try:
                r = cli.run(c.argv, c.stdin)
            except KeyboardInterrupt as e:
                r = cli.Result(130, '', '', e)
            finally:
                inject.disarm()
            return r, plan.fired, False
        return cli.run(c.argv, c.stdin), False, False

    def step(self):
        rec, rng = self.rec, self.rng
        self.n += 1
        c = self.command()
        before = self.listing()
        states = {i: S.full(self.state(i)) for i in set(c.files)}
        want, why = (None, '') if c.api is None else self.expected(c)
        r, fault, real = self.run(c)
        shown = [os.path.relpath(a, self.dir) if os.path.isabs(a) and a.startswith(self.dir) else a for a in c.argv]
        self.log.append(f'toron {" ".join(map(repr, shown))}' + (f' < {c.stdin[:500]!r}' if c.stdin else '') +
                        f' -> {r!r}; API: {why[:200]}')
        after = self.listing()
        rec.count('commands')
        rec.count('succeeded' if r.ok else 'failed')
        rec.count('faults', bool(fault))
        outcome = 'ok' if r.ok else 'error' if r.exc is None else type(r.exc).__name__
        rec.sig((c.kind, outcome, c.backup, real, bool(fault), bool(c.stdin), want is not None))
        what = self.log[-1][:1800]
        if c.kind.startswith('init'):
            return self.check_init(c, r, before, after, what)
        if c.show:
            rec.count('usage', c.kind == 'usage')
            rec.count('bad_files', c.kind == 'bad file')
            rec.count('shows', c.kind not in ('usage', 'bad file'))
            rec.check(after == before, lambda: f'{what}: changed files: {changes(before, after)}')
            if c.kind in ('usage', 'bad file'):
                rec.check(not r.ok, lambda: f'{what}: reports success')
                if c.kind == 'usage':
                    rec.eq(r.code, 2, f'exit status of {what}')
            return
        # ---- edits
        rec.count('two_files', len(set(c.files)) > 1)
        rec.count('loads', c.stdin is not None)
        changed = changes(before, after)
        allowed = set()
        blocked = False
        for i in set(c.files):
            name = os.path.basename(self.paths[i])
            allowed.add(name)
            if c.backup is not False:
                allowed.add('backup-' + name)
                blocked = blocked or before.get('backup-' + name) == 'dir'
        rec.check(set(changed) <= allowed, lambda: f'{what}: touches {sorted(set(changed) - allowed)}')
        now = {i: S.full(self.state(i)) for i in set(c.files)}
        if blocked:
            rec.count('refused_backup')
            want = None
        mech = c.kind
        if fault:
            rec.check(now == states or now == want,
                      lambda: f'{what}: a failing statement leaves the file half changed: '
                              f'{self.diff(states, now)}')
            rec.check(r.ok or now == states or want is None or now == want, what)
            if not r.ok and want is not None and want != states:
                rec.check(now == states, lambda: f'{what}: fails but takes effect: {self.diff(states, now)}')
        elif want is None:
            rec.check(now == states, lambda: f'{what}: fails but changes {self.diff(states, now)}', mech)
            rec.check(not r.ok, lambda: f'{what}: succeeds although the operation is refused ({why}): '
                                        f'{self.diff(states, now)}', mech)
        elif not r.ok and c.maybe:
            rec.check(now == states, lambda: f'{what}: fails but changes {self.diff(states, now)}')
        else:
            rec.check(r.ok, lambda: f'{what}: fails although the operation is possible', mech)
            rec.check(now == want, lambda: f'{what}: differs from the API operation: {self.diff(want, now)}', mech)
            rec.count('edits_equal')
            rec.count('effect', want != states)
        # ---- backups
        for i in set(c.files):
            name = 'backup-' + os.path.basename(self.paths[i])
            path = os.path.join(self.dir, name)
            if c.backup is False:
                rec.count('no_backup')
                rec.check(before.get(name) == after.get(name), lambda: f'{what}: makes a backup')
            elif r.ok or before.get(name) != after.get(name):
                rec.check(os.path.isfile(path), lambda: f'{what}: makes no backup')
                rec.check(S.full(S.read_state(path)) == states[i],
                          lambda: f'{what}: the backup differs from the contents before: '
                                  f'{S.diff(states[i], S.full(S.read_state(path)))}')
                rec.count('backups')

    def own_backup(self):
        """FILE2 has the very name of the backup of FILE1."""
        rec, rng = self.rec, self.rng
        sub = os.path.join(self.dir, 'sub')
        os.mkdir(sub)
        p1, p2 = os.path.join(sub, 'f.toron'), os.path.join(sub, 'backup-f.toron')
        if rng.random() < 0.5:
            p1, p2 = p2, p1
        shutil.copyfile(self.paths[0], p1)
        shutil.copyfile(self.paths[1], p2)
        before = S.full(S.read_state(p1)), S.full(S.read_state(p2))
        r = cli.run([p1, 'add', 'link', p2, 'zz', '--' + rng.choice(['left', 'right'])])
        after = S.full(S.read_state(p1)), S.full(S.read_state(p2))
        rec.count('own_backup')
        rec.check(r.ok and before[0]['unique_id'] == after[0]['unique_id'] and
                  before[1]['unique_id'] == after[1]['unique_id'] or before == after,
                  lambda: f'add link {os.path.basename(p1)} {os.path.basename(p2)}: the backup of one file '
                          f'replaces the other ({r!r})')
        shutil.rmtree(sub)

    @staticmethod
    def diff(a, b):
        return '; '.join(f'file {i + 1}: {S.diff(a[i], b[i])}' for i in a if a and b and a[i] != b[i])[:1500]

    def check_init(self, c, r, before, after, what):
        rec = self.rec
        rec.count('inits')
        name = os.path.relpath(c.argv[0], self.dir)
        changed = changes(before, after)
        if c.kind in ('init new', 'init domain'):
            rec.check(r.ok and set(changed) == {name}, lambda: f'{what}: {changed}')
            st = S.read_state(c.argv[0])
            domain = 'dom x' if c.kind == 'init domain' else os.path.splitext(name)[0]
            rec.eq(st.domain, domain, f'domain after {what}')
            ref = toron.DataSpace()
            ref.set_domain(domain)
            skip = ('unique_id', 'props')
            a, b = st, S.space_state(ref)
            a.unique_id = b.unique_id = ''
            rec.eq({k: v for k, v in a.props.items() if k != 'created_date'},
                   {k: v for k, v in b.props.items() if k != 'created_date'}, f'properties after {what}')
            rec.check(S.full(a, skip) == S.full(b, skip), lambda: f'{what}: a new file is not empty: '
                      f'{S.diff(S.full(b, skip), S.full(a, skip))}')
            os.remove(c.argv[0])
        else:
            rec.check(not r.ok and not changed, lambda: f'{what}: {changed}')


def changes(a, b):
    return {k: (a.get(k), b.get(k)) for k in set(a) | set(b) if a.get(k) != b.get(k)}


def run_case(spec, rec):
    rng = rng_for('case', spec['seed'])
    with case_dir() as d:
        w = World(rec, rng, d)
        try:
            for _ in range(14):
                w.step()
            if rng.random() < 0.3:
                w.own_backup()
        except Violation as e:
            raise Violation(f'{e.message}\n   case {spec["seed"]}:\n' + '\n'.join(f'      {x[:900]}' for x in w.log[-5:]),
                            mech=e.mech)
        rec.sample(f'case {spec["seed"]}: ' + '; '.join(x[:160] for x in w.log[-3:]))
