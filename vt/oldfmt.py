"""Writing files of the older format versions from the contents of a current one."""
import json
import sqlite3

MAGIC = ('application_id', 'user_version')


def q(name):
    return '"' + name.replace('"', '""') + '"'


def to_030(src, dst):
    """The same tables; two properties did not exist."""
    con = sqlite3.Connection(src, isolation_level=None)
    con.execute('VACUUM INTO ?', (dst,))
    con.close()
    con = sqlite3.Connection(dst, isolation_level=None)
    con.execute("DELETE FROM property WHERE key IN ('user_properties', 'created_date')")
    con.execute("UPDATE property SET value='\"0.3.0\"' WHERE key='toron_schema_version'")
    con.close()


DDL = """
CREATE TABLE weight_group(
    weight_group_id INTEGER PRIMARY KEY, name TEXT NOT NULL, description TEXT, selectors TEXT_SELECTORS,
    is_complete INTEGER NOT NULL CHECK (is_complete IN (0, 1)) DEFAULT 0, UNIQUE (name));
CREATE TABLE weight(
    weight_id INTEGER PRIMARY KEY, weight_group_id INTEGER, index_id INTEGER CHECK (index_id > 0),
    weight_value REAL NOT NULL,
    FOREIGN KEY(weight_group_id) REFERENCES weight_group(weight_group_id) ON DELETE CASCADE,
    FOREIGN KEY(index_id) REFERENCES node_index(index_id) DEFERRABLE INITIALLY DEFERRED,
    UNIQUE (index_id, weight_group_id));
CREATE TABLE attribute_group(
    attribute_group_id INTEGER PRIMARY KEY, attributes TEXT_ATTRIBUTES NOT NULL, UNIQUE (attributes));
CREATE TABLE quantity(
    quantity_id INTEGER PRIMARY KEY, _location_id INTEGER, attribute_group_id INTEGER,
    quantity_value NUMERIC NOT NULL,
    FOREIGN KEY(_location_id) REFERENCES location(_location_id) ON DELETE CASCADE,
    FOREIGN KEY(attribute_group_id) REFERENCES attribute_group(attribute_group_id) ON DELETE CASCADE);
CREATE TABLE crosswalk(
    crosswalk_id INTEGER PRIMARY KEY, other_unique_id TEXT NOT NULL, other_filename_hint TEXT,
    name TEXT NOT NULL, description TEXT, selectors TEXT_SELECTORS,
    is_default INTEGER CHECK (is_default IS NULL OR is_default=1) DEFAULT NULL,
    user_properties TEXT_USERPROPERTIES, other_index_hash TEXT,
    is_locally_complete INTEGER NOT NULL CHECK (is_locally_complete IN (0, 1)) DEFAULT 0,
    UNIQUE (name, other_unique_id), UNIQUE (is_default, other_unique_id));
CREATE TABLE relation(
    relation_id INTEGER PRIMARY KEY, crosswalk_id INTEGER,
    other_index_id INTEGER NOT NULL CHECK (TYPEOF(other_index_id) = "integer"),
    index_id INTEGER, mapping_level BLOB_BITFLAGS,
    relation_value REAL NOT NULL CHECK (TYPEOF(relation_value) = "real" AND 0.0 <= relation_value),
    proportion REAL CHECK (0.0 <= proportion AND proportion <= 1.0),
    FOREIGN KEY(crosswalk_id) REFERENCES crosswalk(crosswalk_id) ON DELETE CASCADE,
    FOREIGN KEY(index_id) REFERENCES node_index(index_id) DEFERRABLE INITIALLY DEFERRED,
    UNIQUE (crosswalk_id, other_index_id, index_id));
CREATE TABLE property(key TEXT PRIMARY KEY NOT NULL, value TEXT_JSON);
"""

TRIGGERS = """
CREATE TRIGGER trigger_on_update_for_undefined
    BEFORE UPDATE ON main.node_index FOR EACH ROW WHEN OLD.index_id = 0
    BEGIN SELECT RAISE(FAIL, 'cannot modify undefined record (index_id 0)'); END;
CREATE TRIGGER trigger_on_delete_for_undefined
    BEFORE DELETE ON main.node_index FOR EACH ROW WHEN OLD.index_id = 0
    BEGIN SELECT RAISE(FAIL, 'cannot delete undefined record (index_id 0)'); END;
"""


def split(v, rng):
    """A list of numbers whose sum is exactly *v*."""
    for _ in range(4):
        a = rng.randint(-5, 9) if isinstance(v, int) else rng.randint(-20, 40) / 4
        if a + (v - a) == v == (v - a) + a:
            out = [a, v - a]
            if rng.random() < 0.3:
                out = [a, v - a, 0 if isinstance(v, int) else 0.0]
            return out
    return [v]


def old_domain(rng, domain):
    """A 0.2.0 domain (or None) and the text it becomes."""
    kind = rng.choice(['plain', 'plain', 'dict', 'missing', 'empty', 'many'])
    if kind == 'plain':
        return {'domain': domain}, domain
    if kind == 'dict':
        return {'state': 'Ohio x'}, 'state_Ohio x'
    if kind == 'many':
        return {'year': '2020', 'state': 'Ohio', 'a': 'b"c'}, 'a_b"c_state_Ohio_year_2020'
    if kind == 'empty':
        return {}, ''
    return None, ''


def to_020(src, dst, rng, breaks=None):
    """Write *dst*; returns what differs from the current file by nature of the format.

    Contents that need several mappings of one pair cannot be written (ValueError).
    """
    old = sqlite3.Connection(src, isolation_level=None)
    cols = [r[1] for r in old.execute("PRAGMA table_info('label_index')")][1:]
    con = sqlite3.Connection(dst, isolation_level=None)
    info = {}
    try:
        for p in MAGIC:
            con.execute(f'PRAGMA {p} = {old.execute("PRAGMA " + p).fetchone()[0]}')
        con.execute('BEGIN')
        con.execute('CREATE TABLE node_index(index_id INTEGER PRIMARY KEY AUTOINCREMENT' + ''.join(
            f""", {q(c)} TEXT NOT NULL CHECK ({q(c)} != '') DEFAULT '-'""" for c in cols) + ')')
        con.execute('CREATE TABLE location(_location_id INTEGER PRIMARY KEY' + ''.join(
            f", {q(c)} TEXT NOT NULL DEFAULT ''" for c in cols) + ')')
        con.execute('CREATE TABLE structure(_structure_id INTEGER PRIMARY KEY, _granularity REAL' + ''.join(
            f", {q(c)} INTEGER NOT NULL CHECK ({q(c)} IN (0, 1)) DEFAULT 0" for c in cols) + ')')
        for stmt in DDL.split(';'):
            if stmt.strip():
                con.execute(stmt)

        def copy(a, b, names='*'):
            rows = old.execute(f'SELECT {names} FROM {a}').fetchall()
            for r in rows:
                con.execute(f'INSERT INTO {b} VALUES ({", ".join("?" * len(r))})', r)
            return rows
        copy('label_index', 'node_index')
        copy('label_location', 'location')
        copy('label_structure', 'structure')
        copy('weight_group', 'weight_group')
        copy('weight', 'weight')
        groups = copy('attribute_group', 'attribute_group')
        links = copy('link', 'crosswalk')
        n, dup = 0, 0
        rows = old.execute('SELECT _location_id, attribute_group_id, quantity_value FROM quantity').fetchall()
        out = []
        for lid, aid, v in rows:
            parts = split(v, rng) if rng.random() < 0.4 else [v]
            dup += len(parts) > 1
            out += [(lid, aid, x) for x in parts]
        rng.shuffle(out)
        for r in out:
            n += rng.choice([1, 1, 1, 3])
            con.execute('INSERT INTO quantity VALUES (?, ?, ?, ?)', (n,) + r)
        info['split'] = dup
        whole = bytearray((len(cols) + 7) // 8)
        for k in range(len(cols)):
            whole[k // 8] |= 128 >> (k % 8)
        whole = bytes(whole)
        seen, nulls, n = set(), 0, 0
        rows = [('u', r[0]) for r in links if rng.random() < 0.6]
        rows += old.execute('SELECT link_id, other_index_id, index_id, mapping_level, mapping_value, proportion '
                            'FROM mapping').fetchall()
        for r in rows:
            n += rng.choice([1, 1, 2])
            if r[0] == 'u':
                con.execute('INSERT INTO relation VALUES (?, ?, 0, 0, ?, 0.0, 1.0)', (n, r[1],
                            rng.choice([None, whole])))
                info['undefined'] = info.get('undefined', 0) + 1
                continue
            if r[:3] in seen:
                raise ValueError('several mappings of one pair')
            seen.add(r[:3])
            level = r[3]
            if bytes(level) == whole and rng.random() < 0.5:
                level = None
                nulls += 1
            con.execute('INSERT INTO relation VALUES (?, ?, ?, ?, ?, ?, ?)',
                        (n, r[0], r[1], r[2], level, float(r[4]), r[5]))
        info['nulls'] = nulls
        props = dict(old.execute('SELECT key, value FROM property').fetchall())
        for k in ('registered_attributes', 'user_properties', 'created_date', 'label_display_order', 'domain'):
            props.pop(k, None)
        domain = json.loads(old.execute("SELECT value FROM property WHERE key='domain'").fetchone()[0]) \
            if old.execute("SELECT count(*) FROM property WHERE key='domain'").fetchone()[0] else ''
        d, text = old_domain(rng, domain)
        if d is not None:
            props['domain'] = json.dumps(d)
        info['domain'] = text
        if 'partition_definitions' in props:
            props['discrete_categories'] = props.pop('partition_definitions')
        props['toron_schema_version'] = '"0.2.0"'
        info['registered'] = sorted({k for _, a in groups for k in json.loads(a)})
        if breaks == 'domain':
            props['domain'] = '"just text"'
        for k, v in props.items():
            con.execute('INSERT INTO property VALUES (?, ?)', (k, v))
        if cols:
            names = ', '.join(q(c) for c in cols)
            con.execute(f'CREATE UNIQUE INDEX unique_index_label_columns ON node_index({names})')
            con.execute(f'CREATE UNIQUE INDEX unique_location_label_columns ON location({names})')
            con.execute(f'CREATE UNIQUE INDEX unique_structure_label_columns ON structure({names})')
        for t in TRIGGERS.strip().split('END;'):
            if t.strip():
                con.execute(t + 'END;')
        if breaks == 'weight':
            con.execute('INSERT INTO weight_group VALUES (9999, ?, NULL, NULL, 0)', ('orphans',))
            con.execute('INSERT INTO weight VALUES (9999, 9999, 77777, 1.0)')
        elif breaks == 'relation':
            con.execute('INSERT INTO relation VALUES (99999, NULL, 5, 0, NULL, 1.0, 1.0)')
        elif breaks == 'quantity':
            con.execute('INSERT INTO quantity VALUES (99999, NULL, NULL, 1)')
        seq = old.execute("SELECT seq FROM sqlite_sequence WHERE name='label_index'").fetchone()
        con.execute("DELETE FROM sqlite_sequence")
        if seq:
            con.execute("INSERT INTO sqlite_sequence VALUES ('node_index', ?)", seq)
        con.execute('COMMIT')
    finally:
        con.close()
        old.close()
    return info


def dump(path):
    """Every table of a database file of any version, and its schema."""
    con = sqlite3.Connection(path, isolation_level=None)
    try:
        con.execute('PRAGMA wal_checkpoint').fetchall()
        out = {'': con.execute("SELECT type, name, sql FROM sqlite_master ORDER BY 1, 2").fetchall()}
        for kind, name, _ in out['']:
            if kind == 'table':
                out[name] = con.execute(f'SELECT * FROM {q(name)} ORDER BY 1, 2').fetchall()
        return out
    finally:
        con.close()
