"""Faults at database statements, installed from outside the code under test.

``sqlite3.connect`` is replaced (before toron is imported) by a function that
adds a thin subclass to the requested connection factory once ``ENABLED`` is
set.  Disarmed, the subclass passes everything through.
"""
import sqlite3

ENABLED = False
TIMEOUT = None      # replaces the time connections wait for locks
_real_connect = sqlite3.connect
_classes = {}


class Injected(sqlite3.OperationalError):
    """An injected database error."""


class Plan(object):
    """Counts database events and fires one fault.

    Events are statements ('S'), rows fetched ('F') and connections opened
    ('C').  ``at`` is the number of the event that fails, ``kind`` how:

    err    database error instead of executing the statement
    late   interrupt right after the statement was executed
    mid    the engine itself aborts the statement part way
    full   from this statement on the database cannot grow any more
    kbd    interrupt instead of executing the statement
    """

    def __init__(self, at=None, kind='err'):
        self.at, self.kind = at, kind
        self.n = 0
        self.fired = None
        self.trace = []          # (letter, sql) of every event
        self.limited = None

    def event(self, letter, sql=''):
        self.n += 1
        self.trace.append((letter, sql))
        return self.at is not None and self.n == self.at and self.fired is None


_plan = None


def arm(plan):
    global _plan
    _plan = plan


def disarm():
    global _plan
    plan, _plan = _plan, None
    if plan is not None and plan.limited is not None:
        con = plan.limited
        try:
            sqlite3.Connection.execute(con, 'PRAGMA max_page_count=1073741823')
        except sqlite3.Error:
            pass
        plan.limited = None


def _ends(sql):
    return isinstance(sql, str) and sql.lstrip()[:8].upper().startswith(('COMMIT', 'END', 'ROLLBACK'))


def is_write(sql):
    return isinstance(sql, str) and sql.lstrip()[:6].upper() in (
        'INSERT', 'UPDATE', 'DELETE', 'CREATE', 'ALTER ', 'DROP T', 'DROP I', 'DROP V', 'REPLAC')


def _statement(con, sql, call):
    plan = _plan
    if plan is None:
        return call()
    if not plan.event('S', sql if isinstance(sql, str) else repr(sql)):
        return call()
    head = sql.lstrip()[:8].upper() if isinstance(sql, str) else ''
    if head.startswith('ROLLBACK'):
        return call()            # the engine always manages to roll back
    kind = plan.kind
    if kind == 'err':
        plan.fired = sql
        raise Injected('disk I/O error (injected)')
    if kind == 'kbd':
        plan.fired = sql
        raise KeyboardInterrupt('injected')
    if kind == 'late':
        if _ends(sql):
            return call()
        result = call()
        if not con.in_transaction:
            return result
        plan.fired = sql
        raise KeyboardInterrupt('injected, late')
    if kind == 'mid':
        if _ends(sql):
            return call()
        plan.fired = sql
        sqlite3.Connection.set_progress_handler(con, lambda: 1, 1)
        try:
            return call()
        finally:
            sqlite3.Connection.set_progress_handler(con, None, 0)
    if kind == 'full':
        plan.fired = sql
        n = sqlite3.Connection.execute(con, 'PRAGMA page_count').fetchone()[0]
        sqlite3.Connection.execute(con, f'PRAGMA max_page_count={n}')
        plan.limited = con
        return call()
    raise AssertionError(kind)


def _fetch(cur):
    plan = _plan
    if plan is None:
        return
    if plan.event('F'):
        if plan.kind in ('kbd', 'late'):
            plan.fired = 'fetch'
            raise KeyboardInterrupt('injected')
        if plan.kind == 'err':
            plan.fired = 'fetch'
            raise Injected('disk I/O error (injected, fetch)')


class Cursor(sqlite3.Cursor):
    def execute(self, sql, *args):
        return _statement(self.connection, sql, lambda: sqlite3.Cursor.execute(self, sql, *args))

    def executemany(self, sql, *args):
        return _statement(self.connection, sql, lambda: sqlite3.Cursor.executemany(self, sql, *args))

    def executescript(self, sql):
        return _statement(self.connection, sql, lambda: sqlite3.Cursor.executescript(self, sql))

    def __next__(self):
        _fetch(self)
        return sqlite3.Cursor.__next__(self)

    def fetchone(self):
        _fetch(self)
        return sqlite3.Cursor.fetchone(self)

    def fetchall(self):
        _fetch(self)
        return sqlite3.Cursor.fetchall(self)

    def fetchmany(self, *args, **kwds):
        _fetch(self)
        return sqlite3.Cursor.fetchmany(self, *args, **kwds)


def _make_class(base):
    if base in _classes:
        return _classes[base]

    class Connection(base):
        def cursor(self, factory=None):
            if factory is None:
                factory = Cursor
            return base.cursor(self, factory)

        def execute(self, sql, *args):
            return _statement(self, sql, lambda: base.cursor(self).execute(sql, *args))

        def executemany(self, sql, *args):
            return _statement(self, sql, lambda: base.cursor(self).executemany(sql, *args))

        def executescript(self, sql):
            return _statement(self, sql, lambda: base.cursor(self).executescript(sql))

        def commit(self):
            return _statement(self, 'COMMIT', lambda: base.commit(self))

    Connection.__name__ = base.__name__
    _classes[base] = Connection
    return Connection


def connect(database, *args, **kwds):
    if not ENABLED:
        return _real_connect(database, *args, **kwds)
    plan = _plan
    if plan is not None and plan.event('C', str(database)):
        if plan.kind in ('kbd', 'late'):
            plan.fired = 'connect'
            raise KeyboardInterrupt('injected')
        if plan.kind in ('err', 'full'):
            plan.fired = 'connect'
            raise Injected('unable to open database file (injected)')
    if TIMEOUT is not None and not args:
        kwds['timeout'] = TIMEOUT
    if len(args) >= 5:
        args = list(args)
        args[4] = _make_class(args[4])
    else:
        kwds['factory'] = _make_class(kwds.get('factory', sqlite3.Connection))
    return _real_connect(database, *args, **kwds)


sqlite3.connect = connect
