"""Where a space lives: in memory, in a cache on drive, or bound to a file."""
import os

import toron

KINDS = ('mem', 'cache', 'file')


def create(kind, d):
    """A new empty space kept in the given way (*d* is a CaseDir)."""
    if kind == 'mem':
        return toron.DataSpace()
    if kind == 'cache':
        return toron.DataSpace(cache_to_drive=True)
    if kind == 'file':
        return toron.bind_file(d.path(), mode='rwc')
    raise AssertionError(kind)


def move(space, kind, d, rng=None):
    """Save *space* and open the saved file as the given kind."""
    path = d.path()
    space.to_file(path, fsync=False)
    return load(path, kind, rng)


def bind(path, mode, rng=None):
    """Bind to a file, by a relative path from a directory left right afterwards if *rng* says so."""
    if rng is None or rng.random() < 0.5:
        return toron.bind_file(path, mode=mode)
    home = os.getcwd()
    base = os.path.dirname(path)
    if rng.random() < 0.5:
        base = os.path.dirname(base)
    os.chdir(base)
    try:
        return toron.bind_file(os.path.relpath(path, base), mode=mode)
    finally:
        os.chdir(home)


def load(path, kind, rng=None):
    if kind == 'mem':
        return toron.read_file(path)
    if kind == 'cache':
        return toron.read_file(path, cache_to_drive=True)
    if kind == 'file':
        return bind(path, 'rw', rng)
    if kind == 'ro':
        return bind(path, 'ro', rng)
    raise AssertionError(kind)
