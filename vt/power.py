"""What a power failure may leave of recorded file-system calls (native/recorder.c)."""
import os
import struct

SECTOR = 512


class Event(object):
    __slots__ = ('kind', 'path', 'path2', 'data', 'off')

    def __init__(self, kind, path, path2, data, off):
        self.kind, self.path, self.path2, self.data, self.off = kind, path, path2, data, off

    def __repr__(self):
        return (f'{self.kind} {os.path.basename(self.path)}' + (f' -> {os.path.basename(self.path2)}' if self.path2 else '') +
                (f' {self.off}+{len(self.data)}' if self.kind == 'w' else f' {self.off}' if self.kind in 'tk' else ''))


def parse(log):
    with open(log, 'rb') as f:
        buf = f.read()
    out, pos = [], 0
    while pos < len(buf):
        kind = buf[pos:pos + 1].decode()
        a, b, n, off = struct.unpack_from('=IIIq', buf, pos + 1)
        pos += 21
        p1, p2 = os.fsdecode(buf[pos:pos + a]), os.fsdecode(buf[pos + a:pos + a + b])
        pos += a + b
        out.append(Event(kind, p1, p2, buf[pos:pos + n], off))
        pos += n
    return out


class File(object):
    def __init__(self, data=b''):
        self.safe = bytes(data)         # what is on the drive for certain
        self.now = bytearray(data)      # what programs see
        self.pending = []               # changes since the last flush

    def change(self, item):
        apply(self.now, item)
        self.pending.append(item)

    def flush(self):
        self.safe = bytes(self.now)
        self.pending = []


def apply(buf, item):
    off, data = item
    if data is None:
        if off < len(buf):
            del buf[off:]
        else:
            buf.extend(b'\0' * (off - len(buf)))
    else:
        if off > len(buf):
            buf.extend(b'\0' * (off - len(buf)))
        buf[off:off + len(data)] = data


class Disk(object):
    """Files below one directory, replayed event by event."""

    def __init__(self, root):
        self.root = root
        self.names = {}
        for base, _, files in os.walk(root):
            for f in files:
                p = os.path.join(base, f)
                with open(p, 'rb') as g:
                    self.names[p] = File(g.read())
        self.safe = dict(self.names)
        self.moves = []                 # pending changes of names: (name, File or None) lists

    def rename_op(self, *items):
        for name, f in items:
            if f is None:
                self.names.pop(name, None)
            else:
                self.names[name] = f
        self.moves.append(items)

    def step(self, e):
        k, p = e.kind, e.path
        f = self.names.get(p)
        if k in 'oz':
            if f is None:
                self.rename_op((p, File()))
            elif k == 'z':
                f.change((0, None))
        elif k == 'w' and f is not None:
            f.change((e.off, e.data))
        elif k == 't' and f is not None:
            f.change((e.off, None))
        elif k == 's':
            if f is not None:
                f.flush()
            elif os.path.basename(p) != '' and p not in self.names:
                self.flush_names(p)
        elif k == 'S':
            for f in set(self.names.values()) | set(self.safe.values()):
                f.flush()
            self.safe, self.moves = dict(self.names), []
        elif k == 'r':
            if f is not None:
                self.rename_op((p, None), (e.path2, f))
            else:                       # something from elsewhere: not seen being written
                raise LookupError(f'{p} is not known')
        elif k == 'l' and f is not None:
            self.rename_op((e.path2, f))
        elif k == 'u' and f is not None:
            self.rename_op((p, None))

    def flush_names(self, d):
        keep = []
        for items in self.moves:
            if any(os.path.dirname(n) == d for n, _ in items):
                for n, f in items:
                    _set(self.safe, n, f)
            else:
                keep.append(items)
        self.moves = keep

    def unflushed(self):
        files = set(self.names.values()) | set(self.safe.values())
        return sum(len(f.pending) for f in files), len(self.moves)

    def failure(self, rng, data, moves):
        """Contents by name after losing power.

        *data*: 'none' (nothing unflushed survives), 'all', or 'some'
        (any part, in any order); *moves*: 'all' (changes of names take
        effect at once) or 'some' (the first few of the unflushed ones).
        """
        names = dict(self.names)
        if moves == 'some':
            names = dict(self.safe)
            for items in self.moves[:rng.randint(0, len(self.moves))]:
                for n, f in items:
                    _set(names, n, f)
        out, done = {}, {}
        for n, f in names.items():
            if f not in done:
                done[f] = persisted(f, rng, data)
            out[n] = done[f]
        return out


def _set(names, n, f):
    if f is None:
        names.pop(n, None)
    else:
        names[n] = f


def persisted(f, rng, how):
    if how == 'all' or not f.pending:
        return bytes(f.now)
    if how == 'none':
        return f.safe
    buf = bytearray(f.safe)
    p = rng.choice([0.2, 0.5, 0.8])
    last = rng.random() < 0.3           # the later ones are the likelier ones, at times
    for n, item in enumerate(f.pending):
        chance = p if not last else (n + 1) / len(f.pending)
        if rng.random() >= chance:
            continue
        off, data = item
        if data is not None and len(data) > SECTOR and rng.random() < 0.2:
            a = rng.randrange(0, len(data), SECTOR)
            b = min(len(data), a + SECTOR * rng.randint(1, 6))
            item = (off + a, data[a:b])
        apply(buf, item)
    return bytes(buf)
