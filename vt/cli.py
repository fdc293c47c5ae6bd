"""Running the command line in this process."""
import io
import logging
import os
import re
import struct
import sys
import uuid
from binascii import crc32

from toron.cli.main import main


def code(index_id, unique_id):
    """The record code of a record, computed independently."""
    data = struct.pack('>q', index_id) + uuid.UUID(unique_id).bytes
    return '%dX%08X' % (index_id, crc32(data) & 0xffffffff)


class Stream(io.TextIOWrapper):
    """A text stream that is, or is not, a terminal."""

    def __init__(self, data=b'', tty=False):
        super().__init__(io.BytesIO(data), encoding='utf-8', newline='')
        self._tty = tty

    def isatty(self):
        return self._tty


class Result(object):
    def __init__(self, code, out, err, exc):
        self.code, self.out, self.err, self.exc = code, out, err, exc
        self.ok = exc is None and code == 0
        self.log = []
        for line in err.splitlines():
            m = re.match(r'(DEBUG|INFO|WARNING|ERROR|CRITICAL): (.*)', line)
            if m:
                self.log.append((getattr(logging, m.group(1)), m.group(2)))
            elif self.log:
                self.log[-1] = (self.log[-1][0], self.log[-1][1] + '\n' + line)

    def __repr__(self):
        return (f'<exit {self.code!r}' + (f', {self.exc!r}' if self.exc is not None else '') +
                f', out {self.out[:400]!r}, err {self.err[:600]!r}>')


def run(argv, stdin=None):
    """Run a command; *stdin* None stands for a terminal, text for a pipe."""
    tty = stdin is None
    data = (stdin or '') if not isinstance(stdin, bytes) else stdin
    if isinstance(data, str):
        data = data.encode('utf-8')
    si, so, se = Stream(data, tty), Stream(b'', False), Stream(b'', False)
    keep = sys.stdin, sys.stdout, sys.stderr
    sys.stdin, sys.stdout, sys.stderr = si, so, se
    logging.disable(logging.NOTSET)
    exc = None
    try:
        rc = main(list(argv), stdin=si, stdout=so, stderr=se)
    except SystemExit as e:
        rc = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
    except Exception as e:
        rc, exc = None, e
    finally:
        logging.disable(logging.CRITICAL)
        sys.stdin, sys.stdout, sys.stderr = keep
    texts = []
    for s in (so, se):
        try:
            s.flush()
        except ValueError:
            pass
        texts.append(s.buffer.getvalue().decode('utf-8'))
    return Result(int(rc) if rc is not None else None, texts[0], texts[1], exc)
