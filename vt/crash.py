"""Running operations in processes that end at a chosen file-system call.

``Zygote`` is a process started with native/crashpoint.c preloaded; it forks
one child per run.  Run as a module it is the zygote itself.
"""
import ctypes
import json
import os
import signal
import subprocess
import sys



def build(scratch, name='crashpoint'):
    """Compile a library once per check."""
    from .base import VERIF
    out = os.path.join(scratch, name + '.so')
    subprocess.run(['gcc', '-shared', '-fPIC', '-O1', '-o', out,
                    os.path.join(VERIF, 'native', name + '.c'), '-ldl'], check=True, timeout=120)
    return out


class Result(object):
    def __init__(self, d):
        self.died, self.returned, self.count, self.trace = d['died'], d['returned'], d['count'], d['trace']
        self.error = d['error']


class Zygote(object):
    def __init__(self, name='crashpoint'):
        from .base import VERIF
        lib = os.path.join(os.environ['VT_SCRATCH'], name + '.so')
        env = dict(os.environ, LD_PRELOAD=lib, PYTHONPATH=VERIF, VT_LIB=lib)
        self.p = subprocess.Popen([sys.executable, '-m', 'vt.crash'], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, env=env, cwd=VERIF)

    def ask(self, **msg):
        self.p.stdin.write(json.dumps(msg).encode() + b'\n')
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            raise RuntimeError('the process running the operations ended')
        return json.loads(line)

    def others(self, paths):
        self.ask(others=paths)

    def run(self, watch, steps, at=0, mode=0, target=None):
        """Do *steps* (operations on the file *target*, or saves); see the child below."""
        return Result(self.ask(watch=watch, steps=steps, at=at, mode=mode, target=target))

    def record(self, watch, steps, log, target=None):
        """The same, to the end, with all calls written to the file *log*."""
        return Result(self.ask(watch=watch, steps=steps, log=log, target=target))

    def close(self):
        self.p.stdin.close()
        self.p.wait(20)
        self.p.stdout.close()


_zygote = None


def zygote(name='crashpoint'):
    """This worker's zygote (of one kind per check)."""
    global _zygote
    if _zygote is None or _zygote[0] != os.getpid() or _zygote[1].p.poll() is not None:
        _zygote = (os.getpid(), Zygote(name))
    return _zygote[1]


# ------------------------------------------------------------- the other side

def child(msg, others, lib, out):
    """Apply the steps; report on *out* after each one that returned."""
    import toron
    from . import ops
    env = ops.Env(others)
    log = msg.get('log')
    if log:
        lib.vt_record(msg['watch'].encode(), log.encode())
    else:
        lib.vt_arm(msg['watch'].encode() + b'/', msg['at'], msg['mode'])
    space = toron.bind_file(msg['target'], mode='rw') if msg['target'] else None
    for n, step in enumerate(msg['steps'], 1):
        try:
            if 'save' in step:
                s = space
                if step['from']:
                    s = toron.read_file(step['from'], cache_to_drive=step['cache'])
                s.to_file(step['save'], fsync=step['fsync'])
            else:
                ops.apply(space, step, env)
            res = 'ok'
        except Exception as e:      # noqa: BLE001
            res = f'{type(e).__name__}: {e}'[:300].encode('utf-8', 'replace').decode()
        os.write(out, json.dumps(res).encode() + b'\n')
        if log:
            lib.vt_mark(n)
    space = s = None
    if log:
        os.write(out, json.dumps({'count': int(not lib.vt_broken()), 'trace': ''}).encode() + b'\n')
        return
    buf = ctypes.create_string_buffer(8192)
    lib.vt_trace(buf, 8192)
    os.write(out, json.dumps({'count': lib.vt_count(), 'trace': buf.value.decode()}).encode() + b'\n')


def main():
    from . import base      # noqa: F401 - selects the code under test
    import toron
    lib = ctypes.CDLL(os.environ['VT_LIB'])
    if hasattr(lib, 'vt_record'):
        lib.vt_record.argtypes = [ctypes.c_char_p, ctypes.c_char_p]
        lib.vt_mark.argtypes = [ctypes.c_long]
    else:
        lib.vt_count.restype = ctypes.c_long
        lib.vt_arm.argtypes = [ctypes.c_char_p, ctypes.c_long, ctypes.c_int]
    others = {}
    for line in sys.stdin.buffer:
        msg = json.loads(line)
        if 'others' in msg:
            others = {k: toron.read_file(p) for k, p in msg['others'].items()}
            reply = {}
        else:
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(r)
                    child(msg, others, lib, w)
                    os._exit(0)
                except BaseException as e:      # noqa: BLE001
                    os.write(w, json.dumps({'failed': repr(e)}).encode() + b'\n')
                    os._exit(1)
            os.close(w)
            with os.fdopen(r, 'rb') as f:
                lines = [json.loads(x) for x in f.read().splitlines()]
            _, status = os.waitpid(pid, 0)
            code = os.waitstatus_to_exitcode(status)
            last = lines[-1] if lines and isinstance(lines[-1], dict) else {}
            reply = {'died': code == -signal.SIGKILL, 'returned': [x for x in lines if isinstance(x, str)],
                     'count': last.get('count'), 'trace': last.get('trace'),
                     'error': last.get('failed') or (None if code in (0, -signal.SIGKILL) else f'exit {code}')}
        sys.stdout.buffer.write(json.dumps(reply).encode() + b'\n')
        sys.stdout.buffer.flush()


if __name__ == '__main__':
    main()
