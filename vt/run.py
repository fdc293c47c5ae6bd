"""Run one property's check: python -m vt.run C08 --tier quick."""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback
from multiprocessing import connection as mpc


def _arguments():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', choices=['quick', 'thorough'],
                    default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
    ap.add_argument('--replay')
    ap.add_argument('--case', type=int, help='run only this case of the plan')
    ap.add_argument('--jobs', type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument('--limit', type=int, help='run only the first N cases')
    return ap.parse_args()


class CaseTimeout(BaseException):
    pass


def _alarm(signum, frame):
    raise CaseTimeout()


def _environment_trouble(exc):
    import errno
    if isinstance(exc, MemoryError):
        return True
    if isinstance(exc, OSError) and exc.errno in (errno.ENOSPC, errno.EMFILE, errno.ENFILE,
                                                  errno.ENOMEM, errno.EAGAIN):
        return True
    return False


def run_one(module, spec, limit):
    """Run one case; returns a plain dict describing the outcome."""
    from . import base
    rec = base.Rec()
    out = {'status': 'ok'}
    # The ids of new spaces repeat from run to run, so that a case does.
    real, seq = os.urandom, random.Random('ids' + json.dumps(spec, sort_keys=True, default=repr))
    os.urandom = lambda n: seq.randbytes(n) if n == 16 else real(n)
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        module.run_case(spec, rec)
    except base.Violation as e:
        out = {'status': 'violation', 'message': e.message, 'mech': e.mech, 'data': e.data}
    except base.Inconclusive as e:
        out = {'status': 'inconclusive', 'message': str(e)}
    except CaseTimeout:
        out = {'status': 'timeout', 'message': f'no end after {limit:.0f} s'}
    except BaseException as e:
        tb = traceback.format_exc(limit=-10)
        if _environment_trouble(e):
            out = {'status': 'inconclusive', 'message': tb[-1500:]}
        else:
            out = {'status': 'violation', 'mech': None, 'data': None,
                   'message': 'unexpected exception during the case:\n' + tb[-3500:]}
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        os.urandom = real
    out['rec'] = rec.dump()
    return out


def _worker(module_name, specs, order, next_index, conn, parent_dir, limit):
    os.environ['VT_SCRATCH'] = parent_dir
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    sys.unraisablehook = lambda info: None   # finalizers of spaces outliving their case
    module = importlib.import_module(module_name)
    try:
        while True:
            with next_index.get_lock():
                k = next_index.value
                next_index.value = k + 1
            if k >= len(order):
                break
            i = order[k]
            conn.send(('start', i, None))
            conn.send(('done', i, run_one(module, specs[i], limit)))
        conn.send(('end', None, None))
    except (BrokenPipeError, EOFError):
        pass
    finally:
        conn.close()
        sys.stdout.flush()
        os._exit(0)


class Total(object):
    def __init__(self):
        self.counters, self.sigs, self.samples = {}, set(), []
        self.evals = self.cases = 0
        self.violations, self.inconclusive = [], []

    def add(self, i, spec, out):
        rec = out['rec']
        self.cases += 1
        self.evals += rec['evals']
        for k, v in rec['counters'].items():
            self.counters[k] = self.counters.get(k, 0) + v
        self.sigs |= rec['sigs']
        if len(self.samples) < 4:
            self.samples += rec['samples'][:1]
        if out['status'] == 'violation':
            self.violations.append((i, spec, out))
        elif out['status'] != 'ok':
            self.inconclusive.append((i, spec, out))


def run_all(module, specs, jobs, scratch, limit, stop_after=3, workers=None, known=()):
    total = Total()
    ctx = mp.get_context('fork')
    next_index = ctx.Value('l', 0)
    order = list(range(len(specs)))
    procs = {}
    for _ in range(min(workers or jobs, max(1, len(specs)))):
        r, w = ctx.Pipe(duplex=False)
        p = ctx.Process(target=_worker, args=(module.__name__, specs, order, next_index, w,
                                              scratch, limit))
        p.start()
        w.close()
        procs[r] = [p, None, 0.0]
    retry = []
    stopping = False
    while procs:
        ready = mpc.wait(list(procs), timeout=1.0)
        for r, p in procs.items():         # blocked where no signal gets through
            if p[1] is not None and r not in ready and time.time() - p[2] > limit + 30:
                p[0].kill()
                rec = {'counters': {}, 'sigs': set(), 'samples': [], 'evals': 0}
                total.add(p[1], specs[p[1]], {
                    'status': 'violation', 'mech': None, 'data': None, 'rec': rec,
                    'message': f'the case did not end within {limit + 30} s'})
                p[1] = None
        for r in ready:
            p = procs[r]
            try:
                kind, i, out = r.recv()
            except (EOFError, OSError):
                p[0].join()
                if p[1] is not None and not stopping:
                    code = p[0].exitcode
                    rec = {'counters': {}, 'sigs': set(), 'samples': [], 'evals': 0}
                    if code in (-signal.SIGKILL, -signal.SIGTERM):
                        out = {'status': 'inconclusive', 'message': f'worker killed ({code})', 'rec': rec}
                    else:
                        out = {'status': 'violation', 'mech': None, 'data': None, 'rec': rec,
                               'message': f'the process running the case ended with {code}'}
                    total.add(p[1], specs[p[1]], out)
                del procs[r]
                continue
            if kind == 'start':
                p[1], p[2] = i, time.time()
            elif kind == 'done':
                p[1] = None
                if out['status'] == 'timeout':
                    retry.append(i)
                else:
                    total.add(i, specs[i], out)
            if not stopping and sum(v[2].get('mech') not in known for v in total.violations) >= stop_after:
                stopping = True
                with next_index.get_lock():
                    next_index.value = len(order)
    for r in list(procs):
        procs[r][0].join()
    return total, retry


def known_findings(verif, prop):
    """Open findings: mechanism -> text.  ('fixed:' lines suppress nothing.)"""
    out = {}
    path = os.path.join(verif, 'known_findings.txt')
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if line.startswith('open:') and f'property={prop} ' in line + ' ':
                    words = dict(w.split('=', 1) for w in line.split() if '=' in w)
                    if 'mech' in words:
                        out[words['mech']] = line[5:].strip()
    return out


def main():
    args = _arguments()
    if os.environ.get('PYTHONHASHSEED') != '0':
        os.environ['PYTHONHASHSEED'] = '0'
        os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
        os.execv(sys.executable, [sys.executable, '-m', 'vt.run'] + sys.argv[1:])
    started = time.time()
    from . import base
    prop = args.property
    module = importlib.import_module(f'vt.checks.{prop.lower()}')
    base_dir = '/dev/shm' if os.access('/dev/shm', os.W_OK) and \
        shutil.disk_usage('/dev/shm').free > 2 << 30 else tempfile.gettempdir()
    scratch = tempfile.mkdtemp(prefix=f'vt-{prop}-', dir=base_dir)
    os.environ['VT_SCRATCH'] = scratch
    try:
        return execute(args, module, prop, scratch, base, started)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def execute(args, module, prop, scratch, base, started):
    if args.replay:
        with open(args.replay) as f:
            saved = json.load(f)
        out = run_one(module, saved['spec'], 600)
        print(out['status'], out.get('message', ''))
        if out['status'] == 'violation':
            print(f'VIOLATION property={prop} replay={args.replay}')
            return 1
        return 0 if out['status'] == 'ok' else 2
    specs = module.plan(args.tier, args.seed)
    if args.case is not None:
        specs = [specs[args.case]]
    if args.limit:
        specs = specs[:args.limit]
    limit = getattr(module, 'CASE_LIMIT', 60)
    if hasattr(module, 'prepare'):
        module.prepare(scratch)
    known = known_findings(base.VERIF, prop)
    total, retry = run_all(module, specs, args.jobs, scratch, limit,
                           workers=getattr(module, 'WORKERS', None), known=known)
    for i in retry[:2]:          # alone, with three times the time
        again = run_one(module, specs[i], limit * 3)
        if again['status'] == 'timeout':
            again['status'] = 'violation'
            again['mech'] = 'hang'
            again['data'] = None
            again['message'] = f'the case does not end ({limit * 3:.0f} s alone)'
        total.add(i, specs[i], again)
    if hasattr(module, 'finish'):
        module.finish(total, args.tier)
    verif = base.VERIF
    new, seen = [], set()
    for i, spec, out in sorted(total.violations, key=lambda v: v[0]):
        if out.get('mech') in known:
            seen.add(out['mech'])
        else:
            new.append((i, spec, out))
    for mech, text in known.items():
        print(f'KNOWN-FINDING: {text}')
    low = []
    if not args.limit and args.case is None:
        minimum = getattr(module, 'MIN', {})
        low = [f'{k}: {total.counters.get(k, 0)} < {n}' for k, n in minimum.items()
               if total.counters.get(k, 0) < n]
    wall = time.time() - started
    evidence = {
        'property': prop, 'tier': args.tier, 'seed': args.seed, 'level': module.LEVEL,
        'coverage': {
            'evaluations': total.evals, 'distinct_nontrivial': len(total.sigs),
            'rule': module.RULE, 'samples': total.samples or ['(no sample recorded)'],
            'cases': total.cases, 'observed': dict(sorted(total.counters.items())),
            'inconclusive_cases': len(total.inconclusive),
        },
        'assumptions': list(getattr(module, 'ASSUMPTIONS', [])),
        'wall_s': round(wall, 2), 'violations': len(new),
    }
    os.makedirs(os.path.join(verif, 'evidence'), exist_ok=True)
    with open(os.path.join(verif, 'evidence', f'{prop}.json'), 'w') as f:
        json.dump(evidence, f, indent=1, ensure_ascii=True)
        f.write('\n')
    code = 0
    if new:
        os.makedirs(os.path.join(verif, 'replays'), exist_ok=True)
        for n, (i, spec, out) in enumerate(new[:3]):
            path = os.path.join(verif, 'replays', f'{prop}-{args.tier}-{args.seed}-{i}.json')
            with open(path, 'w') as f:
                json.dump({'property': prop, 'spec': spec, 'case': i, 'message': out['message'],
                           'data': out.get('data')}, f, indent=1, default=repr)
            print(f'case {i}: {out["message"][:3000]}')
            print(f'VIOLATION property={prop} replay={path}')
        code = 1
    for i, spec, out in total.inconclusive[:3]:
        print(f'inconclusive case {i}: {out["message"][-800:]}')
    if code == 0 and (low or len(total.inconclusive) > max(2, total.cases // 20)):
        print(f'{prop}: not enough observed: {low} inconclusive={len(total.inconclusive)}')
        code = 2
    print(f'{prop} {args.tier}: {total.cases} cases, {total.evals} evaluations, '
          f'{len(total.sigs)} distinct, {len(new)} violations, {wall:.1f} s')
    return code


if __name__ == '__main__':
    code = main()
    sys.stdout.flush()
    os._exit(code)
