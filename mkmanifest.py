"""Writes /verif/MANIFEST.json from the check modules that exist."""
import importlib.util
import json
import os
import re

HERE = os.path.dirname(os.path.abspath(__file__))
NOTES = {
    'C01': ('reference monitor (exact fractions) over random edit histories',
            'Rows of real disaggregations are compared with an independent exact-arithmetic '
            'recomputation from the stored contents; explored by random histories, not exhaustive.'),
    'C02': ('reference monitor (exact fractions) over random chains of linked spaces',
            'Rows of real translations are compared with an independent recomputation; links, '
            'mappings and source contents come from random histories.'),
    'C03': ('trace checker over generated quantity lists and quantized readers',
            'Exact rational checks of every result (whole, total, within one, order-free, '
            'run-independent) over generated inputs below 2**50.'),
    'C04': ('fault injection at every statement / row with before-after state monitor',
            'Every statement of each sampled operation is failed once (injected database errors, '
            'interrupts, full disk) and raw contents are compared; sampled prior states.'),
    'C05': ('process killed at every file-system call, reopened state monitor',
            'An LD_PRELOAD shim kills the process before/after each modifying call (incl. torn '
            'writes); does not model loss of the page cache (power failure).'),
    'C06': ('before-after state monitor over random histories and saves',
            'Raw dumps, public views, flows and follow-up behaviour compared across saves/loads.'),
    'C07': ('differential monitor: one history run in several storage modes at once',
            'Outcome, exception type and contents compared after every step.'),
    'C08': ('reference model monitor over random histories', ''),
    'C09': ('fingerprint/staleness monitor over random two-sided histories', ''),
    'C10': ('reference model monitor over random histories', ''),
    'C11': ('reference model and invariant monitor over random histories', ''),
    'C12': ('invariant monitor (recomputed closure and granularity) over random histories', ''),
    'C13': ('grammar-generated texts vs an independent parser/matcher', ''),
    'C14': ('reference matcher compared with loaded mappings over generated tables', ''),
    'C15': ('conservation monitor over random merge/delete/reify histories', ''),
    'C16': ('reference model monitor over random histories', ''),
    'C17': ('referential-integrity monitor over raw tables after every step', ''),
    'C18': ('migration of generated old-format files vs reference, faults at every statement', ''),
    'C19': ('byte/directory-listing monitor over mixed open modes and failed saves', ''),
    'C20': ('round-trip monitor: exported CSV loaded back through the command line', ''),
    'C21': ('metamorphic monitor: same history with plain and hostile text', ''),
    'C22': ('multi-process histories checked offline for a serial explanation', ''),
    'C23': ('snapshot/exactly-once monitor over interleaved readers', ''),
    'C24': ('reference reshaping vs generated tables', ''),
    'C25': ('reference model monitor over random column-change histories', ''),
    'C26': ('differential monitor: command line vs API on equal files', ''),
    'C27': ('reference model monitor over random histories', ''),
    'C28': ('reports of the running code taken apart and compared with an independent reader over random histories', ''),
    'C29': ('recorded file-system calls replayed into power-failure states, opened by the real code', 'model of what unflushed data may become; see DESIGN.md'),
    'C30': ('reference model monitor over random histories of the legacy node', ''),
}
DEFAULT = ('Random exploration of the real code with an independent oracle after every step; '
           'no exhaustiveness is claimed.')


def main():
    props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
    checks, missing = [], []
    for p in props:
        i = p['id']
        path = os.path.join(HERE, 'vt', 'checks', i.lower() + '.py')
        if not os.path.exists(path):
            missing.append({'property': i, 'reason': 'check not built yet (the family applies)'})
            continue
        level = re.search(r"^LEVEL = '(\w+)'", open(path).read(), re.M).group(1)
        tech, note = NOTES[i]
        checks.append({'property': i, 'quick_cmd': f'./check {i} quick',
                       'thorough_cmd': f'./check {i} thorough',
                       'technique': 'runtime monitoring: ' + tech, 'level': level,
                       'level_note': note or DEFAULT})
    data = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': missing,
            'notes': 'No hooks in /repo are needed: instrumentation is installed from outside '
                     '(sqlite3 factories, LD_PRELOAD, wrapped iterators).'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(data, f, indent=1)
        f.write('\n')
    print(len(checks), 'checks,', len(missing), 'missing')


if __name__ == '__main__':
    main()
