#!/opt/venv/bin/python
"""Writes /verif/MANIFEST.json."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RT = 'runtime monitoring: '
NOTE = ('Every execution of the real code under the generated workload is judged by an oracle that does not share code '
        'with the package; inputs outside the workload are not covered. ')
T = {
    'C01': ('write/read round-trip monitor against the given values, generated workload', 'Text function records of every '
            'shape; values compared field by field to the published precision.'),
    'C02': ('round-trip monitor over adversarial payload bytes, payload on disk decoded independently', 'Payloads that '
            'spell delimiters are a fixed share of the workload.'),
    'C03': ('write/read round-trip monitor against the given values', 'Labels up to nine digits.'),
    'C04': ('write/read round-trip monitor against the given values', 'All list lengths around the line width.'),
    'C05': ('write/read round-trip monitor against the given values', 'All analysis kinds and locations that are written.'),
    'C06': ('write/read round-trip monitor against the given values', 'Every field drawn independently, texts too long for '
            'their field included.'),
    'C07': ('recorded files checked offline by an independent fixed-column decoder', 'Trusts mon/spec.py, written from the '
            'published layouts.'),
    'C08': ('differential monitor: package reader against an independent decoder on encoder-made and shipped files',
            'Trusts mon/spec.py.'),
    'C09': ('index monitor against the known composition of generated files', 'Delimiter-like content in every file.'),
    'C10': ('history monitor: bytes and readings before and after every call, list against one by one',
            'Histories of up to six calls.'),
    'C11': ('online model check of call histories (list model of the file)', 'Several objects on one path, external changes '
            'and deletion.'),
    'C12': ('differential monitor: all ways of reading against single reads', 'Includes the shipped files.'),
    'C13': ('audit-hook trace of file-system events, descriptor table, folder snapshots, stdout and argument monitors',
            'Sees what CPython reports by sys.addaudithook and the state of the scratch folder.'),
    'C14': ('fault injection (unusable fields, RLIMIT_FSIZE, unwritable paths) with monitors of file bytes and readings',
            'Each listed fault point at least once per run, prior contents and positions sampled.'),
    'C15': ('fault injection (every cut offset, random garbling) with monitors of all readings, CPU and memory bounds',
            'All cut offsets of each generated file.'),
    'C16': ('call monitor of every prepare helper against a table of its restrictions', 'Each (helper, argument, kind of '
            'value) at least once per run.'),
    'C17': ('byte-level and reading monitor of repaired files, audit hook for what is written', ''),
    'C18': ('generation monitor: exact comparison of successive re-savings', 'Own, foreign and shipped files.'),
    'C19': ('conversion monitor against the quadrilaterals that were put in', ''),
    'C20': ('differential monitor: programs of calls interleaved and in threads against the same run alone in a pristine '
            'process; process settings watched', 'Thread switches every few microseconds; orders observed are counted.'),
    'C21': ('differential monitor: programs of calls in new interpreters under other settings and names', 'Locales are '
            'those of the sandbox (C, POSIX, C.UTF-8).'),
    'C22': ('differential monitor: files with and without sets of unlisted types, index, readings and bytes', 'Unlisted numbers '
            'are rather close to listed ones.'),
    'C23': ('consistency monitor of all answers on arbitrary files, with CPU, memory and descriptor bounds', 'Files of some '
            'kilobytes, up to 60.'),
    'C24': ('metamorphic monitor: sets in joined files against their reading in the file they come from', 'Includes the '
            'shipped files.'),
    'C25': ('metamorphic monitor: bytes written for equal values in different forms', 'Forms are those that numpy and '
            'Python users have; object arrays and zero-dimensional arrays are left out.'),
}
LEVEL = {'C14': 'fault_enumeration', 'C15': 'fault_enumeration'}
CMD = '/opt/venv/bin/python -B run.py '


def main():
    checks = []
    for p in sorted(T):
        tech, note = T[p]
        checks.append({'property': p, 'quick_cmd': 'VERIF_TIER=quick ' + CMD + p,
                       'thorough_cmd': 'VERIF_TIER=thorough ' + CMD + p,
                       'evidence_file': 'evidence/%s.json' % p, 'technique': RT + tech,
                       'level': LEVEL.get(p, 'exploration'), 'level_note': (NOTE + note).strip()})
    m = {'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': [],
         'notes': 'pyuff is imported from /repo (no build product is used); no hooks in /repo are needed.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
