"""Generates MANIFEST.json from the scenario modules that exist.  (run: python3 tools/mkmanifest.py)"""
import glob
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
mods = {os.path.basename(f).split('_')[0].upper(): f
        for f in glob.glob(os.path.join(HERE, 'scenarios', '[a-z][0-9][0-9]_*.py'))}
NA = {
    'N01': 'pure function of its argument: no concurrency, time, I/O or multi-party behaviour',
    'N02': 'pure function of document and grammar; nothing for a schedule or fault to change '
           '(history dependence is covered by P01)',
    'N03': 'pure value type without shared state, I/O or time',
    'N04': 'pure functions of text and position (include maps under I/O faults are covered by D08)',
    'N05': 'pure function of the grammar text',
    'N06': 'pure functions of the tree (re-use after failures is covered by P03)',
    'N07': 'pure function of the tree',
    'N08': 'pure function of grammar and document (state left over by earlier parses is covered by P01)',
}
checks, na = [], []
for p in props:
    pid = p['id']
    if pid in mods:
        src = open(mods[pid]).read()
        m = re.search(r'^LEVEL_NOTE = \(?(.*?)\)?\n(?=\S|\n)', src, re.M | re.S)
        note = ''
        if m:
            note = ' '.join(re.findall(r"'((?:[^'\\]|\\.)*)'", m.group(1))).replace('  ', ' ')
        checks.append({
            'property': pid,
            'quick_cmd': 'python3 check.py %s --tier quick' % pid,
            'thorough_cmd': 'python3 check.py %s --tier thorough' % pid,
            'evidence_file': 'evidence/%s.json' % pid,
            'technique': 'deterministic simulation with fault injection: seeded search over '
                         'schedules and faults, real code on a simulated environment',
            'level': 'exploration',
            'level_note': note or 'seeded random search over schedules, delays and injected faults; '
                          'nothing is enumerated exhaustively, a clean run is no proof',
        })
    else:
        na.append({'property': pid, 'reason': NA.get(pid, 'no check yet')})
man = {'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': checks, 'not_applicable': na,
       'notes': 'No hooks in /repo: the simulator interposes on the standard library (threads, '
                'locks, clocks, sockets, files, process pools) before DHParser is imported. '
                'See DESIGN.md.'}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')
print(len(checks), 'checks,', len(na), 'not applicable')
