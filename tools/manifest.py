"""Regenerates /verif/MANIFEST.json from properties.jsonl and the check binaries that exist."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + '/properties.jsonl')]
NOTES = {}
try:
    exec(open(root + '/tools/level_notes.py').read())
except FileNotFoundError:
    pass
checks, na = [], []
for p in props:
    i = p['id']; b = i.lower()
    path = [root + f'/harness/{k}/src/bin/{b}.rs' for k in ('checks', 'modelchecks')]
    path = [q for q in path if os.path.exists(q)]
    if path and 'run("' in open(path[0]).read():
        tech, note = NOTES.get(i, ('property-based testing with explicit oracles', ''))
        checks.append({'property': i, 'quick_cmd': f'./check.sh {i}', 'thorough_cmd': f'./check.sh {i} --tier thorough',
                       'evidence_file': f'evidence/{i}.json', 'technique': tech, 'level': 'exploration',
                       'level_note': (note + ' ' if note else '') + 'Search over generated inputs, not a proof: inputs outside the generators are not covered. Trusts the oracle code in /verif/harness and the installed Rust toolchain.'})
    else:
        na.append({'property': i, 'reason': 'check not built yet'})
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks: every check drives the public API of /repo. Replay a failure with ./check.sh <ID> --replay <path>.'}
json.dump(m, open(root + '/MANIFEST.json', 'w'), indent=1); open(root + '/MANIFEST.json', 'a').write('\n')
print(len(checks), 'checks', len(na), 'not claimed')
