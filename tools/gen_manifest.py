import subprocess
#!/usr/bin/env python3
"""writes /verif/MANIFEST.json from the table below"""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ABS = 'static value-flow analysis (abstract interpretation over MIR with symbolic shapes and loop summaries)'
NOTE = ('Every listed operation is summarised from its MIR for all dimensions, offsets and element values at each rank and compared with the specified '
        'result; anything the analysis cannot decide is reported as undecided, never as a violation. Trusts rustc, the models of std leaf functions and the analyser.')
CLAIM = json.load(open(os.path.join(here, 'tools', 'claims.json')))
props = [json.loads(l)['id'] for l in open(os.path.join(here, 'properties.jsonl'))]
checks = []
na = []
for p in props:
    c = CLAIM.get(p)
    if c is None or 'na' in c:
        na.append(dict(property=p, reason=(c or {}).get('na', 'check not built yet')))
        continue
    checks.append(dict(property=p, quick_cmd='python3 run.py check %s' % p, thorough_cmd='python3 run.py check %s --tier thorough' % p,
                       evidence_file='evidence/%s.json' % p, technique=c.get('technique', ABS), level='other', level_note=c.get('note', NOTE)))
HOOKS = [x for x in subprocess.run(['git', '-C', '/repo', 'log', '--format=%H', '--grep=^hook:'], capture_output=True, text=True).stdout.split()]
m = dict(version=1, setup_cmd='python3 run.py setup', hooks=dict(guard='cfg(verif_hooks)', enable='RUSTFLAGS="--cfg verif_hooks" (set by run.py when it builds the analysis crate)', source_commits=HOOKS), checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), len(na))
