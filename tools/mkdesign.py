"""Fills the tables of DESIGN.md from the sources of truth: python3 tools/mkdesign.py (DESIGN.tmpl.md -> DESIGN.md)"""
import ast, json, os, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = open(os.path.join(HERE, 'tools', 'DESIGN.tmpl.md')).read()
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
times = json.load(open(os.path.join(HERE, 'tools', 'times.json')))
kf = json.load(open(os.path.join(HERE, 'known_findings.json')))
rows, details = [], []
for p in props:
    path = os.path.join(HERE, 'mc', 'props', p['id'].lower() + '.py')
    if not os.path.exists(path):
        continue
    mod = ast.parse(open(path).read())
    g = {'docs': None}
    for n in mod.body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ('RULE', 'BOUNDS', 'ASSUMPTIONS', 'NOT_TESTABLE'):
            g[n.targets[0].id] = ast.literal_eval(n.value)
    doc = ast.get_docstring(mod).split('\n', 2)[2].strip()
    rows.append('| %s | %s | %s | %s |' % (p['id'], p['title'], 'see below', times.get(p['id'], '')))
    details.append('### %s %s\n\n%s\n\n*States and transitions.* %s.\n\n*Bounds.* Quick: %s. Thorough: %s.\n\n*Outside.* %s.\n\n*Why tests cannot.* %s.\n' % (
        p['id'], p['title'], doc, g['RULE'].rstrip('.'), g['BOUNDS']['quick'], g['BOUNDS']['thorough'], '; '.join(g.get('ASSUMPTIONS', ['nothing'])), p['why_tests_cant'].rstrip('.')))
seeds = []
notes = json.load(open(os.path.join(HERE, 'tools', 'seednotes.json')))
for s in sorted(os.listdir(os.path.join(HERE, 'seeded'))):
    m = json.load(open(os.path.join(HERE, 'seeded', s, 'meta.json')))
    seeds.append('| %s | %s | %s | %s | %s |' % (s, m['property'], m['needs'], m['what_it_breaks'], notes.get(s, 'caught')))
t = t.replace('| | explored | oracle | time |\n|---|---|---|---|\n@TABLE@', '| | property | time |\n|---|---|---|\n' + '\n'.join(re.sub(r' \| see below', '', r) for r in rows))
t = t.replace('@DETAILS@', '\n'.join(details))
t = t.replace('@FIXED@', '\n'.join('* ' + x[len('fixed: '):] for x in kf['fixed']))
t = t.replace('@FINDINGS@', '\n'.join('* **%s** (%s): %s. %s. Example: `%s`' % (f['id'], f['property'], f['what'], f['where'], f.get('example', '')) for f in kf['findings']))
t = t.replace('@SEEDS@', '| id | property | needs | breaks | result |\n|---|---|---|---|---|\n' + '\n'.join(seeds))
open(os.path.join(HERE, 'DESIGN.md'), 'w').write(t)
