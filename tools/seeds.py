"""Run the check of each planted bug against a scratch copy of /repo that has it (development aid; no check uses this).
   python3 tools/seeds.py [ID-substring ...]"""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = os.path.join(HERE, 'seeded')
for sid in sorted(os.listdir(D)):
    if len(sys.argv) > 1 and not any(a in sid for a in sys.argv[1:]):
        continue
    meta = json.load(open(os.path.join(D, sid, 'meta.json')))
    w = tempfile.mkdtemp(prefix='seed-')
    try:
        subprocess.check_call('cp -a /repo/. %s' % w, shell=True)
        a = subprocess.run(['git', 'apply', os.path.join(D, sid, 'patch.diff')], cwd=w, capture_output=True, text=True)
        if a.returncode:
            print('%-32s %s PATCH DOES NOT APPLY %s' % (sid, meta['property'], a.stderr[:200]))
            continue
        r = subprocess.run([os.path.join(HERE, 'mc/run.py'), meta['property']], env=dict(os.environ, VERIF_REPO=w), capture_output=True, text=True)
        print('%-32s %s rc=%d %s' % (sid, meta['property'], r.returncode, 'caught' if r.returncode == 1 and 'VIOLATION property=' + meta['property'] in r.stdout else 'MISSED'))
    finally:
        shutil.rmtree(w)
