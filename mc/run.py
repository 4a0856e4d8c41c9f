#!/opt/venv/bin/python
"""python mc/run.py <property> [--tier quick|thorough] [--replay FILE]"""
import os
import shutil
import sys
import tempfile

if os.environ.get('MC_CHILD') != '1':
    # own process settings: fixed hash seed, no stale bytecode, no bytecode left in /repo
    env = dict(os.environ, MC_CHILD='1', PYTHONHASHSEED=os.environ.get('MC_HASHSEED', '0'),
               LANG='C.UTF-8', LC_ALL='C.UTF-8')
    pyc = tempfile.mkdtemp(prefix='mc-pyc-')
    env['PYTHONPYCACHEPREFIX'] = pyc
    env.pop('PYTHONPATH', None)
    env.pop('PYTHONDONTWRITEBYTECODE', None)
    import subprocess
    try:
        rc = subprocess.call([sys.executable, '-W', 'ignore'] + sys.argv, env=env)
    finally:
        shutil.rmtree(pyc, ignore_errors=True)
    sys.exit(rc if rc >= 0 else 2)

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core  # noqa: E402
sys.path.insert(0, core.REPO)
sys.exit(core.main(sys.argv[1:]))
