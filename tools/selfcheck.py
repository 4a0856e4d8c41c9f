# setup_cmd: nothing to build (pure Python); verify that the pieces are present and importable.
import glob, os, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
for f in sorted(glob.glob(os.path.join(HERE, 'mc', '*.py')) + glob.glob(os.path.join(HERE, 'mc', 'props', '*.py'))):
    compile(open(f).read(), f, 'exec')
for d in ('evidence', 'replays'):
    if not os.path.isdir(os.path.join(HERE, d)):
        os.makedirs(os.path.join(HERE, d))
print('setup ok, python', sys.version.split()[0])
