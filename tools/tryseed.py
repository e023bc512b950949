"""(dev) tryseed.py [--tier T] ID...: run the property's check against a copy of /repo with the seeded patch."""
import json, os, subprocess, sys, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
tier = 'quick'
if '--tier' in args:
    i = args.index('--tier'); tier = args[i + 1]; del args[i:i + 2]
for sid in args or sorted(os.listdir(V + '/seeded')):
    if not os.path.exists(f'{V}/seeded/{sid}/patch.diff'):
        continue
    prop = json.load(open(f'{V}/seeded/{sid}/meta.json'))['property']
    w = tempfile.mkdtemp(prefix='try-', dir='/tmp')
    try:
        subprocess.run(f'cp -r /repo/jschon {w}/; cd {w}; git init -q; git apply {V}/seeded/{sid}/patch.diff', shell=True, check=True)
        r = subprocess.run(['/opt/venv/bin/python', 'checks/run.py', prop, '--tier', tier], cwd=V, env={**os.environ, 'JSV_REPO': w}, capture_output=True, text=True)
        first = [l for l in r.stdout.splitlines() if l.strip()][:2]
        print('CAUGHT' if r.returncode == 1 else f'MISSED({r.returncode})', sid, prop, ' | '.join(x[:160] for x in first), r.stdout.strip().splitlines()[-1][-90:], flush=True)
    finally:
        shutil.rmtree(w)
