"""(dev) make a seeded bug: mkseed.py ID PROPERTY spec.py
spec.py defines EDITS=[(file, old, new)], DEMO=python source, NEEDS, BREAKS. Builds patch against /repo HEAD, runs the demo both ways
and the stable tests on a scratch copy; keeps the seed only if everything is as required."""
import json, os, shutil, subprocess, sys, tempfile, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO_SH = '''#!/bin/bash
# run with cwd = the repository; exit 0 iff the property's demonstration holds
here="$(cd "$(dirname "$0")" && pwd)"
d=$(mktemp -d)
cp -r ./jschon "$d/jschon"
%sPYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONPATH="$d" timeout 250 /opt/venv/bin/python -W ignore "$here/demo.py" "$d"
rc=$?
rm -rf "$d"
exit $rc
'''
def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def main(sid, prop, spec):
    ns = runpy.run_path(spec)
    w = tempfile.mkdtemp(prefix='seed-', dir='/tmp')
    tree = w + '/repo'
    sh(f'git -C /repo worktree prune; git clone -q /repo {tree}')
    for f, old, new in ns['EDITS']:
        p = f'{tree}/{f}'
        s = open(p).read()
        assert s.count(old) == 1, (f, s.count(old), old)
        open(p, 'w').write(s.replace(old, new))
    diff = sh(f'git -C {tree} diff').stdout
    assert diff
    for f, old, new in ns['EDITS']:
        base = set(sh(f'git -C /repo show ae5dece:{f}').stdout.splitlines())
        gone = [l for l in old.splitlines() if l not in new.splitlines() and l.strip()]
        assert (gone or 1) and all(l in base for l in gone), ('not an original line', f, gone)
    dst = f'{V}/seeded/{sid}'
    shutil.rmtree(dst, ignore_errors=True)
    os.makedirs(dst)
    open(dst + '/patch.diff', 'w').write(diff)
    meta = ns.get('METASCHEMAS', True)
    open(dst + '/demo.sh', 'w').write(DEMO_SH % ('cp -r "$here/metaschemas/." "$d/jschon/catalog/"\n' if meta else ''))
    os.chmod(dst + '/demo.sh', 0o755)
    if meta:
        shutil.copytree(V + '/metaschemas', dst + '/metaschemas')
    open(dst + '/demo.py', 'w').write(ns['DEMO'].lstrip())
    json.dump(dict(property=prop, needs=ns['NEEDS'], what_it_breaks=ns['BREAKS']), open(dst + '/meta.json', 'w'), indent=1)
    a = sh(f'{dst}/demo.sh', cwd='/repo')
    b = sh(f'{dst}/demo.sh', cwd=tree)
    print('demo clean', a.returncode, a.stderr[-600:], a.stdout[-200:])
    print('demo patched', b.returncode, b.stderr[-300:], b.stdout[-300:])
    # existing tests, with metaschemas, in a scratch copy of the full tree
    full = w + '/full'
    shutil.copytree('/tmp/w/full', full)
    sh(f'cp {tree}/jschon/*.py {full}/jschon/; cp {tree}/jschon/vocabulary/*.py {full}/jschon/vocabulary/; cp {tree}/jschon/catalog/*.py {full}/jschon/catalog/')
    t = sh(f'cd {full}; PYTHONPATH={full}:/opt/vp/pytest_plugins /opt/venv/bin/python -m pytest -q -p no:cacheprovider -p vp_hypothesis -W ignore --hypothesis-seed=0 --benchmark-disable --timeout=120 tests 2>&1 | tail -8')
    print(t.stdout[-900:])
    shutil.rmtree(w, ignore_errors=True)
    ok = a.returncode == 0 and b.returncode != 0
    print(sid, 'DEMO-OK' if ok else 'DEMO-BAD')
main(*sys.argv[1:])
