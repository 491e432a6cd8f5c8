"""python3 tools/plant.py SPEC.py: keep a planted bug if it builds, passes the stable tests and its demo tells the trees apart.
SPEC.py defines id, property, edits=[(file, old, new)...], demo (python source), needs, breaks"""
import sys, os, json, subprocess, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, cwd, **k): return subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True, **k)
def main(spec, tests=True):
    S = {}; exec(open(spec).read(), S)
    d = os.path.join(V, 'seeded', S['id']); os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix='plant_', dir='/tmp'); r = os.path.join(w, 'repo')
    try:
        sh('cp -a /repo %s' % r, '/')
        with open(os.path.join(d, 'demo.py'), 'w') as f: f.write(S['demo'])
        with open(os.path.join(d, 'demo.sh'), 'w') as f: f.write('#!/bin/bash\nPYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        json.dump({'property': S['property'], 'needs': S['needs'], 'what_it_breaks': S['breaks']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        a = sh('bash %s/demo.sh' % d, r)
        for f, o, n in S['edits']:
            p = os.path.join(r, f); s = open(p, newline='').read()
            if '\r\n' in s: o, n = o.replace('\n', '\r\n'), n.replace('\n', '\r\n')
            assert s.count(o) == 1, (f, s.count(o), o)
            open(p, 'w', newline='').write(s.replace(o, n))
        with open(os.path.join(d, 'patch.diff'), 'w', newline='') as f: f.write(subprocess.run('git diff', shell=True, cwd=r, capture_output=True).stdout.decode())
        b = sh('bash %s/demo.sh' % d, r)
        print(S['id'], 'demo clean', a.returncode, 'bug', b.returncode, (b.stdout + b.stderr).strip().splitlines()[-1:], (a.stdout + a.stderr).strip().splitlines()[-1:] if a.returncode else '')
        if tests:
            open(os.path.join(w, 'skip_testing_init.py'), 'w').write(open('/opt/vp/lib/skip_testing_init.py').read().replace('/repo', r))
            t = sh('/opt/venv/bin/python -m pytest -q -c /dev/null --rootdir=%s -p skip_testing_init -p no:cacheprovider -n 8 --timeout=300 --continue-on-collection-errors --junitxml=%s/j.xml Testing' % (r, w), r, env=dict(os.environ, PYTHONPATH=w))
            import xml.etree.ElementTree as ET
            bad = {c.get('classname') + '::' + c.get('name') for c in ET.parse(w + '/j.xml').iter('testcase') if c.find('failure') is not None or c.find('error') is not None}
            good = {c.get('classname') + '::' + c.get('name') for c in ET.parse(w + '/j.xml').iter('testcase')} - bad
            stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
            print('  tests: %d stable pass, broken: %s' % (len(stable & good), sorted(stable - good)))
        if len(sys.argv) > 2 and sys.argv[2] == 'nocheck': return
        c = sh('timeout 890 python3-vt check.py %s --tier quick' % S['property'], V, env=dict(os.environ, DV_REPO=r))
        print('  check exit', c.returncode, [l[:200] for l in c.stdout.splitlines() if 'VIOLATION' in l or 'UNDECIDED' in l][:4], '' if c.returncode in (0, 1) else c.stderr[-500:])
    finally: shutil.rmtree(w)
main(sys.argv[1])
