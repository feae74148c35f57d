"""Try a planted bug.  usage: plant.py ID < spec
spec: python file defining FILES = {path: [(old, new), ...]}, PROPERTY, NEEDS,
BREAKS, DEMO (python source).  Confirms it in a scratch copy of /repo and, if
it is a valid planted bug, writes /verif/seeded/ID and reports what the
property's check says."""
import json, os, re, shutil, subprocess, sys

def sh(cmd, cwd, timeout=900, env=None):
    p = subprocess.run(cmd, shell=True, cwd=cwd, timeout=timeout, text=True,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       env=dict(os.environ, **(env or {})))
    return p.returncode, p.stdout

ID = sys.argv[1]
src = sys.stdin.read()
ns = {}
exec(src, ns)
w = '/tmp/plant_' + ID
shutil.rmtree(w, ignore_errors=True)
os.makedirs(w)
sh('cp -a /repo %s/repo' % w, '/')
base = subprocess.check_output('git -C /repo rev-list --max-parents=0 HEAD', shell=True, text=True).strip()
ok = True
try:
    for f, reps in ns['FILES'].items():
        p = os.path.join(w, 'repo', f)
        s = open(p).read()
        for old, new in reps:
            assert s.count(old) == 1, (f, s.count(old), old)
            s = s.replace(old, new)
        open(p, 'w').write(s)
    rc, diff = sh('git diff', w + '/repo')
    d = '/verif/seeded/' + ID
    tmp = w + '/seed'
    os.makedirs(tmp)
    open(tmp + '/patch.diff', 'w').write(diff)
    open(tmp + '/demo.py', 'w').write(ns['DEMO'].lstrip('\n'))
    open(tmp + '/demo.sh', 'w').write(
        '#!/bin/bash\nhere=$(cd "$(dirname "$0")" && pwd)\n'
        'export PYTHONPATH=$PWD PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1\n'
        'd=$(mktemp -d); trap \'rm -rf "$d"\' EXIT; export TMPDIR=$d\n'
        'timeout 250 /opt/venv/bin/python -W ignore "$here/demo.py"\n')
    json.dump(dict(property=ns['PROPERTY'], needs=ns['NEEDS'],
                   what_it_breaks=ns['BREAKS']),
              open(tmp + '/meta.json', 'w'), indent=1)
    a, oa = sh('bash %s/demo.sh' % tmp, '/repo', 300)
    b, ob = sh('bash %s/demo.sh' % tmp, w + '/repo', 300)
    print('demo clean rc', a, oa[-400:] if a else '')
    print('demo patched rc', b, ob[-300:])
    if a != 0 or b == 0:
        ok = False
    if ok and os.environ.get('NOTEST') != '1':
        t = open('/opt/vp/test.sh').read().replace('cd /repo', 'cd %s/repo' % w)
        open(w + '/test.sh', 'w').write(t.replace('here=/opt/vp', 'here=/opt/vp'))
        rc, out = sh('bash %s/test.sh %s/t.json' % (w, w), '/')
        bl = json.load(open('/opt/vp/BASELINE.json'))
        tt = json.load(open(w + '/t.json'))
        missing = sorted(set(bl['stable']) - set(tt['passed']))
        print('stable tests failing:', len(missing), missing[:5])
        if missing:
            ok = False
    if ok:
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree(tmp, d)
        print('KEPT', d)
    if ok or os.environ.get('FORCE') == '1':
        assert not subprocess.check_output('git -C /repo status --porcelain', shell=True)
        try:
            assert sh('git apply %s/patch.diff' % tmp, '/repo')[0] == 0
            for q in [ns['PROPERTY']] + ns.get('ALSO', []):
                rc, out = sh('timeout 600 bash /verif/check.sh %s quick' % q, '/verif')
                print(q, 'rc', rc, 'CAUGHT' if rc == 1 else '*** MISSED ***', out[-700:].replace('\n', ' ')[:330])
        finally:
            sh('git checkout -- .', '/repo')
finally:
    shutil.rmtree(w, ignore_errors=True)
