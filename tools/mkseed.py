"""python3 tools/mkseed.py SPEC.py [ids] : (re)generate /verif/seeded/<id>/ from specs.

SPEC.py calls seed(id, property, edits, needs, breaks, demo); edits is a list of
(file, old, new).  The patch is made in a scratch copy; demo is python text run
with cwd = /repo.  Then the demo is run on clean and patched copies and
the stable tests on the patched copy (all in scratch copies under /tmp)."""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = []


def seed(id, prop, edits, needs, breaks, demo):
    S.append((id, prop, edits, needs, breaks, demo))


exec(open(sys.argv[1]).read())
only = sys.argv[2:]
ENV = dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1',
           MPLBACKEND='Agg', WAKET_DISABLE_CACHING='1', WAKET_NUM_THREADS='1',
           NUMBA_NUM_THREADS='1', OMP_NUM_THREADS='1')
PY = '/opt/venv/bin/python'
SH = '''#!/bin/bash
# exit 0 on code where the property holds, 1 where this input breaks it
D=$(cd "$(dirname "$0")" && pwd)
export WAKET_DISABLE_CACHING=1 WAKET_NUM_THREADS=1 NUMBA_NUM_THREADS=1 MPLBACKEND=Agg NUMBA_DISABLE_JIT=1 PYTHONDONTWRITEBYTECODE=1
PYTHONPATH="$PWD" exec /opt/venv/bin/python "$D/demo.py"
'''


def go(s):
    id, prop, edits, needs, breaks, demo = s
    t = tempfile.mkdtemp(prefix='seed_')
    r = os.path.join(t, 'repo')
    subprocess.check_call(['cp', '-a', '/repo', r])
    d = os.path.join(V, 'seeded', id)
    os.makedirs(d, exist_ok=True)
    open(d + '/demo.py', 'w').write(demo.lstrip('\n'))
    open(d + '/demo.sh', 'w').write(SH)
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks},
              open(d + '/meta.json', 'w'), indent=1)
    c = subprocess.run(['bash', d + '/demo.sh'], cwd=r, env=ENV,
                       capture_output=True, text=True)
    for f, old, new in edits:
        p = os.path.join(r, f)
        x = open(p).read()
        if x.count(old) != 1:
            return id, 'edit matches %d times in %s' % (x.count(old), f)
        open(p, 'w').write(x.replace(old, new))
    open(d + '/patch.diff', 'w').write(subprocess.run(
        ['git', 'diff'], cwd=r, capture_output=True, text=True).stdout)
    b = subprocess.run(['bash', d + '/demo.sh'], cwd=r, env=ENV,
                       capture_output=True, text=True)
    e = dict(ENV, PYTHONPATH=r)
    q = subprocess.run([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider',
                        '--tb=line', '-n', '2', '--dist', 'loadfile', 'tests'],
                       cwd=r, env=e, capture_output=True, text=True)
    shutil.rmtree(t)
    ok = c.returncode == 0 and b.returncode != 0 and q.returncode == 0
    return id, 'OK' if ok else 'BAD clean=%d patched=%d tests=%d\n%s\n%s\n%s' % (
        c.returncode, b.returncode, q.returncode, c.stderr[-500:],
        b.stderr[-300:], q.stdout[-600:])


todo = [s for s in S if not only or s[0] in only]
with ThreadPoolExecutor(4) as ex:
    for r in ex.map(go, todo):
        print(*r, flush=True)
