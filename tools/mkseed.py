"""Makes seeded/<id>/ from a planted-bug description and confirms it.

python3 tools/mkseed.py FILE.py [id ...]   FILE.py defines BUGS = [dict(id, prop, edits=[(file, old, new)...],
needs, breaks, demo)].  Applies each to /repo, runs build, stable tests, demo (and the check unless NOCHECK), undoes it.
"""
import json, os, re, subprocess, sys, importlib.util
V = '/verif'
REPO = '/repo'
PRE = '''import os, sys, tempfile, shutil
sys.path.insert(0, os.getcwd())
sys.dont_write_bytecode = True
import warnings; warnings.simplefilter('ignore')
import numpy as np
_d = tempfile.mkdtemp()
import active_subspaces.subspaces as ss, active_subspaces.domains as dom, active_subspaces.gradients as gr
import active_subspaces.integrals as igl, active_subspaces.optimizers as opt, active_subspaces.response_surfaces as asrs
import active_subspaces.utils.misc as mi, active_subspaces.utils.designs as dn, active_subspaces.utils.quadrature as gq
import active_subspaces.utils.response_surfaces as rs, active_subspaces.utils.simrunners as sr
import active_subspaces.utils.qp_solver as qp, active_subspaces.utils.plotters as plo
REPO = os.getcwd()
os.chdir(_d)
R = np.random.RandomState(3)
def sub(m, n, seed=0):
    """Subspaces with an m-by-m orthogonal basis, split at n."""
    s = ss.Subspaces()
    r = np.random.RandomState(seed)
    s.compute(df=r.normal(size=(4*m, m))*np.arange(m, 0, -1.0))
    s.partition(n)
    return s
def main():
%s
try:
    ok = main()
finally:
    os.chdir('/')
    shutil.rmtree(_d, ignore_errors=True)
sys.exit(0 if ok else 1)
'''


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def clean():
    sh('git -C /repo checkout -- .')


def main():
    spec = importlib.util.spec_from_file_location('b', sys.argv[1])
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    only = sys.argv[2:]
    assert not sh('git -C /repo status --porcelain').stdout.strip()
    stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    for b in m.BUGS:
        if only and b['id'] not in only:
            continue
        d = os.path.join(V, 'seeded', b['id'])
        os.makedirs(d, exist_ok=True)
        try:
            for f, old, new in b['edits']:
                p = os.path.join(REPO, f)
                s = open(p).read()
                if s.count(old) != 1:
                    raise Exception('%s: %d matches of %r' % (b['id'], s.count(old), old))
                open(p, 'w').write(s.replace(old, new))
            diff = subprocess.run('git -C /repo diff', shell=True, stdout=subprocess.PIPE).stdout
            open(d + '/patch.diff', 'wb').write(diff)
            json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']},
                      open(d + '/meta.json', 'w'), indent=1)
            body = '\n'.join('    ' + l for l in b['demo'].strip('\n').split('\n'))
            open(d + '/demo.py', 'w').write(PRE % body)
            open(d + '/demo.sh', 'w').write('#!/bin/bash\nexport MPLBACKEND=agg PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1\n'
                                            'exec /opt/venv/bin/python -W ignore "$(dirname "$(readlink -f "$0")")/demo.py"\n')
            os.chmod(d + '/demo.sh', 0o755)
            r = []
            bld = sh('bash /opt/vp/build.sh')
            r.append('build=%d' % bld.returncode)
            t = sh('bash /opt/vp/test.sh /tmp/seedtest.json')
            res = json.load(open('/tmp/seedtest.json'))
            passed = set(res.get('passed') or [k for k, v in res.items() if v == 'passed'])
            r.append('tests=%s' % (sorted(stable - passed)[:3] or 'ok'))
            dm = sh('bash %s/demo.sh' % d, cwd=REPO)
            r.append('demo_bug=%d' % dm.returncode)
            if not os.environ.get('NOCHECK'):
                for p in [b['prop']] + b.get('also', []):
                    c = sh('python3 lib/check.py %s' % p, cwd=V)
                    v = [l for l in c.stdout.split('\n') if 'VIOLATION' in l]
                    r.append('%s=%d %s' % (p, c.returncode, v[:1]))
        except Exception as e:
            r = ['ERR %s' % e]
        finally:
            clean()
        dm = sh('bash %s/demo.sh' % d, cwd=REPO)
        r.append('demo_clean=%d' % dm.returncode)
        if dm.returncode:
            r.append(dm.stdout[-300:])
        print(b['id'], *r, flush=True)
        sh('git -C /repo status --porcelain')


if __name__ == '__main__':
    main()
