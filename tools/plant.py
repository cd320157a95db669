"""Planted bugs: plant.py write|validate|run [ids...]

write     generate /verif/seeded/<id>/ from the table below
validate  in a scratch copy of /repo: patch applies, stable tests pass with it, demo 0 clean / !=0 patched
run       run the check of the bug's property on a patched scratch copy
No check reads this file or /verif/seeded.
"""
import json, os, shutil, subprocess, sys, tempfile, difflib
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(VERIF, 'seeded')
BUGS = {}
SO, PR, FE, BA, MM, UT, GM = ('jax_fem/' + x for x in ('solver.py', 'problem.py', 'fe.py', 'basis.py', 'mma.py', 'utils.py', 'generate_mesh.py'))
FP = 'applications/finite_plasticity/model.py'
EI, PF, PB, CP = ('applications/' + x for x in ('phase_field_fracture/eigen.py', 'phase_field_fracture/example.py', 'periodic_bc/example.py', 'crystal_plasticity/models.py'))


def bug(id, prop, edits, demo, needs, breaks):
    assert id not in BUGS
    BUGS[id] = dict(property=prop, edits=edits, demo=demo, needs=needs, what_it_breaks=breaks)


PRE = '''import os, sys
os.environ.setdefault('JAX_PLATFORMS', 'cpu')
sys.path.insert(0, os.getcwd())
import logging
import numpy as onp
import jax
import jax.numpy as np
import jax_fem
jax_fem.logger.setLevel(logging.ERROR)
from jax_fem.problem import Problem
from jax_fem.generate_mesh import Mesh, rectangle_mesh, box_mesh
from jax_fem.solver import *
from jax_fem import solver as S


def quad_mesh(nx=3, ny=2, lx=1., ly=1.):
    m = rectangle_mesh(nx, ny, lx, ly)
    return Mesh(m.points, m.cells_dict['quad'], ele_type='QUAD4')


def dense(A):
    n, m = A.getSize()
    return onp.array(A.getValues(range(n), range(m)))


left = lambda p: np.isclose(p[0], 0., atol=1e-6)
right = lambda p: np.isclose(p[0], 1., atol=1e-6)
zero = lambda p: 0.
one = lambda p: 1.


class Poisson(Problem):
    def get_tensor_map(self):
        return lambda g, *k: (k[0] if k else 1.) * g


def check(ok, msg):
    if not ok:
        print('BROKEN:', msg)
        sys.exit(1)


'''

exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'plant_defs.py')).read())


def make_patch(edits):
    out = ''
    by = {}
    for f, old, new in edits:
        s = by.get(f) or [open(os.path.join('/repo', f)).read()] * 2
        assert s[1].count(old) == 1, (f, s[1].count(old), old)
        by[f] = [s[0], s[1].replace(old, new)]
    for f, (a, b) in by.items():
        d = difflib.unified_diff(a.splitlines(True), b.splitlines(True), 'a/' + f, 'b/' + f)
        out += f'diff --git a/{f} b/{f}\n' + ''.join(d)
    return out


def write(ids):
    for i in ids:
        b = BUGS[i]
        d = os.path.join(SEEDED, i)
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, 'patch.diff'), 'w').write(make_patch(b['edits']))
        open(os.path.join(d, 'demo.py'), 'w').write(PRE + b['demo'].lstrip('\n') + "\nprint('ok')\n")
        open(os.path.join(d, 'demo.sh'), 'w').write('#!/bin/bash\nexec /opt/venv/bin/python -B "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        json.dump(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['what_it_breaks']), open(os.path.join(d, 'meta.json'), 'w'), indent=1)


ENV = dict(os.environ, JAX_PLATFORMS='cpu', PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1',
           JAX_ENABLE_COMPILATION_CACHE='false', MPLBACKEND='Agg', PYTHONHASHSEED='0')


def copy():
    t = tempfile.mkdtemp(prefix='plant', dir='/tmp')
    subprocess.check_call(f'cd /repo && git archive HEAD | tar x -C {t}', shell=True)
    return t


def validate1(i):
    t = copy()
    try:
        d = os.path.join(SEEDED, i)
        demo = lambda: subprocess.run(['bash', d + '/demo.sh'], cwd=t, env=ENV, capture_output=True, text=True, timeout=290)
        r0 = demo()
        subprocess.check_call(['git', 'apply', '--unsafe-paths', '--directory', t, d + '/patch.diff'], cwd='/')
        r1 = demo()
        e = dict(ENV, PYTHONPATH=t)
        r2 = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', 'tests', '-q', '-p', 'no:cacheprovider', '-x'], cwd=t, env=e, capture_output=True, text=True)
        ok = r0.returncode == 0 and r1.returncode != 0 and 'BROKEN' in r1.stdout and '7 passed' in r2.stdout
        msg = '' if ok else f'\n clean {r0.returncode} {r0.stdout[-300:]} {r0.stderr[-600:]}\n patched {r1.returncode} {r1.stdout[-300:]} {r1.stderr[-600:]}\n tests {r2.stdout[-400:]}'
        return f'{i}: {"OK" if ok else "BAD"} [{r1.stdout.strip().splitlines()[-1][:150] if r1.stdout.strip() else ""}] {msg}'
    finally:
        shutil.rmtree(t)


def run1(i, extra=()):
    t = copy()
    try:
        subprocess.check_call(['git', 'apply', '--unsafe-paths', '--directory', t, f'{SEEDED}/{i}/patch.diff'], cwd='/')
        os.makedirs(t + '/ev')
        p = BUGS[i]['property']
        r = subprocess.run(['bash', VERIF + '/check.sh', p, *extra], cwd=VERIF, capture_output=True, text=True, env=dict(os.environ, VF_TREE=t, VF_EVIDENCE=t + '/ev'))
        return f'{i} [{p}]: rc {r.returncode}  ' + ' | '.join(l[:250] for l in r.stdout.splitlines() if 'VIOLATION' in l or 'INCONCL' in l.upper())[:900]
    finally:
        shutil.rmtree(t)


if __name__ == '__main__':
    cmd, ids = sys.argv[1], sys.argv[2:] or list(BUGS)
    if cmd == 'write':
        write(ids)
    elif cmd == 'validate':
        with ThreadPoolExecutor(4) as ex:
            for r in ex.map(validate1, ids):
                print(r, flush=True)
    elif cmd == 'run':
        for i in ids:
            print(run1(i), flush=True)
