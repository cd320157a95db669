"""Behaviour-preserving edits: refactor.py [ids...] runs the checks on a scratch copy with each edit; all must stay quiet."""
import os, shutil, subprocess, sys
sys.argv, argv = [sys.argv[0]], sys.argv[1:]
HERE = os.path.dirname(os.path.abspath(__file__))
import importlib.util
spec = importlib.util.spec_from_file_location('plant', os.path.join(HERE, 'plant.py'))
P = importlib.util.module_from_spec(spec)
spec.loader.exec_module(P)
SO, PR, FE, BA, MM, UT, GM, FP = P.SO, P.PR, P.FE, P.BA, P.MM, P.UT, P.GM, P.FP
EDITS = {}


def edit(id, props, edits):
    EDITS[id] = (props.split(), edits)


exec(open(os.path.join(HERE, 'refactor_defs.py')).read())
for i in argv or EDITS:
    props, edits = EDITS[i]
    t = P.copy()
    try:
        for f, old, new in edits:
            s = open(os.path.join(t, f)).read()
            assert s.count(old) == 1, (i, f, s.count(old), old)
            open(os.path.join(t, f), 'w').write(s.replace(old, new))
        os.makedirs(t + '/ev')
        for p in props:
            r = subprocess.run(['bash', P.VERIF + '/check.sh', p], cwd=P.VERIF, capture_output=True, text=True, env=dict(os.environ, VF_TREE=t, VF_EVIDENCE=t + '/ev'))
            tail = [l[:300] for l in r.stdout.splitlines()]
            print(i, p, 'rc', r.returncode, '' if r.returncode == 0 else ' | '.join(tail[-8:]), flush=True)
    finally:
        shutil.rmtree(t)
