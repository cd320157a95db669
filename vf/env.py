"""Process set-up shared by every entry point: /repo first on the path."""
import os
import sys

REPO = os.path.realpath(os.environ.get('VF_TREE', '/repo'))     # VF_TREE: development only (trying changes on a copy)
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def setup():
    os.environ.setdefault('JAX_PLATFORMS', 'cpu')
    os.environ['JAX_ENABLE_COMPILATION_CACHE'] = 'false'
    os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
    os.environ.setdefault('OMP_NUM_THREADS', '1')
    os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
    xf = os.environ.get('XLA_FLAGS', '')
    if 'intra_op' not in xf:
        os.environ['XLA_FLAGS'] = (xf + ' --xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1').strip()
    sys.dont_write_bytecode = True
    for p in (VERIF, REPO):
        if p in sys.path:
            sys.path.remove(p)
    sys.path.insert(0, VERIF)
    sys.path.insert(0, REPO)
    z = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
    if z not in sys.path:
        sys.path.append(z)


def load():
    """Import the code under test quietly; returns the solver module."""
    setup()
    import contextlib
    import io
    with contextlib.redirect_stdout(io.StringIO()):
        import jax_fem
        import jax_fem.solver
        import jax_fem.problem
        import jax_fem.generate_mesh
    jax_fem.logger.disabled = True
    assert os.path.realpath(jax_fem.__file__).startswith(REPO + '/'), jax_fem.__file__
    return jax_fem.solver
