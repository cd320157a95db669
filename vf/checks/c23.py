"""C23: saved results hold exactly the solved fields; wrappers are transparent."""
import os
import shutil
import tempfile
import numpy as onp
import jax.numpy as np
import meshio
from vf import models as M
from jax_fem.fe import FiniteElement
from jax_fem import utils as UT
from jax_fem import generate_mesh as G

ASSUMPTIONS = ['meshio writes and reads back what it is given', 'fields are stored in single precision']
CELL = {'QUAD4': 'quad', 'QUAD8': 'quad8', 'TRI3': 'triangle', 'TRI6': 'triangle6', 'TET4': 'tetra', 'TET10': 'tetra10',
        'HEX8': 'hexahedron', 'HEX20': 'hexahedron20', 'HEX27': 'hexahedron27'}


class MeshRec:
    """Stand-in for meshio.Mesh that keeps what it is given until written."""
    files = {}

    def __init__(self, points, cells, point_data=None, cell_data=None, **k):
        self.points = points
        self.cells_dict = {t: c for t, c in (cells.items() if hasattr(cells, 'items') else cells)}
        self.point_data = dict(point_data or {})
        self.cell_data = dict(cell_data or {})

    def write(self, f, *a, **k):
        MeshRec.files[os.path.abspath(f)] = (self.points, dict(self.cells_dict), dict(self.point_data), dict(self.cell_data))


class Sandbox:
    """A scratch directory, meshio replaced symbolically."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.old = os.getcwd()
        self.dir = tempfile.mkdtemp(prefix='vfsave')

    def __enter__(self):
        MeshRec.files = {}
        os.chdir(self.dir)
        return self

    def __exit__(self, *a):
        os.chdir(self.old)
        shutil.rmtree(self.dir, ignore_errors=True)

    def save(self, *a, **k):
        if not self.ctx.symbolic:
            return UT.save_sol(*a, **k)
        from vf import fakes as F
        with self.ctx.patch(F.patch_refs([(meshio, F._NS(meshio, {'Mesh': MeshRec})), (meshio.Mesh, MeshRec)])), M.sym_numpy(self.ctx):
            return UT.save_sol(*a, **k)

    def load(self, f):
        if self.ctx.symbolic:
            return MeshRec.files.get(os.path.abspath(f))
        if not os.path.exists(f):
            return None
        m = meshio.read(f)
        return m.points, {c.type: c.data for c in m.cells}, m.point_data, m.cell_data


def near(ctx, name, got, want):
    got, want = np.asarray(got), np.asarray(want)
    if not ctx.symbolic and got.ndim == 2 and want.ndim == 2 and got.shape[1] == 3 and want.shape[1] == 2:
        got = got[:, :2]                      # the file format is three-dimensional
    if got.ndim != want.ndim and got.size == want.size:
        got = got.reshape(want.shape)
    ctx.close(name, got, want, 1e-6)


def fields(ctx, t, where):
    nx = 2 if t in ('QUAD4', 'TRI3', 'TET4') else 1
    p, c = M.mesh_for(t, nx)
    dim = p.shape[1]
    fe = FiniteElement(M.Mesh(p, c, ele_type=t), 1, dim, t)
    vec = 1 + 2 * ctx.choose('vec', 2)
    sol = ctx.array('sol', (len(p), vec), -5, 5)
    cells = [('pc', ctx.array('c0', (len(c),), -5, 5)), ('q', ctx.array('c1', (len(c),), -5, 5))]
    points = [('T', ctx.array('p0', (len(p),), -5, 5)), ('u', ctx.array('p1', (len(p), 3), -5, 5))]
    kw = {}
    sub = ctx.choose('infos', 4)
    if sub & 1:
        kw['cell_infos'] = cells
    if sub & 2:
        kw['point_infos'] = points
    with Sandbox(ctx) as box:
        f = os.path.join('out', 'a', 'u.vtu') if where == 'nested' else 'u.vtu'
        box.save(fe, sol, f, **kw)
        got = box.load(f)
        ctx.check('file written', got is not None)
        gp, gc, pd, cd = got
        near(ctx, 'nodes', gp, p)
        ctx.check('cells', list(gc) == [CELL[t]] and onp.array_equal(onp.asarray(gc[CELL[t]]), c))
        ctx.check('point field names', set(pd) == {'sol'} | ({'T', 'u'} if sub & 2 else set()))
        ctx.check('cell field names', set(cd) == ({'pc', 'q'} if sub & 1 else set()))
        near(ctx, 'solution', pd['sol'], sol)
        if sub & 1:
            for n, d in cells:
                ctx.check('one block of cells', len(cd[n]) == 1)
                near(ctx, f'cell field {n}', cd[n][0], d)
        if sub & 2:
            for n, d in points:
                near(ctx, f'point field {n}', pd[n], d)


def rejects(ctx, kind):
    p, c = M.mesh_for('QUAD4', 2)
    fe = FiniteElement(M.Mesh(p, c, ele_type='QUAD4'), 1, 2, 'QUAD4')
    delta = (-1, 1, len(c) - len(p), len(p))[ctx.choose('size', 4)]
    sol = ctx.array('sol', (len(p), 1), -5, 5)
    kw = {}
    if kind == 'cell':
        n = len(c) + (delta if delta in (-1, 1) else len(p) - len(c) if delta < 0 else len(c))
        kw['cell_infos'] = [('ok', ctx.array('ok', (len(c),), -5, 5)), ('bad', ctx.array('bad', (n,), -5, 5))]
    elif kind == 'point':
        kw['point_infos'] = [('ok', ctx.array('ok', (len(p),), -5, 5)), ('bad', ctx.array('bad', (len(p) + delta,), -5, 5))]
    else:
        sol = ctx.array('bad', (len(p) + delta, 1), -5, 5)
        if ctx.choose('point data of the same size', 2):
            kw['point_infos'] = [('same', ctx.array('same', (len(p) + delta,), -5, 5))]
    with Sandbox(ctx) as box:
        raised = False
        try:
            box.save(fe, sol, 'u.vtu', **kw)
        except (AssertionError, ValueError):
            raised = True
        ctx.check('wrongly sized data is rejected', raised)
        ctx.check('nothing is written', box.load('u.vtu') is None if ctx.symbolic else not os.path.exists('u.vtu'))


def wrapper(ctx, kind):
    calls = []
    x, y = ctx.array('x', (2,), -3, 3), ctx.scalar('y', -3, 3)
    fail = ctx.choose('raises', 2)

    def work(a, *, b=0.0):
        calls.append((a, b))
        if fail:
            raise KeyError('inner')
        return a * b, 'tag'
    with Sandbox(ctx):
        files = 0
        if kind == 'timeit':
            w = UT.timeit(work)
        elif kind == 'walltime':
            w = UT.walltime()(work)
        else:
            name = ctx.choose('name', 2)
            w = UT.walltime('t', 'mine' if name else None)(work)
            files = 1
        try:
            r = w(x, b=y)
        except KeyError:
            r = None
        ctx.check('called once', len(calls) == 1)
        ctx.close('positional arguments', calls[0][0], x)
        ctx.close('keyword arguments', calls[0][1], y)
        ctx.check('an exception passes through', (r is None) == bool(fail))
        if r is not None:
            ctx.check('shape of the result', isinstance(r, tuple) and len(r) == 2 and r[1] == 'tag')
            ctx.close('result', r[0], x * y)
            found = os.listdir('t') if os.path.isdir('t') else []
            ctx.check('one timing file when asked for', len(found) == files)
            if files:
                ctx.check('file name', found[0].startswith('mine_' if name else 'walltime_') and found[0].endswith('.txt'))
                a, b, e = (float(v) for v in open(os.path.join('t', found[0])).read().split(','))
                ctx.check('elapsed time', abs((b - a) - e) < 1e-6 and e >= 0)


def cell_types(ctx):
    for t, want in CELL.items():
        ctx.check(f'cell type of {t}', G.get_meshio_cell_type(t) == want)
        n = meshio._mesh.num_nodes_per_cell[want] if hasattr(meshio, '_mesh') and hasattr(meshio._mesh, 'num_nodes_per_cell') else None
        ctx.check(f'nodes of {t}', n in (None, M.mesh_for(t, 1)[1].shape[1]))
    try:
        G.get_meshio_cell_type('PYRAMID5')
        ok = False
    except NotImplementedError:
        ok = True
    ctx.check('unknown types are rejected', ok)


def units(tier):
    U = []

    def add(name, fn, bounds='', **kw):
        U.append({'name': name, 'fn': fn, 'kw': kw, 'cost': 1, 'bounds': bounds, 'cfg': {'max_paths': 2000}})
    for t in CELL:
        add(f'fields-{t}', fields, t=t, where='nested' if t != 'TRI3' else 'bare', bounds='one or two cells; all field values, every combination of extra fields')
    for k in ('cell', 'point', 'solution'):
        add(f'rejects-{k}', rejects, kind=k, bounds='four wrong sizes; all values')
    for k in ('timeit', 'walltime', 'walltime-file'):
        add(f'wrapper-{k}', wrapper, kind=k, bounds='all argument values; returning or raising')
    add('cell-types', cell_types, bounds='all nine element types')
    return U
