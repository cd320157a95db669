"""C18: structured mesh generators tile the requested domain."""
import contextlib
import itertools
import numpy as onp
import jax.numpy as np
from vf import models as M
from jax_fem import generate_mesh as G
from vf.sym import Unsupported

ASSUMPTIONS = ['side lengths are positive', 'gmsh extrusions make evenly spaced structured meshes (native replays run the real gmsh)', 'counts up to the stated bound']
CORNERS = {2: [(0, 0), (1, 0), (1, 1), (0, 1)],
           3: [(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0), (0, 0, 1), (1, 0, 1), (1, 1, 1), (0, 1, 1)]}


class MeshRec:
    """Stand-in for meshio.Mesh that keeps what it is given."""

    def __init__(self, points, cells, **k):
        self.points = points
        self.cells_dict = {t: onp.asarray(c) for t, c in (cells.items() if hasattr(cells, 'items') else cells)}


def build(ctx, counts, sides):
    fn = G.rectangle_mesh if len(counts) == 2 else G.box_mesh
    if not ctx.symbolic:
        return fn(*counts, *sides)
    from vf import fakes as F
    import meshio
    with ctx.patch(F.patch_refs([(meshio, F._NS(meshio, {'Mesh': MeshRec})), (meshio.Mesh, MeshRec)])), M.sym_numpy(ctx):
        return fn(*counts, *sides)


def grid(ctx, dim, most):
    counts = tuple(1 + ctx.choose(f'N{i}', most) for i in range(dim))
    sides = [ctx.scalar(f'L{i}', 1e-3, 1e3) for i in range(dim)]
    mesh = build(ctx, counts, sides)
    pts = np.asarray(mesh.points)
    key = 'quad' if dim == 2 else 'hexahedron'
    ctx.check('cell type', list(mesh.cells_dict) == [key] and key == G.get_meshio_cell_type('QUAD4' if dim == 2 else 'HEX8'))
    cells = onp.asarray(mesh.cells_dict[key])
    ctx.check('number of nodes', tuple(pts.shape) == (int(onp.prod([c + 1 for c in counts])), dim))
    ctx.check('number of cells', cells.shape == (int(onp.prod(counts)), 2 ** dim))
    ctx.check('nodes exist', cells.min() >= 0 and cells.max() < len(pts))
    ctx.check('every node is used', len(onp.unique(cells)) == len(pts))
    size = [s / c for s, c in zip(sides, counts)]
    p = pts[cells]
    off = np.stack([np.stack([c * s for c, s in zip(k, size)]) for k in CORNERS[dim]])
    ctx.close('cells are boxes of one size in the documented order', p, p[:, :1] + off[None], 1e-9)
    # the lower corners run through the grid, each exactly once
    order = cell_grid(ctx, p[:, 0], size, counts)
    ctx.check('cells tile the domain', sorted(order) == sorted(itertools.product(*[range(c) for c in counts])))
    # conforming: the same place is the same node
    where = {}
    ok = True
    for o, c in zip(order, cells):
        for k, n in zip(CORNERS[dim], c):
            w = tuple(a + b for a, b in zip(o, k))
            ok = ok and where.setdefault(w, int(n)) == int(n)
    ctx.check('neighbours share their nodes', ok and len(where) == len(pts))
    e = np.stack([p[:, 1] - p[:, 0], p[:, 3] - p[:, 0]] + ([p[:, 4] - p[:, 0]] if dim == 3 else []), axis=1)
    det = e[:, 0, 0] * e[:, 1, 1] - e[:, 0, 1] * e[:, 1, 0]
    if dim == 3:
        c = np.stack([e[:, 0, 1] * e[:, 1, 2] - e[:, 0, 2] * e[:, 1, 1], e[:, 0, 2] * e[:, 1, 0] - e[:, 0, 0] * e[:, 1, 2], det], axis=1)
        det = np.sum(c * e[:, 2], axis=1)
    ctx.check('positive orientation', det > 0)


def cell_grid(ctx, low, size, counts):
    """Grid position of each cell's lower corner."""
    low = np.asarray(low)
    out = []
    for c in range(low.shape[0]):
        pos = []
        for i, n in enumerate(counts):
            hit = [k for k in range(n) if within(ctx, low[c, i], k * size[i], size[i])]
            pos.append(hit[0] if hit else -1)
        out.append(tuple(pos))
    return out


def within(ctx, a, b, scale, tol=1e-9):
    d = np.asarray((a - b) / scale)
    return bool(np.abs(d) < tol)


def tetra(ctx, ncell):
    pts = ctx.array('p', (4 + ncell - 1, 3), -2, 2)
    cells = onp.asarray([[0, 1, 2, 3], [4, 2, 0, 1]][:ncell])
    q = G.check_mesh_TET4(pts, cells)
    out = []
    for c in cells:
        a, b, d = (pts[c[k]] - pts[c[0]] for k in (1, 2, 3))
        out.append(a[0] * (b[1] * d[2] - b[2] * d[1]) - a[1] * (b[0] * d[2] - b[2] * d[0]) + a[2] * (b[0] * d[1] - b[1] * d[0]))
    ctx.close('six times the signed volume', np.asarray(q), np.stack(out))


class FakeGmsh:
    """Model of the mesher calls: point, transfinite extrusions, order, file."""

    def __init__(self):
        self.lattice, self.calls, self.order, self.live, self.files = None, 0, 1, False, {}
        self.option = self.model = self.geo = self.mesh = self
        self.tags = {}

    def initialize(self, *a, **k):
        self.live = True

    def finalize(self):
        self.live = False

    def setNumber(self, *a):
        pass

    def __getattr__(self, n):
        if n.startswith(('add', 'revolve', 'twist', 'copy', 'occ', 'dilate', 'rotate', 'translate', 'remove', 'embed')) and n != 'addPhysicalGroup' and n != 'add':
            raise Unsupported('gmsh.' + n)
        if n in ('logger', 'onelab', 'fltk'):
            return self
        return lambda *a, **k: None

    def addPoint(self, x, y, z, *a):
        self.tags[0, 1] = ([(x, y, z)], [], None)
        return 1

    def extrude(self, dims, dx, dy, dz, numElements=(), heights=(), recombine=False):
        ((d, t),) = dims
        if (d, t) not in self.tags or len(numElements) != 1 or list(heights) not in ([], [1], [1.0]):
            raise Unsupported('extrusion')
        o, axes, _ = self.tags[d, t]
        n = int(numElements[0])
        self.tags[d + 1, 1] = (o, axes + [((dx, dy, dz), n, bool(recombine))], None)
        self.tags[d, 2] = ([tuple(a + b for a, b in zip(o[0], (dx, dy, dz)))], axes, None)
        return [(d, 2), (d + 1, 1)] + [(d, 3 + k) for k in range(2 * d)]

    def synchronize(self):
        self.synced = dict(self.tags)

    def generate(self, dim=3):
        self.done = self.synced[dim, 1]

    def setOrder(self, k):
        self.order = k

    def write(self, path):
        (o,), axes, _ = self.done
        if not self.live or len(axes) != 3:
            raise Unsupported('mesh without a volume')
        # gmsh: triangles and tetrahedra unless the sweeps are recombined
        hexa = axes[1][2] and axes[2][2]
        counts = [a[1] for a in axes]
        pts, num = [], {}
        for i in itertools.product(*[range(c + 1) for c in counts]):
            num[i] = len(pts)
            pts.append(np.stack([np.asarray(o[r] + sum(a[0][r] * (k / a[1]) for a, k in zip(axes, i)) + 0., dtype=float) for r in range(3)]))
        cells = []
        for i in itertools.product(*[range(c) for c in counts]):
            c = [num[tuple(a + b for a, b in zip(i, k))] for k in CORNERS[3]]
            cells += [c] if hexa else [[c[a] for a in t] for t in ((0, 1, 2, 6), (0, 2, 3, 6), (0, 3, 7, 6), (0, 7, 4, 6), (0, 4, 5, 6), (0, 5, 1, 6))]
        if hexa:
            # the sweep directions form a right-handed frame or the mesher turns the cells
            name = {1: 'hexahedron', 2: 'hexahedron27'}[self.order]
        else:
            name = {1: 'tetra', 2: 'tetra10'}[self.order]
        self.files[path] = (np.stack(pts), {name: onp.asarray(cells)})


class _Read:
    def __init__(self, points, cells_dict):
        self.points, self.cells_dict = points, cells_dict


@contextlib.contextmanager
def silent():
    """The mesher writes to the terminal itself."""
    import os
    old, null = os.dup(1), os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    try:
        yield
    finally:
        os.dup2(old, 1)
        os.close(old)
        os.close(null)


def external(ctx, ele_type, most):
    """box_mesh_gmsh: the calls to the mesher request exactly this box."""
    import tempfile
    import meshio
    import gmsh
    from vf import fakes as F
    counts = tuple(1 + ctx.choose(f'N{i}', most) for i in range(3))
    sides = [ctx.scalar(f'L{i}', .05, 50) for i in range(3)]
    with contextlib.ExitStack() as st:
        d = st.enter_context(tempfile.TemporaryDirectory())
        if ctx.symbolic:
            fg = FakeGmsh()
            st.enter_context(ctx.patch(F.patch_refs([(meshio, F._NS(meshio, {'Mesh': MeshRec, 'read': lambda f: _Read(*fg.files[f])})),
                                                     (meshio.Mesh, MeshRec), (gmsh, fg)])))
            st.enter_context(M.sym_numpy(ctx))
            mesh = G.box_mesh_gmsh(*counts, *sides, d, ele_type)
            ctx.check('the mesher is shut down', not fg.live)
        else:
            st.enter_context(silent())
            mesh = G.box_mesh_gmsh(*counts, *[float(s) for s in sides], d, ele_type)
    key = G.get_meshio_cell_type(ele_type)
    ctx.check('cell type', list(mesh.cells_dict) == [key])
    cells = onp.asarray(mesh.cells_dict[key])
    corners = cells[:, :8 if ele_type[0] == 'H' else 4]
    pts = np.asarray(mesh.points)
    used = onp.unique(corners)
    grid = int(onp.prod([c + 1 for c in counts]))
    ctx.check('every cell', len(cells) == int(onp.prod(counts)) if ele_type[0] == 'H' else len(cells) >= 5 * int(onp.prod(counts)))
    if ele_type[0] == 'H':
        ctx.check('grid nodes', len(used) == grid)
    scale = np.stack(sides)
    p = pts[used] / scale
    if ele_type[0] == 'H':
        size = [s / c for s, c in zip(sides, counts)]
        # every grid line is there, evenly spaced
        for i in range(3):
            for k in range(counts[i] + 1):
                n = sum(1 for v in range(len(used)) if within(ctx, p[v, i], k / counts[i], 1., 1e-6))
                ctx.check(f'grid line {i}.{k}', n == grid // (counts[i] + 1))
    ctx.check('inside the domain', [p >= -1e-9, p <= 1 + 1e-9])
    x = pts[corners]
    if ele_type[0] == 'H':
        e = np.stack([x[:, 1] - x[:, 0], x[:, 3] - x[:, 0], x[:, 4] - x[:, 0]], axis=1)
        full = 1.
    else:
        e = x[:, 1:4] - x[:, :1]
        full = 6.
    e = e / scale
    c = np.cross(e[:, 0], e[:, 1])
    det = np.sum(c * e[:, 2], axis=1)
    ctx.check('positive orientation', det > 0)
    ctx.close('cells fill the domain', np.sum(det), full, 1e-7)


def units(tier):
    U = []

    def add(name, fn, bounds='', **kw):
        U.append({'name': name, 'fn': fn, 'kw': kw, 'cost': 1, 'bounds': bounds, 'cfg': {'max_paths': 20000}})
    m2, m3 = (6, 4) if tier == 'thorough' else (4, 3)
    add('rectangle', grid, dim=2, most=m2, bounds=f'1..{m2} cells per side, every combination; all side lengths')
    add('box', grid, dim=3, most=m3, bounds=f'1..{m3} cells per side, every combination; all side lengths')
    for t in ('HEX8', 'TET4', 'TET10', 'HEX27'):
        add(f'gmsh-{t}', external, ele_type=t, most=2 if tier == 'quick' else 3, bounds=f'{t}, 1..2 (3) cells per side, every combination; all side lengths; mesher as modelled')
    for n in (1, 2):
        add(f'tetra-{n}', tetra, ncell=n, bounds='all node positions')
    return U
