"""Independent finite-element oracle: reference elements, shape functions and
quadrature written from the element definitions (meshio/VTK node ordering),
sharing nothing with the code under test."""
import itertools

import numpy as np

TYPES = ('QUAD4', 'QUAD8', 'TRI3', 'TRI6', 'HEX8', 'HEX20', 'HEX27', 'TET4', 'TET10')
DIM = {'QUAD4': 2, 'QUAD8': 2, 'TRI3': 2, 'TRI6': 2, 'HEX8': 3, 'HEX20': 3, 'HEX27': 3, 'TET4': 3, 'TET10': 3}
FULL_DEGREE = {'QUAD4': 1, 'QUAD8': 2, 'TRI3': 1, 'TRI6': 2, 'HEX8': 1, 'HEX20': 2, 'HEX27': 2, 'TET4': 1, 'TET10': 2}

_H8 = [(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0), (0, 0, 1), (1, 0, 1), (1, 1, 1), (0, 1, 1)]
_HEDGE = [(0, 1), (1, 2), (2, 3), (3, 0), (4, 5), (5, 6), (6, 7), (7, 4), (0, 4), (1, 5), (2, 6), (3, 7)]
_HFACE = [(0, 3, 7, 4), (1, 2, 6, 5), (0, 1, 5, 4), (3, 2, 6, 7), (0, 1, 2, 3), (4, 5, 6, 7)]
_Q4 = [(0, 0), (1, 0), (1, 1), (0, 1)]
_T3 = [(0, 0), (1, 0), (0, 1)]
_T4 = [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1)]
_TEDGE = [(0, 1), (1, 2), (0, 2), (0, 3), (1, 3), (2, 3)]


def _mid(vs, edges):
    return [tuple(np.mean([vs[i] for i in e], axis=0)) for e in edges]


def ref_nodes(t):
    if t == 'QUAD4':
        r = _Q4
    elif t == 'QUAD8':
        r = _Q4 + _mid(_Q4, [(0, 1), (1, 2), (2, 3), (3, 0)])
    elif t == 'TRI3':
        r = _T3
    elif t == 'TRI6':
        r = _T3 + _mid(_T3, [(0, 1), (1, 2), (2, 0)])
    elif t == 'HEX8':
        r = _H8
    elif t == 'HEX20':
        r = _H8 + _mid(_H8, _HEDGE)
    elif t == 'HEX27':
        r = _H8 + _mid(_H8, _HEDGE) + _mid(_H8, _HFACE) + [(.5, .5, .5)]
    elif t == 'TET4':
        r = _T4
    elif t == 'TET10':
        r = _T4 + _mid(_T4, _TEDGE)
    else:
        raise KeyError(t)
    return np.array(r, dtype=float)


def corner_faces(t):
    """Local corner indices of each face (any order)."""
    if t.startswith('QUAD'):
        return [(0, 1), (1, 2), (2, 3), (3, 0)]
    if t.startswith('TRI'):
        return [(0, 1), (1, 2), (2, 0)]
    if t.startswith('HEX'):
        return list(_HFACE)
    return [(0, 1, 2), (0, 1, 3), (1, 2, 3), (0, 2, 3)]


def monomials(t):
    d = DIM[t]
    if t in ('TRI3', 'TET4'):
        return [e for e in itertools.product(range(2), repeat=d) if sum(e) <= 1]
    if t in ('TRI6', 'TET10'):
        return [e for e in itertools.product(range(3), repeat=d) if sum(e) <= 2]
    if t in ('QUAD4', 'HEX8'):
        return list(itertools.product(range(2), repeat=d))
    if t == 'HEX27':
        return list(itertools.product(range(3), repeat=3))
    # serendipity of degree 2: superlinear degree <= 2
    return [e for e in itertools.product(range(3), repeat=d)
            if sum(k for k in e if k > 1) <= 2 and sum(1 for k in e if k == 2) <= 1]


def _mono(es, x):
    return np.array([np.prod([xi ** k for xi, k in zip(x, e)]) for e in es])


def _dmono(es, x):
    out = np.zeros((len(es), len(x)))
    for a, e in enumerate(es):
        for j in range(len(x)):
            if e[j] == 0:
                continue
            v = float(e[j])
            for i in range(len(x)):
                k = e[i] - (1 if i == j else 0)
                v *= x[i] ** k
            out[a, j] = v
    return out


class Element:
    _cache = {}

    def __new__(cls, t):
        if t not in cls._cache:
            o = cls._cache[t] = super().__new__(cls)
            o.t = t
            o.dim = DIM[t]
            o.nodes = ref_nodes(t)
            o.es = monomials(t)
            V = np.array([_mono(o.es, x) for x in o.nodes])
            assert V.shape[0] == V.shape[1], (t, V.shape)
            o.C = np.linalg.inv(V)
            o.C[np.abs(o.C) < 1e-13] = 0.0
        return cls._cache[t]

    def N(self, x):
        return _mono(self.es, x) @ self.C

    def dN(self, x):
        """(num_nodes, dim)"""
        return (_dmono(self.es, x).T @ self.C).T

    def quad(self, n=4):
        return volume_rule(self.t, n)


def _gl(n):
    x, w = np.polynomial.legendre.leggauss(n)
    return (x + 1) / 2, w / 2


def volume_rule(t, n=4):
    d = DIM[t]
    x, w = _gl(n)
    pts, ws = [], []
    if t.startswith(('QUAD', 'HEX')):
        for idx in itertools.product(range(n), repeat=d):
            pts.append([x[i] for i in idx])
            ws.append(np.prod([w[i] for i in idx]))
    elif d == 2:
        for i in range(n):
            for j in range(n):
                pts.append([x[i], x[j] * (1 - x[i])])
                ws.append(w[i] * w[j] * (1 - x[i]))
    else:
        for i in range(n):
            for j in range(n):
                for k in range(n):
                    a, b, c = x[i], x[j], x[k]
                    pts.append([a, b * (1 - a), c * (1 - a) * (1 - b)])
                    ws.append(w[i] * w[j] * w[k] * (1 - a) ** 2 * (1 - b))
    return np.array(pts), np.array(ws)


def face_rule(t, f, n=4):
    """Points in the cell's reference space, tangents (dim, dim-1) and weights
    of face f (in corner_faces order); the face measure is |J t1 x J t2|."""
    d = DIM[t]
    corners = ref_nodes(t)[list(corner_faces(t)[f])]
    x, w = _gl(n)
    pts, ws = [], []
    if d == 2:
        a, b = corners
        T = (b - a)[:, None]
        for i in range(n):
            pts.append(a + x[i] * (b - a))
            ws.append(w[i])
    elif t.startswith('HEX'):
        a, b, c, e = corners
        T = np.stack([b - a, e - a], axis=1)
        for i in range(n):
            for j in range(n):
                pts.append(a + x[i] * (b - a) + x[j] * (e - a))
                ws.append(w[i] * w[j])
    else:
        a, b, c = corners
        T = np.stack([b - a, c - a], axis=1)
        for i in range(n):
            for j in range(n):
                pts.append(a + x[i] * (b - a) + x[j] * (1 - x[i]) * (c - a))
                ws.append(w[i] * w[j] * (1 - x[i]))
    return np.array(pts), T, np.array(ws)


# ------------------------------------------------------------------ test meshes
def skew(pts, k=0):
    """A fixed affine, orientation-preserving distortion of points."""
    d = pts.shape[1]
    if d == 2:
        A = np.array([[1.3, 0.25], [-0.15, 0.9]])
        b = np.array([0.1, -0.2])
    else:
        A = np.array([[1.2, 0.2, -0.1], [0.1, 0.9, 0.15], [-0.05, 0.1, 1.1]])
        b = np.array([0.1, -0.2, 0.3])
    return pts @ A.T + b


def wobble(pts, amp=0.06):
    """A fixed smooth non-affine distortion."""
    p = pts.copy()
    d = p.shape[1]
    q = pts
    p[:, 0] += amp * (q[:, 1] ** 2 + 0.7 * q[:, 0] * q[:, 1])
    p[:, 1] += amp * (0.8 * q[:, 0] ** 2 - 0.5 * q[:, 0])
    if d == 3:
        p[:, 2] += amp * (0.6 * q[:, 0] * q[:, 1] + 0.4 * q[:, 2] ** 2)
        p[:, 0] += amp * 0.5 * q[:, 2] * q[:, 1]
    return p


def grid_mesh(t, nx=2, ny=1, nz=1):
    """Structured mesh of any element type on [0,nx]x[0,ny](x[0,nz]); node
    numbering is a fixed scrambled order so that no index coincides by luck."""
    d = DIM[t]
    E = ref_nodes(t)
    key = {}
    pts, cells = [], []

    def node(x):
        k = tuple(np.round(np.asarray(x) * 4).astype(int))
        if k not in key:
            key[k] = len(pts)
            pts.append(np.asarray(x, dtype=float))
        return key[k]
    if t.startswith(('QUAD', 'HEX')):
        for i in range(nx):
            for j in range(ny):
                for k in range(nz if d == 3 else 1):
                    o = np.array([i, j, k][:d], dtype=float)
                    cells.append([node(o + e) for e in E])
    else:
        if d == 2:
            simp = [[(0, 0), (1, 0), (1, 1)], [(0, 0), (1, 1), (0, 1)]]
        else:
            simp = []
            for perm in itertools.permutations(range(3)):
                v = [np.zeros(3)]
                for p in perm:
                    w = v[-1].copy()
                    w[p] += 1
                    v.append(w)
                M = np.stack([v[1] - v[0], v[2] - v[0], v[3] - v[0]], axis=1)
                if np.linalg.det(M) < 0:
                    v[1], v[2] = v[2], v[1]
                simp.append([tuple(x) for x in v])
        for i in range(nx):
            for j in range(ny):
                for k in range(nz if d == 3 else 1):
                    o = np.array([i, j, k][:d], dtype=float)
                    for s in simp:
                        V = [o + np.array(c, dtype=float) for c in s]
                        M = np.stack([V[a + 1] - V[0] for a in range(d)], axis=1)
                        cells.append([node(V[0] + M @ e) for e in E])
    return np.array(pts), np.array(cells)


def one_cell(t):
    n = len(ref_nodes(t))
    return ref_nodes(t), np.arange(n)[None, :]
