"""Helpers of the concrete layer: load the real code, build meshes, take snapshots.

Runs under the interpreter that has numpy/attrs/xarray (/opt/venv/bin/python); imports
pymech from the tree given by $PYMECH_SRC (default /repo/src) and nothing else of it.
"""
import logging
import os
import sys
import types

sys.dont_write_bytecode = True
SRC = os.environ.get("PYMECH_SRC", "/repo/src")
sys.path.insert(0, SRC)
if not os.path.exists(os.path.join(SRC, "pymech", "_version.py")):
    stub = types.ModuleType("pymech._version")
    stub.__version__ = stub.version = "0"
    sys.modules["pymech._version"] = stub

import numpy as np  # noqa: E402

logging.disable(logging.CRITICAL)


class Bad(Exception):
    """The property does not hold on this case."""


def need(cond, msg, *a):
    if not cond:
        raise Bad(msg % a if a else msg)


def core():
    import pymech.core as c

    return c


# ---------------------------------------------------------------- snapshots
ARR = ("pos", "vel", "pres", "temp", "scal", "curv")


def snap_elem(el):
    d = {}
    for n in ARR:
        a = getattr(el, n)
        d[n] = (str(a.dtype), a.shape, np.ascontiguousarray(a).tobytes())
    d["ccurv"] = list(el.ccurv)
    d["bcs"] = (el.bcs.shape, [[tuple(c) for c in r] for r in el.bcs.tolist()])
    return d


META = ("ndim", "nel", "ncurv", "nbc", "time", "istep", "wdsz", "endian")


def snap(mesh, fields=None):
    d = {m: getattr(mesh, m) for m in META}
    d["var"] = tuple(mesh.var)
    d["lr1"] = tuple(mesh.lr1)
    d["elmap"] = [int(i) for i in mesh.elmap]
    d["elem"] = [snap_elem(e) for e in mesh.elem]
    return d


def diff(a, b, path=""):
    if type(a) != type(b):
        return f"{path}: {str(a)[:80]} != {str(b)[:80]}"
    if isinstance(a, dict):
        for k in a:
            if k not in b:
                return f"{path}.{k} missing"
            r = diff(a[k], b[k], f"{path}.{k}")
            if r:
                return r
        return None
    if isinstance(a, (list, tuple)):
        if len(a) != len(b):
            return f"{path}: length {len(a)} != {len(b)}"
        for i, (x, y) in enumerate(zip(a, b)):
            r = diff(x, y, f"{path}[{i}]")
            if r:
                return r
        return None
    if a != b and not (a != a and b != b):
        return f"{path}: {str(a)[:80]} != {str(b)[:80]}"
    return None


def same(a, b, what):
    r = diff(a, b)
    need(r is None, "%s changed: %s", what, r)


# ---------------------------------------------------------------- meshes
CURV = ["", "", "", "m", "C", "s"]
BCN = ["", "E", "P", "W", "v", "o", "SYM", "O", "on", "t", "I", "con", "ON"]


def random_mesh(rng, ndim, nel, nbc, curv=("m", "C", "s"), names=None, dtype="float64", pcurv=0.3, valid_e=False, empty_clean=True):
    """A mesh whose content is arbitrary (no valid geometry or connectivity)."""
    c = core()
    lr1 = [2, 2, ndim - 1]
    m = c.HexaData(ndim, nel, lr1, [ndim, 0, 0, 0, 0], nbc, dtype)
    names = names or BCN
    n = 0
    for ie, el in enumerate(m.elem):
        el.pos[:ndim] = rng.standard_normal(el.pos[:ndim].shape) * 10.0 ** rng.integers(-3, 4)
        for ed in range(12 if ndim == 3 else 4):
            if rng.random() < pcurv:
                el.ccurv[ed] = str(rng.choice(list(curv)))
                el.curv[ed] = rng.standard_normal(5) * 10.0 ** rng.integers(-3, 4)
                n += 1
        for ib in range(nbc):
            for f in range(2 * ndim):
                t = str(rng.choice(names))
                b = el.bcs[ib, f]
                if t == "":
                    if not empty_clean and rng.random() < 0.5:
                        b[1], b[2] = ie + 1, f + 1
                    continue
                b[0] = t
                b[1] = ie + 1
                b[2] = f + 1
                if t in ("E", "P"):
                    b[3] = int(rng.integers(1, nel + 1))
                    b[4] = int(rng.integers(1, 2 * ndim + 1))
                else:
                    for j in range(3, 8):
                        b[j] = float(rng.standard_normal()) * 10.0 ** rng.integers(-3, 4)
    m.ncurv = n
    m.time = float(rng.standard_normal() * 100)
    m.istep = int(rng.integers(0, 10**6))
    return m


def random_field(rng, ndim, nel, orders, var, wdsz=8, endian="little", dtype="float64", perm=True):
    c = core()
    m = c.HexaData(ndim, nel, tuple(orders), tuple(var), 0, dtype)
    for el in m.elem:
        for n, k in zip(("pos", "vel", "pres", "temp", "scal"), var):
            a = getattr(el, n)
            a[:k] = rng.standard_normal(a[:k].shape) * 10.0 ** rng.integers(-6, 7)
    if perm:
        m.elmap = (rng.permutation(nel) + 1).astype(np.int32)
    m.time = float(rng.standard_normal() * 10.0 ** rng.integers(-8, 9))
    m.istep = int(rng.integers(0, 10**9))
    m.wdsz = wdsz
    m.endian = endian
    return m


def _cell2d(nx, ny, i, j, f):
    return [(i, j - 1), (i + 1, j), (i, j + 1), (i - 1, j)][f]


# corners (x, y) of the four side faces, in the element's own index space [iy, ix]
SIDE = {0: ((0, 0), (0, 1)), 1: ((0, 1), (1, 1)), 2: ((1, 0), (1, 1)), 3: ((0, 0), (1, 0))}


def rot_quad(a, r):
    """Renumber the corners of an element by r quarter turns; a[..., iy, ix]"""
    for _ in range(r):
        # new corner sequence (counterclockwise) starts one corner later
        ccw = [a[..., 0, 0].copy(), a[..., 0, 1].copy(), a[..., 1, 1].copy(), a[..., 1, 0].copy()]
        ccw = ccw[1:] + ccw[:1]
        a = a.copy()
        a[..., 0, 0], a[..., 0, 1], a[..., 1, 1], a[..., 1, 0] = ccw
    return a


def grid2d(rng, nx, ny, nbc=1, px=False, py=False, shuffle=False, turn=False, deform=0.0, names=("W", "v", "o", "SYM"),
           internal=True, curve=0.0, x0=0.0, y0=0.0, lx=1.0, ly=1.0, var=None):
    """A validly connected structured 2D mesh built independently of pymech's generators."""
    c = core()
    nel = nx * ny
    m = c.HexaData(2, nel, [2, 2, 1], list(var or [2, 2, 1, 0, 0]), nbc)
    ident = {}
    order = list(range(nel))
    if shuffle:
        order = [int(k) for k in rng.permutation(nel)]
    turns = [int(rng.integers(0, 4)) if turn else 0 for _ in range(nel)]

    def pt(i, j):
        u, v = i / nx, j / ny
        # periodic meshes are deformed with a periodic displacement that vanishes on the edges
        d = deform * np.sin(np.pi * u) * np.sin(np.pi * v)
        return x0 + lx * (u + 0.3 * d), y0 + ly * (v + 0.5 * d)

    for i in range(nx):
        for j in range(ny):
            ident[i, j] = order[i + nx * j]
    names = list(names)
    for (i, j), e in ident.items():
        el = m.elem[e]
        a = np.zeros((2, 2, 2))
        for iy in (0, 1):
            for ix in (0, 1):
                a[:, iy, ix] = pt(i + ix, j + iy)
        r = turns[e]
        el.pos[:2, 0] = rot_quad(a, r)
    for (i, j), e in ident.items():
        el = m.elem[e]
        r = turns[e]
        for f in range(4):
            # the element's own number of grid face f
            fo = (f - r) % 4
            ni, nj = _cell2d(nx, ny, i, j, f)
            per = False
            if not 0 <= ni < nx:
                if px:
                    ni %= nx
                    per = True
                else:
                    ni = None
            if ni is not None and not 0 <= nj < ny:
                if py:
                    nj %= ny
                    per = True
                else:
                    ni = None
            for ib in range(nbc):
                b = el.bcs[ib, fo]
                if ni is None:
                    b[0] = names[(f + ib) % len(names)]
                    b[1], b[2] = e + 1, fo + 1
                    b[5] = 0.25 * f
                    continue
                if not per and not internal:
                    continue
                e2 = ident[ni, nj]
                b[0] = "P" if per else "E"
                b[1], b[2] = e + 1, fo + 1
                b[3] = e2 + 1
                b[4] = ((f + 2) % 4 - turns[e2]) % 4 + 1
    if curve:
        _curve(rng, m, curve)
    m.time = 1.5
    m.istep = 3
    return m


def _curve(rng, m, prob):
    for el in m.elem:
        for ed in range(4):
            if rng.random() < prob:
                p, q = ends(el, ed)
                t = str(rng.choice(["m", "C"]))
                el.ccurv[ed] = t
                el.curv[ed] = 0
                if t == "m":
                    el.curv[ed][:3] = (p + q) / 2 + 0.05 * np.array([q[1] - p[1], p[0] - q[0], 0])
                else:
                    el.curv[ed][0] = float(np.linalg.norm(q - p)) * float(rng.choice([-1.0, 1.0])) * (0.8 + float(rng.random()))
    m.ncurv = sum(1 for el in m.elem for t in el.ccurv if t != "")


def grid3d(rng, nx, ny, nz, nbc=1, pz=False, shuffle=False, turn=False, names=("W", "v", "o", "SYM"), internal=True, deform=0.0):
    """A validly connected structured 3D mesh (layers of a 2D grid), built independently."""
    c = core()
    g = grid2d(rng, nx, ny, nbc, shuffle=shuffle, turn=turn, names=names, internal=internal, deform=deform)
    n2 = g.nel
    m = c.HexaData(3, n2 * nz, [2, 2, 2], [3, 0, 0, 0, 0], nbc)
    perm = [int(k) for k in rng.permutation(n2 * nz)] if shuffle else list(range(n2 * nz))
    for k in range(nz):
        for e in range(n2):
            el = m.elem[perm[e + n2 * k]]
            for iz in (0, 1):
                el.pos[:2, iz] = g.elem[e].pos[:2, 0]
                el.pos[2, iz] = (k + iz) * 0.7
            me = perm[e + n2 * k] + 1
            for ib in range(nbc):
                for f in range(4):
                    b = el.bcs[ib, f]
                    s = g.elem[e].bcs[ib, f]
                    for q in range(8):
                        b[q] = s[q]
                    if s[0] != "":
                        b[1] = me
                    if s[0] in ("E", "P"):
                        b[3] = perm[int(s[3]) - 1 + n2 * k] + 1
                for f, dk in ((4, -1), (5, 1)):
                    b = el.bcs[ib, f]
                    kk = k + dk
                    if 0 <= kk < nz:
                        if not internal:
                            continue
                        b[0] = "E"
                    elif pz:
                        b[0] = "P"
                        kk %= nz
                    else:
                        b[0] = names[(f + ib) % len(names)]
                        b[1], b[2] = me, f + 1
                        continue
                    b[1], b[2] = me, f + 1
                    b[3] = perm[e + n2 * kk] + 1
                    b[4] = 9 - f + 1 if False else (6 if f == 4 else 5)
    return m


# corner index lists, independent of the code under test: [iz, iy, ix]
FACE = {
    0: [(0, 0, 0), (0, 0, -1), (-1, 0, 0), (-1, 0, -1)],
    1: [(0, 0, -1), (0, -1, -1), (-1, 0, -1), (-1, -1, -1)],
    2: [(0, -1, 0), (0, -1, -1), (-1, -1, 0), (-1, -1, -1)],
    3: [(0, 0, 0), (0, -1, 0), (-1, 0, 0), (-1, -1, 0)],
    4: [(0, 0, 0), (0, 0, -1), (0, -1, 0), (0, -1, -1)],
    5: [(-1, 0, 0), (-1, 0, -1), (-1, -1, 0), (-1, -1, -1)],
}
EDGE = {
    0: ((0, 0, 0), (0, 0, 1)), 1: ((0, 0, 1), (0, 1, 1)), 2: ((0, 1, 1), (0, 1, 0)), 3: ((0, 1, 0), (0, 0, 0)),
    4: ((1, 0, 0), (1, 0, 1)), 5: ((1, 0, 1), (1, 1, 1)), 6: ((1, 1, 1), (1, 1, 0)), 7: ((1, 1, 0), (1, 0, 0)),
    8: ((0, 0, 0), (1, 0, 0)), 9: ((0, 0, 1), (1, 0, 1)), 10: ((0, 1, 1), (1, 1, 1)), 11: ((0, 1, 0), (1, 1, 0)),
}


def ends(el, ed):
    a, b = [tuple(-x for x in t) for t in EDGE[ed]]  # the last point of a direction, whatever the order
    return el.pos[(slice(None),) + a].copy(), el.pos[(slice(None),) + b].copy()


def fcenter(el, f):
    return sum(el.pos[(slice(None),) + k].astype(float) for k in FACE[f]) / 4


def shortest(el):
    es = range(12) if el.pos.shape[1] > 1 else range(4)
    return min(float(np.linalg.norm(np.subtract(*[p for p in reversed(ends(el, e))]))) for e in es)


def connect_errors(m, tol=1e-3):
    """Independent connectivity check; returns a list of messages."""
    out = []
    nf = 2 * m.ndim
    for ib in range(m.nbc):
        for e, el in enumerate(m.elem):
            for f in range(nf):
                t = el.bcs[ib, f][0]
                if t not in ("E", "P"):
                    continue
                e2, f2 = int(el.bcs[ib, f][3]) - 1, int(el.bcs[ib, f][4]) - 1
                if not (0 <= e2 < len(m.elem)):
                    out.append(f"el {e} face {f}: element {e2} does not exist")
                    continue
                if not 0 <= f2 < nf:
                    out.append(f"el {e} face {f}: face {f2} does not exist")
                    continue
                b = m.elem[e2].bcs[ib, f2]
                if b[0] != t or int(b[3]) - 1 != e or int(b[4]) - 1 != f:
                    out.append(f"el {e} face {f} ('{t}') -> el {e2} face {f2} is {tuple(b)[:5]}")
                    continue
                if t == "E":
                    d = float(np.linalg.norm(fcenter(el, f) - fcenter(m.elem[e2], f2)))
                    lim = tol * min(shortest(el), shortest(m.elem[e2]))
                    if d > lim * (1 + 1e-9):
                        out.append(f"el {e} face {f} and el {e2} face {f2} are {d} apart")
    return out


def wellformed(m, what=""):
    need(m.nel == len(m.elem), "%s: nel = %s but %s elements", what, m.nel, len(m.elem))
    need(sorted(int(i) for i in m.elmap) == list(range(1, m.nel + 1)), "%s: elmap is not a permutation of 1..%s: %s", what, m.nel, str(list(m.elmap))[:80])
    need(np.asarray(m.elmap).dtype == np.int32, "%s: elmap is %s, not int32", what, np.asarray(m.elmap).dtype)
    nc = sum(1 for el in m.elem for t in el.ccurv if t != "")
    need(m.ncurv == nc, "%s: ncurv = %s but %s curved edges", what, m.ncurv, nc)
    for e, el in enumerate(m.elem):
        need(el.bcs.shape == (m.nbc, 6), "%s: element %s has a condition table %s for nbc = %s", what, e, el.bcs.shape, m.nbc)
        need(len(el.ccurv) == 12 and el.curv.shape == (12, 5), "%s: element %s has a wrong curvature table", what, e)
        need(el.pos.shape == (3, m.lr1[2], m.lr1[1], m.lr1[0]), "%s: element %s has positions of shape %s for lr1 = %s", what, e, el.pos.shape, m.lr1)
