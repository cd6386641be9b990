"""Oracles for the mesh properties C08-C20, C24, C25."""
import copy
import math
import os

import numpy as np
import util as U
from o_files import Tmp, rng_of
from util import Bad, connect_errors, fcenter, need, shortest, wellformed


def bcs_of(el):
    return [[tuple(c) for c in r] for r in el.bcs.tolist()]


# ------------------------------------------------------------------ C08
C08_OPS = ["writerea", "writere2", "writenek", "lims", "points", "centroid", "face_center", "smallest_edge", "edge_mid", "edge_circle", "check_conn", "check_bcs", "repr", "extrude", "extrude_nobc", "map2D", "merge", "merge_nobc", "extrude_refine"]


def gen_C08(rng, tier):
    for rep in range(3 if tier == "quick" else 20):
        for op in C08_OPS:
            yield dict(seed=int(rng.integers(2**31)), op=op, ndim=2 + int(rng.integers(0, 2)), nbc=int(rng.choice([1, 2])), valid=bool(rng.integers(0, 2)))


def run_C08(c):
    from pymech import meshtools as mt
    from pymech.neksuite import mesh as nm
    from pymech.neksuite import writenek

    rng = rng_of(c)
    op = c["op"]
    if op in ("extrude", "extrude_nobc", "map2D", "extrude_refine"):
        c = dict(c, ndim=2)
    if op == "extrude_refine":
        m = U.grid2d(rng, 1, 3, c["nbc"], curve=0.5)
    elif op in ("edge_circle", "map2D", "extrude", "edge_mid") and c["ndim"] == 2:
        m = U.grid2d(rng, 3, 2, c["nbc"], px=True, shuffle=True, curve=0.6, deform=0.1)
    elif c["valid"]:
        m = U.grid2d(rng, 3, 2, c["nbc"], px=True, shuffle=True, turn=True, curve=0.5, deform=0.2) if c["ndim"] == 2 else U.grid3d(rng, 2, 2, 2, c["nbc"], pz=False, shuffle=True)
    else:
        m = U.random_mesh(rng, c["ndim"], 4, c["nbc"], empty_clean=False)
    if op == "writenek":
        m.elmap = (rng.permutation(m.nel) + 1).astype(np.int32)
        m.wdsz = int(rng.choice([4, 8]))
        m.endian = str(rng.choice(["little", "big"]))
        if rng.random() < 0.5:
            m = U.random_field(rng, c["ndim"], 3, [3, 2, 4 if c["ndim"] == 3 else 1], [c["ndim"]] * 2 + [1, 1, 2], m.wdsz, m.endian, str(rng.choice(["float32", "float64"])))
    if op == "writere2":
        m.endian = str(rng.choice(["little", "big"]))
    before = U.snap(m)
    var0, lr0 = m.var, m.lr1
    res = None
    with Tmp() as f:
        try:
            if op in ("writerea", "writere2"):
                need(getattr(nm, op)(f(), m) == 0, "%s does not return 0", op)
            elif op == "writenek":
                need(writenek(f(), m) == 0, "writenek does not return 0")
            elif op == "lims":
                m.lims
            elif op == "points":
                m.get_points()[...] = -1.0
            elif op == "centroid":
                for el in m.elem:
                    el.centroid[...] = 7.0
            elif op == "face_center":
                [el.face_center(i) for el in m.elem for i in range(2 * m.ndim)]
            elif op == "smallest_edge":
                [el.smallest_edge() for el in m.elem]
            elif op == "edge_mid":
                for el in m.elem:
                    for i in range(12 if m.ndim == 3 else 4):
                        mt.edge_mid(el, i)[...] = 5.0
            elif op == "edge_circle":
                for el in m.elem:
                    for i in range(12 if m.ndim == 3 else 4):
                        p, q = U.ends(el, i)
                        mt.edge_circle(el, i, (p + q) / 2 + 0.1)[...] = 5.0
            elif op == "check_conn":
                m.check_connectivity()
            elif op == "check_bcs":
                m.check_bcs_present()
            elif op == "repr":
                repr(m), repr(m.lims), [repr(e) for e in m.elem]
            elif op == "extrude":
                res = mt.extrude(m, np.linspace(0, 1, 4))
            elif op == "extrude_nobc":
                res = mt.extrude(m, [0.0, 0.5, 2.0], ["W"] * m.nbc, ["o"] * m.nbc, internal_bcs=False)
            elif op == "extrude_refine":
                res = mt.extrude_refine(m, np.linspace(0, 1, 9), ["W"] * m.nbc, ["o"] * m.nbc, fun=[lambda x, y, p: y - 0.5], funpar=[0.0])
            elif op == "map2D":
                res = mt.map2D(m, lambda x, y: (2 * x - 0.1 * y, y + 0.05 * x * x), curvature=bool(rng.integers(0, 2)))
            elif op in ("merge", "merge_nobc"):
                res = U.grid2d(rng, 2, 2, c["nbc"], x0=-1.0) if m.ndim == 2 else U.grid3d(rng, 2, 2, 2, c["nbc"])
                res.merge(m, ignore_all_bcs=op == "merge_nobc")
        except ValueError:
            if op not in ("check_conn", "check_bcs"):
                raise
    U.same(before, U.snap(m), "the argument of " + op)
    need(m.var is var0 and m.lr1 is lr0, "%s replaced the argument's metadata", op)
    if res is not None:
        for el in res.elem:
            for a in U.ARR:
                getattr(el, a)[...] = 123.0
            el.ccurv[:] = ["x"] * 12
            for ib in range(res.nbc):
                for fc in range(6):
                    el.bcs[ib, fc][0] = "zz"
        res.elmap[...] = 0
        U.same(before, U.snap(m), "the argument of %s, through its result," % op)


# ------------------------------------------------------------------ C09, C10 extrude
def ext_mesh(c):
    rng = rng_of(c)
    if c.get("arb"):
        m = U.random_mesh(rng, 2, c["nx"] * c["ny"], c["nbc"], pcurv=0.4)
        for el in m.elem:
            el.pos[2] = 0
    else:
        m = U.grid2d(rng, c["nx"], c["ny"], c["nbc"], px=c["px"], py=c["py"], shuffle=c["sh"], turn=c["sh"], deform=0.2, curve=0.4, internal=c.get("has_int", True))
    m.var = list(c.get("var", [2, 2, 1, 0, 0]))
    return m


def ext_cases(rng, tier, n):
    for i in range(n):
        nbc = int(rng.choice([1, 1, 2, 3]))
        nz = int(rng.choice([1, 2, 3, 5]))
        z = [float(v) for v in np.cumsum(0.1 + rng.random(nz + 1)) - 0.7]
        e = [[str(rng.choice(["W", "v", "O", "SYM", ""])) for _ in range(nbc)] for _ in (0, 1)]
        ends = [None if i % 3 == 0 else e[0], None if i % 3 == 0 else e[1]]
        if i % 5 == 4:
            ends = [["P"] + e[0][1:], ["P"] + e[1][1:]]
        yield dict(seed=int(rng.integers(2**31)), nx=int(rng.integers(1, 4)), ny=int(rng.integers(1, 4)), nbc=nbc, px=bool(rng.integers(0, 2)), py=bool(rng.integers(0, 2)), sh=bool(rng.integers(0, 2)), z=z, bc1=ends[0], bc2=ends[1], internal=bool(rng.integers(0, 4)))


def gen_C09(rng, tier):
    for i, c in enumerate(ext_cases(rng, tier, 40 if tier == "quick" else 400)):
        c["arb"] = bool(i % 2)
        yield c
    yield dict(bad="3d")
    yield dict(bad="lr1")
    yield dict(bad="var")


def run_C09(c):
    from pymech.meshtools import extrude

    if c.get("bad"):
        rng = np.random.default_rng(1)
        m = U.random_mesh(rng, 3 if c["bad"] == "3d" else 2, 2, 1)
        if c["bad"] == "lr1":
            m.lr1 = [3, 3, 1]
        if c["bad"] == "var":
            m.var = [0, 2, 1, 0, 0]
        try:
            extrude(m, [0.0, 1.0])
        except ValueError:
            return
        need(False, "unsuitable input (%s) is extruded", c["bad"])
    m = ext_mesh(c)
    z = c["z"]
    r = extrude(m, np.array(z) if c["seed"] % 2 else list(z), c["bc1"], c["bc2"], internal_bcs=c["internal"])
    nz = len(z) - 1
    need(r.ndim == 3 and list(r.lr1) == [2, 2, 2] and r.var[0] == 3, "metadata %s", (r.ndim, r.lr1, r.var))
    need(r.nel == len(r.elem) == m.nel * nz, "nel %s", r.nel)
    need(r.ncurv == 2 * nz * m.ncurv, "ncurv %s", r.ncurv)
    for k in range(nz):
        for i in range(m.nel):
            a, b = m.elem[i], r.elem[i + m.nel * k]
            need(b.pos.shape == (3, 2, 2, 2), "shape %s", b.pos.shape)
            for iz in (0, 1):
                need(np.array_equal(b.pos[:2, iz], a.pos[:2, 0]) and (b.pos[2, iz] == z[k + iz]).all(), "layer %s element %s: corners are %s", k, i, b.pos[:, iz].tolist())
            for e in range(12):
                t = a.ccurv[e % 4] if e < 8 else ""
                need(b.ccurv[e] == t, "layer %s element %s edge %s: curvature %r, expected %r", k, i, e, b.ccurv[e], t)
                if t != "":
                    p = a.curv[e % 4].copy()
                    if t == "m":
                        p[2] = z[k + e // 4]
                    need(np.array_equal(b.curv[e], p), "layer %s element %s edge %s: curvature parameters %s, expected %s", k, i, e, b.curv[e], p)


def gen_C10(rng, tier):
    for c in ext_cases(rng, tier, 60 if tier == "quick" else 500):
        c["has_int"] = bool(rng.integers(0, 4))
        yield c
    for a, b in (("P", "W"), ("W", "P")):
        for p in (0, 1):
            yield dict(bad=[a, b], p=p)


def run_C10(c):
    from pymech.meshtools import extrude

    if c.get("bad"):
        m = U.grid2d(np.random.default_rng(1), 2, 2, 2)
        b1, b2 = ["v", "v"], ["v", "v"]
        b1[c["p"]], b2[c["p"]] = c["bad"]
        try:
            extrude(m, [0.0, 1.0, 2.0], b1, b2)
        except ValueError:
            return
        need(False, "inconsistent ends %s / %s are accepted", b1, b2)
    m = ext_mesh(c)
    nel, nz = m.nel, len(c["z"]) - 1
    bc1 = c["bc1"] or ["P"] * c["nbc"]
    bc2 = c["bc2"] or ["P"] * c["nbc"]
    r = extrude(m, c["z"], c["bc1"], c["bc2"], internal_bcs=c["internal"])
    need(r.nbc == m.nbc, "nbc %s", r.nbc)
    for k in range(nz):
        for i in range(nel):
            me = i + nel * k
            for ib in range(c["nbc"]):
                row = r.elem[me].bcs[ib]
                src = m.elem[i].bcs[ib]
                for f in range(4):
                    a, b = tuple(src[f]), tuple(row[f])
                    if a[0] in ("E", "P"):
                        if a[0] == "E" and not c["internal"]:
                            need(b == ("", 0, 0, 0, 0, 0, 0, 0), "element %s face %s: %s should be empty", me, f, b)
                        else:
                            need(b[0] == a[0] and b[3] == a[3] + nel * k and b[4] == a[4], "element %s face %s: %s, 2D condition %s", me, f, b, a)
                    else:
                        need(b[0] == a[0] and b[3:] == a[3:], "element %s face %s: %s, 2D condition %s", me, f, b, a)
                for f, t, e in ((4, bc1[ib], k == 0), (5, bc2[ib], k == nz - 1)):
                    b = tuple(row[f])
                    if e:
                        need(b[0] == t, "element %s face %s: %s, expected %r", me, f, b, t)
                        if t == "P":
                            need((b[3], b[4]) == (i + nel * (nz - 1) + 1, 6) if f == 4 else (b[3], b[4]) == (i + 1, 5), "element %s face %s: %s", me, f, b)
                        else:
                            need((b[3], b[4]) == (0, 0), "element %s face %s: %s has a target", me, f, b)
                    elif c["internal"]:
                        d = -1 if f == 4 else 1
                        need((b[0], b[3], b[4]) == ("E", me + d * nel + 1, 6 if f == 4 else 5), "element %s face %s: %s", me, f, b)
                    else:
                        need(b[0] == "", "element %s face %s: %s should be empty", me, f, b)
                if c["internal"]:
                    for f in range(6):
                        need((int(row[f][1]), int(row[f][2])) == (me + 1, f + 1) or row[f][0] in ("", ) or (f < 4 and row[f][1] == me + 1), "element %s face %s: own indices %s", me, f, tuple(row[f])[:3])
    er = connect_errors(r)
    need(not er, "extruded mesh is not connected: %s", er[:2])
    if c["internal"] and not any(b == "" for b in bc1 + bc2) and c["has_int"]:
        need(r.check_connectivity() is True and r.check_bcs_present() is True, "checks refuse the extruded mesh")


# ------------------------------------------------------------------ C11 gen_box
def gen_C11(rng, tier):
    for i in range(60 if tier == "quick" else 500):
        var = [2, int(rng.choice([0, 2, 2])), 1, int(rng.integers(0, 2)), int(rng.choice([0, 0, 1, 3]))]
        nbc = (var[1] > 0) + (var[3] > 0) + var[4]
        x0, y0 = [float(v) for v in rng.standard_normal(2) * 5]
        sd = lambda: None if rng.random() < 0.5 else [str(rng.choice(["W", "v", "O", "P", "SYM"])) for _ in range(nbc)]
        yield dict(nx=int(rng.integers(1, 6)), ny=int(rng.integers(1, 6)), b=[x0, x0 + float(rng.random() + 0.01), y0, y0 + float(rng.random() * 9 + 0.01)], var=var, bcs=[sd() for _ in range(4)], internal=bool(rng.integers(0, 4)), nbc=nbc)
    for b in ([1.0, 1.0, 0.0, 1.0], [1.0, 0.5, 0.0, 1.0], [0.0, 1.0, 2.0, 2.0], [0.0, 1.0, 2.0, 1.0]):
        yield dict(bad=b)
    yield dict(nx=3, ny=2, b=[0.0, 1.0, 0.0, 1.0], var=None, bcs=[None] * 4, internal=True, nbc=1)


def run_C11(c):
    from pymech.meshtools import gen_box

    if c.get("bad"):
        try:
            gen_box(2, 2, *c["bad"])
        except ValueError:
            return
        need(False, "bounds %s are accepted", c["bad"])
    nx, ny = c["nx"], c["ny"]
    x0, x1, y0, y1 = c["b"]
    bx0, bx1, by0, by1 = c["bcs"]
    kw = dict(bcs_xmin=bx0, bcs_xmax=bx1, bcs_ymin=by0, bcs_ymax=by1, internal_bcs=c["internal"])
    if c["var"] is not None:
        kw["var"] = list(c["var"])
    m = gen_box(nx, ny, x0, x1, y0, y1, **kw)
    nbc = c["nbc"]
    need((m.ndim, m.nel, len(m.elem), m.nbc, list(m.lr1), list(m.var)) == (2, nx * ny, nx * ny, nbc, [2, 2, 1], c["var"] or [2, 2, 1, 0, 0]), "metadata %s", (m.ndim, m.nel, m.nbc, m.lr1, m.var))
    lx, ly = x1 - x0, y1 - y0
    side = {0: by0, 1: bx1, 2: by1, 3: bx0}
    for i in range(nx):
        for j in range(ny):
            el = m.elem[i + nx * j]
            X = [x0 + lx * i / nx, x0 + lx * (i + 1) / nx]
            Y = [y0 + ly * j / ny, y0 + ly * (j + 1) / ny]
            ref = np.zeros((3, 1, 2, 2))
            for a in (0, 1):
                for b in (0, 1):
                    ref[:, 0, b, a] = X[a], Y[b], 0.0
            need(np.allclose(el.pos, ref, rtol=1e-12, atol=1e-13 * (abs(x0) + abs(y0) + lx + ly)), "element (%s,%s): corners %s", i, j, el.pos.tolist())
            need(not any(el.ccurv), "element (%s,%s) is curved", i, j)
            for ib in range(nbc):
                for f in range(4):
                    ni, nj = [(i, j - 1), (i + 1, j), (i, j + 1), (i - 1, j)][f]
                    out = not (0 <= ni < nx and 0 <= nj < ny)
                    b = tuple(el.bcs[ib, f])
                    if not out and not c["internal"]:
                        need(b == ("", 0, 0, 0, 0, 0, 0, 0), "element (%s,%s) face %s: %s should be empty", i, j, f, b)
                        continue
                    t = "E" if not out else ((side[f] or ["P"] * nbc)[ib])
                    tgt = (0, 0)
                    if t in ("E", "P"):
                        tgt = (ni % nx + nx * (nj % ny) + 1, (f + 2) % 4 + 1)
                    need(b == (t, i + nx * j + 1, f + 1) + tgt + (0, 0, 0), "element (%s,%s) field %s face %s: %s", i, j, ib, f, b)
                for f in (4, 5):
                    need(el.bcs[ib, f][0] == "", "element (%s,%s): face %s has a condition", i, j, f)


# ------------------------------------------------------------------ C12 merge
def gen_C12(rng, tier):
    n = 60 if tier == "quick" else 500
    for i in range(n):
        yield dict(seed=int(rng.integers(2**31)), kind=["half", "half3", "per", "far", "plain", "nobc", "none"][i % 7], nbc=int(rng.choice([1, 2, 3])), sh=bool(rng.integers(0, 2)), nx=int(rng.integers(1, 4)), ny=int(rng.integers(1, 4)), internal=bool(rng.integers(0, 3)), ign=bool(rng.integers(0, 3)), gap=float(rng.choice([0, 0, 1e-4, 0.5])), tol=float(rng.choice([1e-2, 1e-3, 0.1])))
    for i in range(10 if tier == "quick" else 60):
        yield dict(seed=int(rng.integers(2**31)), kind="chain", nbc=int(rng.choice([1, 2])))
    yield dict(bad="dim")
    yield dict(bad="order")


def mk_pair(c):
    rng = rng_of(c)
    nb, nx, ny, sh = c["nbc"], c["nx"], c["ny"], c["sh"]
    kw = dict(shuffle=sh, turn=sh, internal=c["internal"], curve=0.3)
    dx = c["gap"] * 0.3 if c["kind"] == "far" else c["gap"] * (1e-3 if c["gap"] > 0.1 else 1)
    if c["kind"] == "half3":
        a = U.grid3d(rng, nx, ny, 2, nb, shuffle=sh, turn=sh, internal=c["internal"])
        b = U.grid3d(rng, 2, ny, 2, nb, shuffle=sh, turn=sh, internal=c["internal"])
        for el in b.elem:
            el.pos[0] = 1.0 + dx + el.pos[0]
    else:
        per = c["kind"] == "per"
        a = U.grid2d(rng, nx, ny, nb, px=per, py=bool(rng.integers(0, 2)), **kw)
        b = U.grid2d(rng, 2, ny, nb, px=per, py=bool(rng.integers(0, 2)), x0=1.0 + dx, lx=0.8, **kw)
        # periodic in y: never coincide with anything
    return a, b


def run_C12(c):
    if c.get("bad"):
        rng = np.random.default_rng(0)
        a = U.grid2d(rng, 2, 2)
        b = U.grid3d(rng, 2, 2, 1) if c["bad"] == "dim" else U.grid2d(rng, 1, 1)
        if c["bad"] == "order":
            b.lr1 = [3, 3, 1]
        s = U.snap(a)
        try:
            a.merge(b)
        except ValueError:
            U.same(s, U.snap(a), "the mesh, by a refused merge,")
            return
        need(False, "incompatible meshes (%s) are merged", c["bad"])
    if c["kind"] == "chain":
        return chain(c)
    a, b = mk_pair(c)
    opts = dict(tol=c["tol"], ignore_empty=c["ign"], ignore_all_bcs=c["kind"] == "nobc")
    if c["kind"] == "none":
        for m in (a, b):
            m.nbc = 0
            for el in m.elem:
                el.bcs = el.bcs[:0]
    check_merge(a, b, opts)


def check_merge(a, b, opts):
    A, B = copy.deepcopy(a), copy.deepcopy(b)
    sb = U.snap(b)
    n = a.merge(b, **opts)
    U.same(sb, U.snap(b), "the added mesh")
    nb, nf, n1 = min(A.nbc, B.nbc), 2 * A.ndim, A.nel
    need(a.nel == len(a.elem) == n1 + B.nel and a.ncurv == A.ncurv + B.ncurv, "metadata %s", (a.nel, a.ncurv))
    need([int(x) for x in a.elmap] == [int(x) for x in A.elmap] + [int(x) + n1 for x in B.elmap], "element map")
    # expected conditions: renumber, then join
    exp = [bcs_of(el) for el in A.elem]
    for el in B.elem:
        rows = bcs_of(el)
        for r in rows:
            for f in range(nf):
                q = list(r[f])
                if q[0] in ("E", "P") and q[3] > 0:
                    q[3] += n1
                if q[1] > 0:
                    q[1] += n1
                r[f] = tuple(q)
        exp.append(rows)
    els = A.elem + B.elem
    cnt = 0
    if nb and not opts.get("ignore_all_bcs"):
        ok = lambda t: t != "E" and not (opts.get("ignore_empty", True) and t == "")
        cen = [[fcenter(el, f) for f in range(nf)] for el in els]
        sh = [shortest(el) for el in els]
        typ = lambda e, f: exp[e][0][f][0]
        for e0 in range(n1, len(els)):
            for f0 in range(nf):
                if not ok(typ(e0, f0)):
                    continue
                for e1 in range(n1):
                    hit = False
                    for f1 in range(nf):
                        if not ok(typ(e1, f1)):
                            continue
                        d = float(np.linalg.norm(cen[e0][f0] - cen[e1][f1]))
                        lim = opts.get("tol", 1e-2) * min(sh[e0], sh[e1])
                        if d > lim:
                            continue
                        cnt += 1
                        hit = True
                        both = typ(e0, f0) == typ(e1, f1) == "P"
                        for ib in range(nb):
                            def put(e, f, t, e2, f2, ib=ib):
                                q = list(exp[e][ib][f])
                                q[0], q[3], q[4] = t, float(e2 + 1), float(f2 + 1)
                                exp[e][ib][f] = tuple(q)
                            if both:
                                if ib == 0:
                                    p0 = (int(exp[e0][0][f0][3]) - 1, int(exp[e0][0][f0][4]) - 1)
                                    p1 = (int(exp[e1][0][f1][3]) - 1, int(exp[e1][0][f1][4]) - 1)
                                put(*p0, "P", *p1)
                                put(*p1, "P", *p0)
                        for ib in range(nb):
                            q = list(exp[e0][ib][f0]); q[0], q[3], q[4] = "E", float(e1 + 1), float(f1 + 1); exp[e0][ib][f0] = tuple(q)
                            q = list(exp[e1][ib][f1]); q[0], q[3], q[4] = "E", float(e0 + 1), float(f0 + 1); exp[e1][ib][f1] = tuple(q)
                        break
                    if hit:
                        break
    need(n == cnt, "%s pairs reported, %s expected", n, cnt)
    for e, (x, y) in enumerate(zip(els, a.elem)):
        s, t = U.snap_elem(x), U.snap_elem(y)
        s.pop("bcs"), t.pop("bcs")
        U.same(s, t, f"element {e}")
        need(bcs_of(y) == exp[e], "element %s: conditions %s, expected %s", e, bcs_of(y), exp[e])


def chain(c):
    """a ring of four blocks, merged one after the other, periodic in the other direction"""
    rng = rng_of(c)
    nb = c["nbc"]
    parts = []
    per = bool(rng.integers(0, 2))
    n = [int(k) for k in rng.integers(1, 3, 3)]
    x = 0.0
    for k in range(3):
        parts.append(U.grid2d(rng, n[k], 2, nb, px=per, py=bool(k % 2 == 0) if False else False, x0=x, lx=0.5 * n[k], shuffle=True, turn=True, names=("W", "v", "O", "con")))
        x += 0.5 * n[k]
    m = parts[0]
    total = 0
    for p in parts[1:]:
        before = copy.deepcopy(m)
        check_merge(m, p, dict())
        total += p.nel
    er = connect_errors(m)
    need(not er, "after a chain of merges: %s", er[:2])
    wellformed(m, "after a chain of merges")
    if per:
        need(any(b[0] == "P" for el in m.elem for b in el.bcs[0]), "periodic conditions are lost")


# ------------------------------------------------------------------ C13 keep_elements
def gen_C13(rng, tier):
    for i in range(60 if tier == "quick" else 600):
        nx, ny = int(rng.integers(1, 5)), int(rng.integers(1, 4))
        nd = 2 + i % 2
        nel = nx * ny * (2 if nd == 3 else 1)
        k = int(rng.integers(0, nel + 1)) if i % 9 == 0 else int(rng.integers(1, nel + 1))
        yield dict(seed=int(rng.integers(2**31)), nd=nd, nx=nx, ny=ny, nbc=int(rng.choice([1, 1, 2, 3])), keep=[int(v) for v in rng.permutation(nel)[:k]], ext=str(rng.choice(["", "con", "W"])), px=bool(rng.integers(0, 2)))
    yield dict(bad=1)


def run_C13(c):
    from pymech.meshtools import keep_elements

    if c.get("bad"):
        m = U.grid2d(np.random.default_rng(1), 2, 2)
        for k in ([4], [0, 7]):
            try:
                keep_elements(m, k)
            except ValueError:
                continue
            need(False, "element numbers %s are accepted for 4 elements", k)
        return
    rng = rng_of(c)
    m = U.grid2d(rng, c["nx"], c["ny"], c["nbc"], px=c["px"], shuffle=True, turn=True, curve=0.4) if c["nd"] == 2 else U.grid3d(rng, c["nx"], c["ny"], 2, c["nbc"], pz=c["px"], shuffle=True)
    o = copy.deepcopy(m)
    arg = list(c["keep"])
    keep_elements(m, arg, external_bc=c["ext"])
    need(arg == c["keep"], "the list of elements is modified")
    ks = sorted(c["keep"])
    new = {k: i for i, k in enumerate(ks)}
    need(m.nel == len(m.elem) == len(ks), "nel %s", m.nel)
    wellformed(m, "after keeping elements")
    for i, k in enumerate(ks):
        s, t = U.snap_elem(o.elem[k]), U.snap_elem(m.elem[i])
        s.pop("bcs"), t.pop("bcs")
        U.same(s, t, f"element {k}")
        for ib in range(c["nbc"]):
            for f in range(2 * c["nd"]):
                a, b = tuple(o.elem[k].bcs[ib, f]), tuple(m.elem[i].bcs[ib, f])
                if a[0] in ("E", "P"):
                    tgt = int(a[3]) - 1
                    e = (a[0], new[tgt] + 1, a[4]) if tgt in new else (c["ext"], 0, 0)
                    need((b[0], b[3], b[4]) == e and b[5:] == a[5:], "element %s face %s: %s, was %s", i, f, b, a)
                else:
                    need(b[0] == a[0] and b[3:] == a[3:], "element %s face %s: %s, was %s", i, f, b, a)
                if a[0] != "":
                    need(int(b[1]) == i + 1 and b[2] == a[2], "element %s face %s: own indices %s", i, f, b[1:3])
    need(m.ndim == o.ndim and m.nbc == o.nbc and list(m.lr1) == list(o.lr1) and list(m.var) == list(o.var), "metadata")
    er = connect_errors(m)
    need(not er, "%s", er[:2])


# ------------------------------------------------------------------ C14
def gen_C14(rng, tier):
    for i in range(60 if tier == "quick" else 500):
        nd = 2 + i % 2
        yield dict(seed=int(rng.integers(2**31)), nd=nd, nx=int(rng.integers(1, 4)), ny=int(rng.integers(1, 4)), nbc=int(rng.choice([1, 2, 3])), px=bool(rng.integers(0, 2)), kind=["del", "gen", "gen", "delrand", "gap", "partial"][i % 6], tol=float(rng.choice([1e-3, 1e-2, 0.2])))
    yield dict(bad=1)


def run_C14(c):
    from pymech.meshtools import delete_internal_bcs, generate_internal_bcs

    if c.get("bad"):
        m = U.grid2d(np.random.default_rng(1), 2, 2)
        m.elem[3].pos[:, 0, 0, 1] = m.elem[3].pos[:, 0, 0, 0]
        try:
            generate_internal_bcs(m)
        except ValueError:
            return
        need(False, "a zero-length edge is accepted")
    rng = rng_of(c)
    nd, nb = c["nd"], c["nbc"]
    mk = lambda: U.grid2d(rng, c["nx"], c["ny"], nb, px=c["px"], shuffle=True, turn=True, curve=0.3, deform=0.2) if nd == 2 else U.grid3d(rng, c["nx"], c["ny"], 2, nb, pz=c["px"], shuffle=True, turn=True)
    if c["kind"] == "delrand":
        m = U.random_mesh(rng, nd, 4, nb)
    else:
        m = mk()
    full = copy.deepcopy(m)
    n = delete_internal_bcs(m)
    want = sum(full.elem[e].bcs[ib, f][0] == "E" for e in range(m.nel) for ib in range(nb) for f in range(6))
    need(n == want, "%s deletions reported, %s expected", n, want)
    for e in range(m.nel):
        s, t = U.snap_elem(full.elem[e]), U.snap_elem(m.elem[e])
        s.pop("bcs"), t.pop("bcs")
        U.same(s, t, f"element {e}")
        for ib in range(nb):
            for f in range(6):
                a, b = tuple(full.elem[e].bcs[ib, f]), tuple(m.elem[e].bcs[ib, f])
                x = ("", 0, 0, 0, 0, 0, 0, 0) if a[0] == "E" else a
                need(b == x, "element %s field %s face %s: %s, expected %s", e, ib, f, b, x)
    if c["kind"] in ("del", "delrand"):
        return
    blocked = set()
    if c["kind"] == "gap":
        # pull one element away by less or more than the tolerance
        e = int(rng.integers(0, m.nel))
        m.elem[e].pos[0] += shortest(m.elem[e]) * c["tol"] * float(rng.choice([0.3, 3.0]))
    if c["kind"] == "partial":
        # some faces keep a condition
        for e in range(m.nel):
            for f in range(2 * nd):
                if m.elem[e].bcs[0, f][0] == "" and rng.random() < 0.2:
                    for ib in range(nb):
                        m.elem[e].bcs[ib, f][0] = "W"
        # and some pairs their internal connection
        for e in range(m.nel):
            for f in range(2 * nd):
                if full.elem[e].bcs[0, f][0] == "E" and rng.random() < 0.3:
                    g, h = int(full.elem[e].bcs[0, f][3]) - 1, int(full.elem[e].bcs[0, f][4]) - 1
                    if all(m.elem[a].bcs[0, b][0] == "" for a, b in ((e, f), (g, h))):
                        for ib in range(nb):
                            m.elem[e].bcs[ib, f] = tuple(full.elem[e].bcs[ib, f])
                            m.elem[g].bcs[ib, h] = tuple(full.elem[g].bcs[ib, h])
    b4 = copy.deepcopy(m)
    n = generate_internal_bcs(m, tol=c["tol"])
    free = [(e, f) for e in range(m.nel) for f in range(2 * nd) if b4.elem[e].bcs[0, f][0] == ""]
    pair = {}
    cnt = 0
    for i, (e, f) in enumerate(free):
        for g, h in free[i + 1 :]:
            if g == e or (e, f) in pair or (g, h) in pair:
                continue
            d = float(np.linalg.norm(fcenter(b4.elem[e], f) - fcenter(b4.elem[g], h)))
            if d <= c["tol"] * min(shortest(b4.elem[e]), shortest(b4.elem[g])):
                pair[e, f], pair[g, h] = (g, h), (e, f)
                cnt += 1
    need(n == cnt * nb, "%s connections reported, %s expected", n, cnt * nb)
    for e in range(m.nel):
        s, t = U.snap_elem(b4.elem[e]), U.snap_elem(m.elem[e])
        s.pop("bcs"), t.pop("bcs")
        U.same(s, t, f"element {e}")
        for ib in range(nb):
            for f in range(6):
                a, b = tuple(b4.elem[e].bcs[ib, f]), tuple(m.elem[e].bcs[ib, f])
                if (e, f) in pair:
                    g, h = pair[e, f]
                    need(b[:5] == ("E", e + 1, f + 1, g + 1, h + 1), "element %s field %s face %s: %s, expected a connection to %s", e, ib, f, b, (g + 1, h + 1))
                else:
                    need(b == a, "element %s field %s face %s: %s, was %s", e, ib, f, b, a)
    if c["kind"] == "gen":
        for e in range(m.nel):
            for ib in range(nb):
                for f in range(2 * nd):
                    need(tuple(m.elem[e].bcs[ib, f]) == tuple(full.elem[e].bcs[ib, f]), "element %s face %s: %s, was %s before deleting", e, f, tuple(m.elem[e].bcs[ib, f]), tuple(full.elem[e].bcs[ib, f]))


# ------------------------------------------------------------------ C15
def gen_C15(rng, tier):
    for i in range(150 if tier == "quick" else 1500):
        yield dict(seed=int(rng.integers(2**31)), nd=2 + i % 2, nx=int(rng.integers(1, 4)), ny=int(rng.integers(1, 3)), nbc=int(rng.choice([1, 2])), px=bool(rng.integers(0, 2)), corrupt=["", "iel", "iface", "type", "geom", "geomsmall", "oneway", "swapface", "empty", "huge", "zero", "neg", "field2", "perm", "permface"][i % 15], tol=float(rng.choice([1e-3, 1e-2, 0.1])))


def run_C15(c):
    rng = rng_of(c)
    nd, nb, k = c["nd"], c["nbc"], c["corrupt"]
    m = U.grid2d(rng, c["nx"] + 1, c["ny"], nb, px=c["px"], shuffle=True, turn=True) if nd == 2 else U.grid3d(rng, c["nx"] + 1, c["ny"], 2, nb, pz=c["px"], shuffle=True, turn=True)
    con = [(e, f) for e in range(m.nel) for f in range(2 * nd) if m.elem[e].bcs[0, f][0] in ("E", "P")]
    e, f = con[int(rng.integers(0, len(con)))]
    ib = nb - 1 if k == "field2" else int(rng.integers(0, nb))
    b = m.elem[e].bcs[ib, f]
    if k == "iel":
        b[3] = int(rng.integers(1, m.nel + 1))
    elif k in ("iface", "field2"):
        b[4] = int(rng.integers(1, 2 * nd + 1))
    elif k == "type":
        b[0] = str(rng.choice(["E", "P", "W", ""]))
    elif k == "geom":
        m.elem[e].pos[int(rng.integers(0, nd))] += float(rng.choice([0.5, 3.0])) * shortest(m.elem[e])
    elif k == "geomsmall":
        m.elem[e].pos[int(rng.integers(0, nd))] += float(rng.choice([0.1, 0.5, 2.0, 20.0])) * c["tol"] * shortest(m.elem[e])
    elif k == "oneway":
        m.elem[e].bcs[ib, f][0] = "W"
    elif k in ("perm", "permface"):
        # redirect the connections among periodic faces (of one element): cycles instead of pairs
        js = [0, nb - 1][int(rng.integers(0, 2))]
        if k == "perm":
            fs = [(a, f) for a in range(m.nel) for f in range(2 * nd)]
        else:
            fs = [(e, f) for f in range(2 * nd)]
        fs = [fs[j] for j in rng.permutation(len(fs))][: int(rng.integers(2, 6))]
        if k == "permface" or rng.random() < 0.5:
            fs = [f for f in fs if f[0] == fs[0][0]] if rng.random() < 0.7 else fs
        for a, f in fs:
            if m.elem[a].bcs[js, f][0] in ("E", "P"):
                m.elem[int(m.elem[a].bcs[js, f][3]) - 1].bcs[js, int(m.elem[a].bcs[js, f][4]) - 1][0] = "W"
        for j, (a, f) in enumerate(fs):
            m.elem[a].bcs[js, f][0] = "P"
            g, h = fs[(j + 1) % len(fs)]
            m.elem[a].bcs[js, f][3], m.elem[a].bcs[js, f][4] = g + 1, h + 1
    elif k == "swapface":
        f2 = (f + 1) % (2 * nd)
        x, y = tuple(m.elem[e].bcs[ib, f]), tuple(m.elem[e].bcs[ib, f2])
        m.elem[e].bcs[ib, f], m.elem[e].bcs[ib, f2] = y, x
    elif k == "empty":
        e, f = int(rng.integers(0, m.nel)), int(rng.integers(0, 2 * nd))
        m.elem[e].bcs[ib, f][0] = ""
    elif k == "huge":
        b[3 + int(rng.integers(0, 2))] = float(rng.choice([m.nel + 1, 2 * nd + 1, 7, 99, 1e6]))
    elif k == "zero":
        b[3 + int(rng.integers(0, 2))] = 0
    elif k == "neg":
        b[3 + int(rng.integers(0, 2))] = -float(rng.integers(1, 5))
    good = not connect_errors(m, c["tol"])
    # a distance within rounding of the limit decides nothing
    full = all(m.elem[e].bcs[ib, f][0] != "" for e in range(m.nel) for ib in range(nb) for f in range(2 * nd))
    for name, want, call in (("connectivity", good, lambda: m.check_connectivity(tol=c["tol"])), ("completeness", full, m.check_bcs_present)):
        try:
            r = call()
            got = True
            need(r is True, "the %s check returns %r", name, r)
        except ValueError:
            got = False
        need(got == want, "the %s check %s a mesh that is %s (%s)", name, "accepts" if got else "rejects", "valid" if want else "invalid", k)


# ------------------------------------------------------------------ C16
def gen_C16(rng, tier):
    for i in range(40 if tier == "quick" else 400):
        yield dict(seed=int(rng.integers(2**31)), nd=2 + i % 2, x0=float(rng.standard_normal()) * (i % 4 > 0), y0=float(rng.standard_normal()) * 3 * (i % 3 > 0), theta=float(rng.choice([0.0, math.pi / 2, math.pi, float(rng.standard_normal()) * 4, -0.3, 7.0])), field=bool(i % 5 == 4))


def run_C16(c):
    from pymech.meshtools import rotate_2d

    rng = rng_of(c)
    m = U.random_mesh(rng, c["nd"], 4, 1)
    if c["field"]:
        m = U.random_field(rng, c["nd"], 3, [3, 4, 2 if c["nd"] == 3 else 1], [c["nd"], c["nd"], 1, 1, 2])
    o = copy.deepcopy(m)
    rotate_2d(m, c["x0"], c["y0"], c["theta"])
    ct, st = math.cos(c["theta"]), math.sin(c["theta"])

    def img(x, y):
        return c["x0"] + ct * (x - c["x0"]) - st * (y - c["y0"]), c["y0"] + st * (x - c["x0"]) + ct * (y - c["y0"])

    a, b = U.snap(o), U.snap(m)
    for s in (a, b):
        for el in s["elem"]:
            el.pop("pos"), el.pop("curv")
    U.same(a, b, "other data")
    for e, (p, q) in enumerate(zip(o.elem, m.elem)):
        x, y = img(p.pos[0], p.pos[1])
        sc = 1 + np.abs(p.pos[:2]).max() + abs(c["x0"]) + abs(c["y0"])
        need(np.allclose(q.pos[0], x, rtol=0, atol=1e-12 * sc) and np.allclose(q.pos[1], y, rtol=0, atol=1e-12 * sc) and np.array_equal(q.pos[2], p.pos[2]), "element %s: vertices", e)
        for k in range(12):
            w = p.curv[k].copy()
            if p.ccurv[k] == "m":
                w[0], w[1] = img(w[0], w[1])
                sc = 1 + np.abs(p.curv[k]).max() + abs(c["x0"]) + abs(c["y0"])
                need(np.allclose(q.curv[k], w, rtol=0, atol=1e-12 * sc), "element %s edge %s: midpoint %s, expected %s", e, k, q.curv[k], w)
            else:
                need(np.array_equal(q.curv[k], w), "element %s edge %s: curvature changed", e, k)


# ------------------------------------------------------------------ C17
TRANS = {
    "shear": lambda x, y: (2 * x - 0.1 * y, y + 0.3 * x),
    "quad": lambda x, y: (x + 0.1 * y * y, y + 0.2 * x * x),
    "polar": lambda x, y: (math.exp(0.3 * x) * math.cos(y), math.exp(0.3 * x) * math.sin(y)),
    "id": lambda x, y: (x, y),
}


def gen_C17(rng, tier):
    for i in range(60 if tier == "quick" else 500):
        yield dict(seed=int(rng.integers(2**31)), nx=int(rng.integers(1, 4)), ny=int(rng.integers(1, 4)), nbc=int(rng.choice([0, 1, 2])), tr=list(TRANS)[i % 4], curv=bool(rng.integers(0, 2)), bnd=bool(rng.integers(0, 2)), curve=float(rng.choice([0, 0.5])), sph=bool(rng.integers(0, 3) == 0))


def mid_ref(el, ed):
    p, q = U.ends(el, ed)
    t = el.ccurv[ed]
    if t == "m":
        return el.curv[ed][:3].copy()
    m = (p + q) / 2
    if t == "C":
        R = float(el.curv[ed][0])
        L = float(np.linalg.norm((q - p)[:2]))
        s = abs(R) - math.sqrt(R * R - L * L / 4)
        nrm = np.array([q[1] - p[1], p[0] - q[0], 0.0]) / L
        return m + math.copysign(1.0, R) * s * nrm
    if t == "s":
        ce = el.curv[ed][:3]
        d = m - ce
        return ce + d * float(el.curv[ed][4]) / float(np.linalg.norm(d))
    return m


def run_C17(c):
    from pymech.meshtools import map2D

    rng = rng_of(c)
    m = U.grid2d(rng, c["nx"], c["ny"], max(c["nbc"], 1), px=bool(rng.integers(0, 2)), shuffle=True, turn=True, deform=0.3, curve=c["curve"])
    if c["sph"]:
        for el in m.elem:
            if rng.random() < 0.5:
                p, q = U.ends(el, 1)
                el.ccurv[1] = "s"
                el.curv[1] = [float(p[0]) - 1.0, float(p[1]) - 0.5, 0.0, 0.0, 1.3]
        m.update_ncurv()
    if c["nbc"] == 0:
        m.nbc = 0
        for el in m.elem:
            el.bcs = el.bcs[:0]
    s = U.snap(m)
    calls = []
    f0 = TRANS[c["tr"]]
    r = map2D(m, f0, curvature=c["curv"], boundary_curvature=c["bnd"])
    U.same(s, U.snap(m), "the original mesh")
    need(r is not m, "the mesh itself is returned")
    wellformed(r, "mapped mesh")
    need((r.nel, r.ndim, r.nbc, list(r.lr1), list(r.var)) == (m.nel, 2, m.nbc, list(m.lr1), list(m.var)), "metadata")
    for e, (a, b) in enumerate(zip(m.elem, r.elem)):
        for iy in (0, 1):
            for ix in (0, 1):
                x, y = f0(float(a.pos[0, 0, iy, ix]), float(a.pos[1, 0, iy, ix]))
                need(np.allclose(b.pos[:2, 0, iy, ix], [x, y], atol=1e-12), "element %s: vertex %s", e, b.pos[:2, 0, iy, ix])
        need(np.array_equal(a.pos[2], b.pos[2]), "z changed")
        need(bcs_of(a) == bcs_of(b), "element %s: conditions changed", e)
        for ed in range(4):
            bd = m.nbc > 0 and a.bcs[0, ed][0] not in ("", "E")
            if c["curv"] or a.ccurv[ed] != "" or (c["bnd"] and bd):
                g = mid_ref(a, ed)
                x, y = f0(float(g[0]), float(g[1]))
                need(b.ccurv[ed] == "m" and np.allclose(b.curv[ed][:2], [x, y], atol=1e-9), "element %s edge %s: %r %s, expected a midpoint at %s", e, ed, b.ccurv[ed], b.curv[ed], (x, y))
            else:
                need(b.ccurv[ed] == "" and np.array_equal(a.curv[ed], b.curv[ed]), "element %s edge %s should stay straight", e, ed)
        need(b.ccurv[4:] == a.ccurv[4:], "other edges")


# ------------------------------------------------------------------ C18
def gen_C18(rng, tier):
    for i in range(40 if tier == "quick" else 400):
        nd = 2 + i % 2
        yield dict(seed=int(rng.integers(2**31)), ndim=nd, nel=int(rng.choice([1, 1, 2, 3, 7])), orders=[int(k) for k in rng.integers(2, 5, 2)] + [1 if nd == 2 else int(rng.integers(2, 5))], var=[nd, nd * int(rng.integers(0, 2)), int(rng.integers(0, 2)), int(rng.integers(0, 2)), int(rng.choice([0, 1, 3]))], dtype=str(rng.choice(["float64", "float32"])))


def run_C18(c):
    rng = rng_of(c)
    m = U.random_field(rng, c["ndim"], c["nel"], c["orders"], c["var"], dtype=c["dtype"])
    sh = rng.standard_normal() * 1e3
    for el in m.elem:
        el.pos[...] += sh
        el.vel[...] -= sh
    L = m.lims
    for n in ("pos", "vel", "pres", "temp", "scal"):
        k = getattr(m.elem[0], n).shape[0]
        got = getattr(L, n)
        want = tuple((min(float(getattr(el, n)[j].min()) for el in m.elem), max(float(getattr(el, n)[j].max()) for el in m.elem)) for j in range(k))
        need(tuple(tuple(x) for x in got) == want, "limits of %s: %s, expected %s", n, got, want)
        try:
            setattr(L, n, 0)
        except AttributeError:
            continue
        need(False, "limits can be modified")
    P = m.get_points()
    np_ = c["orders"][0] * c["orders"][1] * c["orders"][2]
    need(P.shape == (c["nel"], np_, 3), "points have shape %s", P.shape)
    for e, el in enumerate(m.elem):
        for d in range(3):
            need(np.array_equal(P[e, :, d], el.pos[d].ravel()), "points of element %s", e)
    repr(m)


# ------------------------------------------------------------------ C19
def gen_C19(rng, tier):
    for i in range(120 if tier == "quick" else 1500):
        yield dict(seed=int(rng.integers(2**31)), nd=2 + i % 2, thin=bool(i % 3 == 0), n=[2, 2, 3, 5][i % 4])


def run_C19(c):
    from pymech import meshtools as mt

    rng = rng_of(c)
    nd = c["nd"]
    core = U.core()
    n = c["n"]
    el = core.Elem([nd, 0, 0, 0, 0], [n, n, n if nd == 3 else 1], 1)
    el.pos[:nd] = rng.standard_normal(el.pos[:nd].shape)
    if c["thin"] and n == 2:
        # box-like with one short direction
        s = rng.permutation(3)[:3]
        for iz in range(el.pos.shape[1]):
            for iy in range(2):
                for ix in range(2):
                    v = np.array([ix, iy, iz], float) * np.array([1.0, 10.0**-float(s[0]), 10.0**-float(s[1])]) * (1 + 0.1 * rng.random(3))
                    el.pos[:nd, iz, iy, ix] = v[:nd]
    for f in range(6 if nd == 3 else 4):
        got = np.array(el.face_center(f), float)
        want = fcenter(el, f)
        need(np.allclose(got, want, rtol=1e-12, atol=1e-13), "centre of face %s: %s, expected %s", f, got, want)
    need(np.allclose(el.centroid, el.pos.reshape(3, -1).mean(axis=1), rtol=1e-12, atol=1e-12), "centroid")
    need(math.isclose(float(el.smallest_edge()), shortest(el), rel_tol=1e-12), "shortest edge %s, expected %s", el.smallest_edge(), shortest(el))
    for ed in range(12 if nd == 3 else 4):
        p, q = U.ends(el, ed)
        for t in ("", "m", "C", "s"):
            el.ccurv[ed] = t
            el.curv[ed] = rng.standard_normal(5)
            if t == "C":
                L = float(np.linalg.norm((q - p)[:2]))
                if L < 1e-9:
                    continue
                el.curv[ed][0] = L * float(rng.choice([-1.0, 1.0])) * (0.51 + float(rng.random()))
            k = el.curv.copy()
            got = np.array(mt.edge_mid(el, ed), float)
            need(np.array_equal(k, el.curv), "edge_mid changed the curvature")
            want = mid_ref(el, ed)
            need(got.shape == (3,) and np.allclose(got, want, rtol=1e-9, atol=1e-11), "midpoint of edge %s with curvature %r: %s, expected %s", ed, t, got, want)
        # radius and centre of the circle through three points
        if ed < 8 and nd == 2 or (nd == 3 and c["thin"] and ed < 8):
            mid = (p + q) / 2 + 0.3 * float(rng.choice([-1, 1])) * np.array([q[1] - p[1], p[0] - q[0], 0.0])
            cv = np.array(mt.edge_circle(el, ed, mid.copy()), float)
            if nd == 2:
                need(all(math.isclose(float(np.linalg.norm(w - cv[1:4])), abs(cv[0]), rel_tol=1e-6) for w in (p, q, mid)), "circle of edge %s: %s", ed, cv)
                el.ccurv[ed], el.curv[ed][0] = "C", cv[0]
                need(np.allclose(mid_ref(el, ed), mid, rtol=1e-6, atol=1e-9), "sign of the radius of edge %s", ed)


# ------------------------------------------------------------------ C20
OPS = ["box", "circle", "merge", "keep", "rotate", "map", "extrude", "delint", "genint", "rea", "re2", "nek", "ext_nobc", "field"]


def gen_C20(rng, tier):
    for i in range(40 if tier == "quick" else 400):
        yield dict(seed=int(rng.integers(2**31)), n=int(rng.integers(1, 6)), start=["box", "circle", "grid", "grid3"][i % 4])


def run_C20(c):
    from pymech import meshtools as mt
    from pymech.neksuite import mesh as nm
    from pymech.neksuite import readnek, writenek

    rng = rng_of(c)
    if c["start"] == "box":
        m = mt.gen_box(2, int(rng.integers(1, 4)), 0.0, 1.0, 0.0, 1.0, bcs_xmin=["v"], bcs_xmax=["O"])
    elif c["start"] == "circle":
        m = mt.gen_circle(1.0, 0.4, int(rng.integers(1, 3)), int(rng.integers(1, 3)))
    elif c["start"] == "grid":
        m = U.grid2d(rng, 2, 3, 2, shuffle=True, turn=True, curve=0.5)
        m.elmap = (rng.permutation(m.nel) + 1).astype(np.int32)
    else:
        m = U.grid3d(rng, 2, 2, 2, 1, shuffle=True)
        m.elmap = (rng.permutation(m.nel) + 1).astype(np.int32)
    wellformed(m, c["start"])
    done = [c["start"]]
    for _ in range(c["n"]):
        two = m.ndim == 2
        mesh_like = list(m.lr1) == [2, 2, m.ndim - 1] and m.var[0] == m.ndim
        op = str(rng.choice(OPS[2:]))
        with Tmp() as f:
            if op == "merge":
                if list(m.lr1)[0] != 2:
                    continue
                o = U.grid2d(rng, 2, 2, m.nbc, x0=1.0, curve=0.4) if two else U.grid3d(rng, 2, 2, 2, m.nbc)
                if not two:
                    for el in o.elem:
                        el.pos[0] += 1.0
                if m.nbc == 0:
                    continue
                m.merge(o)
            elif op == "keep":
                k = int(rng.integers(1, m.nel + 1))
                mt.keep_elements(m, [int(v) for v in rng.permutation(m.nel)[:k]], external_bc="W")
            elif op == "rotate":
                mt.rotate_2d(m, 0.3, -0.2, 0.7)
            elif op == "map" and two and list(m.lr1) == [2, 2, 1]:
                m = mt.map2D(m, lambda x, y: (x + 0.1 * y, y), curvature=bool(rng.integers(0, 2)))
            elif op == "extrude" and two and m.lr1 == [2, 2, 1]:
                m = mt.extrude(m, [0.0, 0.5, 1.0, 2.0])
            elif op == "ext_nobc" and two and m.lr1 == [2, 2, 1]:
                m = mt.extrude(m, [0.0, 0.5], ["W"] * m.nbc, ["v"] * m.nbc, internal_bcs=False)
            elif op == "delint":
                mt.delete_internal_bcs(m)
            elif op == "genint" and m.nbc:
                mt.generate_internal_bcs(m)
            elif op == "rea" and mesh_like:
                nm.writerea(f(), m)
                m = nm.readrea(f())
            elif op == "re2" and mesh_like and m.nbc and m.lr1 == [2, 2, m.ndim - 1]:
                nm.writere2(f(), m)
                m = nm.readre2(f())
            elif op == "nek":
                if m.var[0] != m.ndim:
                    continue
                writenek(f("a0.f00001"), m)
                r = readnek(f("a0.f00001"))
                need(r.nel == m.nel and all(np.array_equal(x.pos[: m.ndim], y.pos[: m.ndim]) for x, y in zip(m.elem, r.elem)), "field file after %s differs", done)
                wellformed(r, "read back")
            elif op == "field":
                continue
            else:
                continue
        done.append(op)
        wellformed(m, "after " + " ".join(done))
    # the result can be saved and read back as the same mesh
    with Tmp() as f:
        writenek(f("a0.f00001"), m)
        r = readnek(f("a0.f00001"))
        need([int(x) for x in r.elmap] == [int(x) for x in m.elmap], "%s: element order lost", done)
        if m.lr1 == [2, 2, m.ndim - 1] and m.var[0] == m.ndim:
            nm.writerea(f("r"), m)
            q = nm.readrea(f("r"))
            need((q.nel, q.nbc, q.ncurv) == (m.nel, m.nbc, m.ncurv), "%s: rea metadata %s", done, (q.nel, q.nbc, q.ncurv))
            for e, (a, b) in enumerate(zip(m.elem, q.elem)):
                need(np.allclose(a.pos[: m.ndim], b.pos[: m.ndim], rtol=1e-5, atol=1e-9) and list(a.ccurv) == list(b.ccurv), "%s: rea element %s", done, e)
            if m.nbc:
                nm.writere2(f("2"), m)
                q = nm.readre2(f("2"))
                need((q.nel, q.nbc, q.ncurv) == (m.nel, m.nbc, m.ncurv), "%s: re2 metadata %s", done, (q.nel, q.nbc, q.ncurv))
                for e, (a, b) in enumerate(zip(m.elem, q.elem)):
                    need(np.array_equal(a.pos[: m.ndim], b.pos[: m.ndim]) and list(a.ccurv) == list(b.ccurv), "%s: re2 element %s", done, e)


# ------------------------------------------------------------------ C24
def tet(a, b, c, d):
    return float(np.dot(b - a, np.cross(c - a, d - a))) / 6


# the 24-tetrahedron volume of a hexahedron with bilinear faces (exact for them)
def hexvol(el):
    P = {(z, y, x): el.pos[:, z, y, x].astype(float) for z in (0, 1) for y in (0, 1) for x in (0, 1)}
    faces = [[(0, 0, 0), (0, 1, 0), (0, 1, 1), (0, 0, 1)], [(1, 0, 0), (1, 0, 1), (1, 1, 1), (1, 1, 0)],
             [(0, 0, 0), (0, 0, 1), (1, 0, 1), (1, 0, 0)], [(0, 1, 0), (1, 1, 0), (1, 1, 1), (0, 1, 1)],
             [(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0)], [(0, 0, 1), (0, 1, 1), (1, 1, 1), (1, 0, 1)]]
    o = np.zeros(3)
    v = 0.0
    for f in faces:
        p = [P[k] for k in f]
        # mean of both triangulations = bilinear face
        v += 0.5 * (tet(o, p[0], p[1], p[2]) + tet(o, p[0], p[2], p[3]) + tet(o, p[1], p[2], p[3]) + tet(o, p[1], p[3], p[0]))
    return v


def gen_C24(rng, tier):
    for i in range(24 if tier == "quick" else 120):
        ns = [1, 1, 2, 1, 2, 1][i % 6] if tier == "quick" else [1, 1, 2, 3][i % 4]
        ih = int(rng.integers(0, ns + 1))
        yield dict(seed=int(rng.integers(2**31)), nsplit=ns, ih=ih, nz=2 ** (ns + 2) * int(rng.choice([1, 1, 2])), nx=int(rng.integers(1, 3)), nbc=int(rng.choice([1, 2])), internal=bool(i % 4 != 3), per=bool(rng.integers(0, 2)), px=bool(rng.integers(0, 2)), swap=bool(rng.integers(0, 2)), nop=bool(i % 5 == 1), curve=["", "ends", "m", "mC", "", "mC"][int(rng.integers(0, 6))], pc=float(rng.choice([0.3, 1])), turn=bool(rng.integers(0, 2)),
                   rows=[int(k) for k in rng.choice([1, 1, 2], ns + 1)], z0=float(rng.choice([0, 0.3, -1])), even=bool(i % 3 == 0), par=float(rng.choice([0, 0.1, -0.2])))
    for k in ("none", "empty"):
        for it in (True, False):
            yield dict(kind=k, internal=it)
    for nz in (3, 5, 6, 7):
        yield dict(kind="bad", nz=nz)


def curve_edges(m, rng, kinds, share):
    """curves edges of a 2D mesh, the two sides of an edge alike"""
    seen = {}
    for el in m.elem:
        for ed in range(4):
            a, b = U.ends(el, ed)
            key = tuple(np.round((a + b) / 2, 6) + 0.0)
            if key not in seen:
                seen[key] = (str(rng.choice(list(kinds))) if rng.random() < share else "", float(rng.uniform(1.2, 3) * rng.choice([-1, 1])), a)
            t, q, a0 = seen[key]
            sg = 1.0 if np.allclose(a0, a) else -1.0
            el.ccurv[ed] = t
            if t == "C":
                el.curv[ed][0] = sg * q
            elif t == "m":
                el.curv[ed][:3] = (a + b) / 2 + 0.05 * q * sg * np.array([a[1] - b[1], b[0] - a[0], 0.0])
    m.update_ncurv()


def run_C24(c):
    from pymech.meshtools import extrude, extrude_refine

    if c.get("kind") in ("none", "empty"):
        m = U.grid2d(np.random.default_rng(3), 2, 2, 2, curve=0.3)
        z = [0.0, 0.2, 0.5, 1.0]
        f = None if c["kind"] == "none" else []
        a = extrude(m, z, ["W", "v"], ["O", "t"], internal_bcs=c["internal"])
        b = extrude_refine(m, z, ["W", "v"], ["O", "t"], fun=f, internal_bcs=c["internal"])
        U.same(U.snap(a), U.snap(b), "plain extrusion")
        return
    if c.get("kind") == "bad":
        m = U.grid2d(np.random.default_rng(3), 1, 3, 1)
        try:
            extrude_refine(m, np.linspace(0, 1, c["nz"] + 1), fun=[lambda x, y, p: y - 0.5], funpar=[0.0])
        except ValueError:
            return
        need(False, "%s layers are accepted for one splitting", c["nz"])
    rng = rng_of(c)
    ns, nz = c["nsplit"], c["nz"]
    mids = [sum(c["rows"][: k + 1]) + k for k in range(ns)]  # rows of elements that are split
    ny = sum(c["rows"]) + ns
    m = U.grid2d(rng, c["nx"], ny, c["nbc"], px=c["px"], shuffle=c["turn"], turn=c["turn"], lx=1.0 * c["nx"], ly=1.0 * ny)
    if c["swap"]:
        for el in m.elem:
            el.pos[0], el.pos[1] = el.pos[1].copy(), -el.pos[0].copy()
    if c["curve"] == "ends":
        for el in m.elem:
            for ed in range(4):
                p, q = U.ends(el, ed)
                k = 0 if c["swap"] else 1
                if abs(p[k] - q[k]) < 1e-9 and (abs(p[k]) < 1e-9 or abs(p[k] - ny) < 1e-9) and rng.random() < c["pc"]:
                    el.ccurv[ed] = "m"
                    el.curv[ed][:3] = (p + q) / 2 + 0.02
        m.update_ncurv()
    elif c["curve"]:
        curve_edges(m, rng, c["curve"], c["pc"])
    yy = (lambda x, y: y) if not c["swap"] else (lambda x, y: x)
    par = 0.0 if c["nop"] else c["par"]
    fun = [(lambda x, y, p, k=k: yy(x, y) - (mids[k] + 0.5) - p) for k in range(ns)]
    z = c["z0"] + np.linspace(0, 1, nz + 1)
    if not c["even"]:
        z[1:-1] = np.sort(rng.uniform(z[0], z[-1], nz - 1))
    ends = [["P"] * c["nbc"]] * 2 if c["per"] else [["W"] * c["nbc"], ["v"] * c["nbc"]]
    s = U.snap(m)
    more = {} if c["ih"] == 0 and c["even"] else {"imesh_high": c["ih"]}
    r = extrude_refine(m, z, *ends, fun=fun, funpar=None if c["nop"] else [par] * ns, internal_bcs=c["internal"], **more)
    U.same(s, U.snap(m), "the 2D mesh")
    wellformed(r, "refined extrusion")
    need(r.ndim == 3 and list(r.lr1) == [2, 2, 2] and r.nbc == c["nbc"], "metadata")
    # outer edges of the 2D mesh, each with its ends and midpoint
    count = {}
    for el in m.elem:
        for ed in range(4):
            p, q = U.ends(el, ed)
            count.setdefault(tuple(np.round((p + q) / 2, 6) + 0.0), []).append([p[:2], q[:2], mid_ref(el, ed)[:2]])
    outer = [v[0] for v in count.values() if len(v) == 1]
    bulges = any(not np.allclose((p + q) / 2, x) for p, q, x in outer if abs(yy(*p) - yy(*q)) > 0.5)
    vol = 0.0
    for e, el in enumerate(r.elem):
        v = hexvol(el)
        need(v > 0, "element %s is degenerate or inverted", e)
        vol += v
    need(bulges or math.isclose(vol, c["nx"] * ny * (z[-1] - z[0]), rel_tol=1e-9), "volume %s, expected %s", vol, c["nx"] * ny * (z[-1] - z[0]))
    bnd = lambda el, f: on_boundary(el, f, outer, z)
    if c["internal"]:
        er = connect_errors(r)
        need(not er, "%s errors: %s", len(er), er[:3])
        r.check_connectivity()
        r.check_bcs_present()
        # conformity: every face is internal (matched), periodic or on the boundary of the prism
        for e, el in enumerate(r.elem):
            for f in range(6):
                t = el.bcs[0, f][0]
                if t not in ("E", "P"):
                    need(bnd(el, f), "element %s face %s is inside but has condition %r", e, f, t)
    else:
        need(not any(el.bcs[ib, f][0] in ("E", "con") for el in r.elem for ib in range(c["nbc"]) for f in range(6)), "internal conditions remain")
    # corner sets of coinciding faces are identical (no hanging nodes)
    cen = {}
    for e, el in enumerate(r.elem):
        for f in range(6):
            k = tuple(np.round(fcenter(el, f), 6) + 0.0)
            cs = sorted(tuple(np.round(el.pos[(slice(None),) + q], 6) + 0.0) for q in U.FACE[f])
            cen.setdefault(k, []).append((e, f, cs))
    for k, v in cen.items():
        need(len(v) <= 2, "more than two faces at %s", k)
        if len(v) == 2:
            need(v[0][2] == v[1][2], "faces %s and %s coincide but their corners differ", v[0][:2], v[1][:2])
        else:
            e, f, _ = v[0]
            need(bnd(r.elem[e], f), "element %s face %s has no neighbour", e, f)
    # the elements that share an edge give it the same curve; outer edges keep theirs
    shape = {}
    for e, el in enumerate(r.elem):
        for ed in range(12):
            p, q = U.ends(el, ed)
            k = tuple(np.round((p + q) / 2, 6) + 0.0)
            x = mid_ref(el, ed)
            if k in shape:
                need(np.allclose(x, shape[k][0], atol=1e-6), "edge %s of element %s and edge %s of element %s coincide but their midpoints %s and %s differ", ed, e, *shape[k][1:], x, shape[k][0])
            shape.setdefault(k, (x, ed, e))
    flat = {}
    for k, (x, ed, e) in shape.items():
        flat.setdefault(tuple(np.round(np.array(k[:2]), 5) + 0.0), []).append((k[2], x, ed, e))
    for p, q, x in outer:
        k = tuple(np.round((p + q) / 2, 5) + 0.0)
        for zz, y, ed, e in flat.get(k, []):
            if ed < 8:
                need(np.allclose(y[:2], x, atol=1e-6), "edge %s of element %s: midpoint %s, that of the 2D edge is %s", ed, e, y[:2], x)
    # layers: all of them where the refinement is highest, half as many across each splitting line
    for el in m.elem:
        ctr = el.pos[:2, 0].mean(axis=(1, 2))
        row = int(math.floor(yy(*ctr)))
        k = sum(row > x for x in mids)
        hit = sum(np.all(np.abs(q.pos[:2].mean(axis=(1, 2, 3)) - ctr) < 0.5) for q in r.elem)
        if row in mids:
            k = mids.index(row)
            n = nz * 3 // 2 // 2 ** min(abs(k - c["ih"]), abs(k + 1 - c["ih"]))
        else:
            n = nz // 2 ** abs(k - c["ih"])
        need(hit == n, "%s elements above the 2D element at %s, expected %s", hit, ctr, n)


def on_boundary(el, f, outer, z):
    p = np.array([el.pos[(slice(None),) + q] for q in U.FACE[f]], float)
    tol = 1e-9
    if any(np.all(abs(p[:, 2] - v) < tol) for v in (z[0], z[-1])):
        return True
    return any(all(any(np.all(abs(c[:2] - v) < tol) for v in pts) for c in p) for pts in outer)


# ------------------------------------------------------------------ C25
def gen_C25(rng, tier):
    # default spacing with several layers: the first layer, as thick as an element of the square, has to be thinner than the annulus
    # (otherwise no geometric progression exists and the statement does not apply)
    for i in range(20 if tier == "quick" else 150):
        fn = i % 3
        ns, no = int(rng.integers(1, 5)), int(rng.integers(1, 5))
        s = float(0.1 + 0.8 * rng.random())
        if fn == 0 and no > 1:
            edge = 1 / (math.sqrt(2) * (1 / ns + 0.5))
            if i % 4 == 3 and edge < 0.9:
                s = 1.05 * edge  # no default spacing: refused
            else:
                s = min(s, 0.95 * edge)
        yield dict(r=float(0.2 + 3 * rng.random()), s=s, ns=ns, no=no, fn=fn, bc=[str(rng.choice(["W", "v", "O"])) for _ in range(1 + i % 2)], internal=bool(i % 5 != 4))


def run_C25(c):
    from pymech.meshtools import gen_circle

    kw = {}
    if c["fn"] == 1:
        kw = dict(curvature_fun=lambda x: x * x, bl_fun=lambda x: x)
    elif c["fn"] == 2:
        kw = dict(curvature_fun=lambda x: x, bl_fun=lambda x: 0.5 * x + 0.5 * x * x)
    r, ns, no, nb = c["r"], c["ns"], c["no"], len(c["bc"])
    if c["fn"] == 0 and no > 1 and c["s"] * math.sqrt(2) * (1 / ns + 0.5) >= 1:
        try:
            gen_circle(r, c["s"], ns, no, bc=list(c["bc"]), internal_bcs=c["internal"])
        except ValueError:
            return
        need(False, "no default spacing exists, but a mesh is returned")
    m = gen_circle(r, c["s"], ns, no, bc=list(c["bc"]), internal_bcs=c["internal"], **kw)
    wellformed(m, "disc")
    need(m.nel == ns * ns + 4 * ns * no and m.ndim == 2 and m.nbc == nb, "nel %s", m.nel)
    need(m.ncurv == 4 * ns, "ncurv %s", m.ncurv)
    half = c["s"] * r * math.sqrt(2) / 2
    area = 0.0
    nout = 0
    for e, el in enumerate(m.elem):
        x, y = el.pos[0, 0], el.pos[1, 0]
        q = [(x[0, 0], y[0, 0]), (x[0, 1], y[0, 1]), (x[1, 1], y[1, 1]), (x[1, 0], y[1, 0])]
        for k in range(4):
            (ax, ay), (bx, by), (cx, cy) = q[k - 1], q[k], q[(k + 1) % 4]
            need((bx - ax) * (cy - by) - (by - ay) * (cx - bx) > -1e-9, "element %s is not right-handed", e)
        area += 0.5 * sum(q[k - 1][0] * q[k][1] - q[k][0] * q[k - 1][1] for k in range(4))
        need((el.pos[2] == 0).all(), "z")
        for f in range(4):
            p, w = U.ends(el, f)
            t = el.ccurv[f]
            outer = abs(np.linalg.norm(p[:2]) - r) < 1e-9 * r and abs(np.linalg.norm(w[:2]) - r) < 1e-9 * r
            if t != "":
                need(t == "C" and outer and el.curv[f][0] == r and not el.curv[f][1:].any(), "element %s edge %s: %r %s", e, f, t, el.curv[f])
                nout += 1
            for ib in range(nb):
                b = el.bcs[ib, f][0]
                if t != "":
                    need(b == c["bc"][ib], "outer face of element %s: %r, expected %r", e, b, c["bc"][ib])
                elif c["internal"]:
                    need(b == "E", "inner face %s of element %s has condition %r", f, e, b)
                    # faces inside a block name their own element and face; those joined afterwards may leave them out
                    own, there = (int(x) for x in (el.bcs[ib, f][1], el.bcs[ib, f][2])), int(el.bcs[ib, f][3]) - 1
                    own = tuple(own)
                    part = lambda k: -1 if k < ns * ns else (k - ns * ns) // (ns * no)
                    need(own == (e + 1, f + 1) or (own == (0, 0) and part(e) != part(there)), "inner face %s of element %s is listed as face %s of element %s", f, e, own[1], own[0])
    need(nout == 4 * ns, "%s outer edges", nout)
    n = 4 * ns
    need(math.isclose(area, 0.5 * n * r * r * math.sin(2 * math.pi / n), rel_tol=1e-8), "area %s is not that of the inscribed polygon", area)
    # central square
    for i in range(ns):
        for j in range(ns):
            el = m.elem[i + ns * j]
            X = [2 * half * (i / ns - 0.5), 2 * half * ((i + 1) / ns - 0.5)]
            Y = [2 * half * (j / ns - 0.5), 2 * half * ((j + 1) / ns - 0.5)]
            need(np.allclose(el.pos[0, 0], [X, X], atol=1e-12) and np.allclose(el.pos[1, 0], [[Y[0]] * 2, [Y[1]] * 2], atol=1e-12), "square element (%s,%s)", i, j)
    er = connect_errors(m)
    need(not er, "%s", er[:2])
    if c["internal"]:
        m.check_connectivity()
        m.check_bcs_present()
