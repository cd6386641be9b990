"""C16: rotate_2d is the rigid rotation about (x0, y0); everything else stays."""
from api import *

ASSUMPTIONS = ["floating point arithmetic is treated as real arithmetic; cos and sin are uninterpreted functions with cos^2 + sin^2 = 1"]


def prove(col):
    col.case("", rot)


def generic_mesh(E, nm="m", dim=None):
    nel = E.int("nel")
    lr1 = [E.int("lx"), E.int("ly"), E.int("lz")]
    var = [E.int(f"var{i}") for i in range(5)]
    nbc = E.int("nbc")
    E.assume(nel >= 1, nbc >= 0, *[x >= 1 for x in lr1], *[v >= 0 for v in var])
    return E.mesh(nm, E.int("ndim"), nel, lr1, var, nbc), nel, lr1


def rot(E):
    m, nel, lr1 = generic_mesh(E)
    x0, y0, th = E.real("x0"), E.real("y0"), E.real("theta")
    r = E.call("pymech.meshtools", "rotate_2d", m, x0, y0, th)
    E.never_raises("rotation", r)
    st0, st = E.st, r.st
    c, s = COS(th), SIN(th)
    e = E.fresh_int("e", nel)
    z, y, x = E.fresh_int("iz", lr1[2]), E.fresh_int("iy", lr1[1]), E.fresh_int("ix", lr1[0])
    X, Y, Z = (E.cell(st0, m, e, "pos", d, z, y, x) for d in range(3))
    E.eq("x of every point", E.cell(st, m, e, "pos", 0, z, y, x), x0 + c * (X - x0) - s * (Y - y0), st)
    E.eq("y of every point", E.cell(st, m, e, "pos", 1, z, y, x), y0 + s * (X - x0) + c * (Y - y0), st)
    E.eq("z of every point", E.cell(st, m, e, "pos", 2, z, y, x), Z, st)
    g = E.fresh_int("edge", 12)
    cx, cy = (E.cell(st0, m, e, "curv", g, k) for k in (0, 1))
    mid = cmp("==", E.cell(st0, m, e, "ccurv", g), "m")
    E.eq("x of every midpoint", E.cell(st, m, e, "curv", g, 0), x0 + c * (cx - x0) - s * (cy - y0), st, [mid])
    E.eq("y of every midpoint", E.cell(st, m, e, "curv", g, 1), y0 + s * (cx - x0) + c * (cy - y0), st, [mid])
    for k in range(5):
        E.eq(f"curvature parameter {k} of an edge that is not a midpoint", E.cell(st, m, e, "curv", g, k), E.cell(st0, m, e, "curv", g, k), st, [lnot(mid)])
        if k > 1:
            E.eq(f"curvature parameter {k} of a midpoint", E.cell(st, m, e, "curv", g, k), E.cell(st0, m, e, "curv", g, k), st, [mid])
    E.frame("nothing else changes", m, st0, m, st, fields=["ccurv", "vel", "pres", "temp", "scal", "bcs"])
