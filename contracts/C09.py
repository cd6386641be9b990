"""C09: extrude: geometry and curvature of every layer."""
from api import *
from npmodel import sum_term

ASSUMPTIONS = ["floating point arithmetic is treated as real arithmetic", "32-bit element numbers do not overflow"]


def prove(col):
    for internal in (True, False):
        for default in (True, False):
            col.case(f"internal_bcs={internal}, {'default' if default else 'given'} ends", lambda E, i=internal, d=default: geometry(E, i, d))
    col.case("refusals", refuse)


def mesh2d(E):
    nel, nbc = E.int("nel"), E.int("nbc")
    var = [E.int(f"var{i}") for i in range(5)]
    E.assume(nel >= 1, nbc >= 0, *[v >= 0 for v in var], var[0] >= 2)
    m = E.mesh("m", 2, nel, [2, 2, 1], var, nbc)
    return m, nel, nbc


def ends(E, nbc, default):
    if default:
        return [], lambda b: "P", lambda b: "P"
    F1, F2 = z3.Function(E.name + "bc1", I, I), z3.Function(E.name + "bc2", I, I)
    a, b = E.slist(nbc, lambda i: Str(F1(to_z(i)))), E.slist(nbc, lambda i: Str(F2(to_z(i))))
    return [a, b], lambda i: Str(F1(to_z(i))), lambda i: Str(F2(to_z(i)))


def consistent(E, nbc, b1, b2):
    """no end is periodic alone (precondition of the normal return)"""
    b = z3.Int(E.name + "pre!b")
    p1, p2 = to_z(cmp("==", b1(b), "P")), to_z(cmp("==", b2(b), "P"))
    return z3.ForAll([b], z3.Implies(z3.And(b >= 0, b < nbc), p1 == p2))


def run(E, internal, default):
    m, nel, nbc = mesh2d(E)
    nz = E.int("nz")
    E.assume(nz >= 1)
    Z = z3.Function(E.name + "z", I, R)
    z = E.array((nz + 1,), "f8", lambda i: Z(to_z(i)))
    args, b1, b2 = ends(E, nbc, default)
    r = E.call("pymech.meshtools", "extrude", m, z, *args, internal_bcs=internal)
    return m, nel, nbc, nz, Z, b1, b2, r


def geometry(E, internal, default):
    m, nel, nbc, nz, Z, b1, b2, r = run(E, internal, default)
    st0, st, w = E.st, r.st, r.value
    E.eq("number of elements", E.attr(st, w, "nel"), nel * nz, st)
    E.eq("length of the element list", E.nelem(st, w), nel * nz, st)
    E.eq("three-dimensional", E.attr(st, w, "ndim"), 3, st)
    E.eq("curved sides double per layer", E.attr(st, w, "ncurv"), 2 * nz * E.attr(st0, m, "ncurv"), st)
    i, k = E.fresh_int("i", nel), E.fresh_int("k", nz)
    e = i + nel * k
    for y in (0, 1):
        for x in (0, 1):
            for z in (0, 1):
                for d in range(2):
                    E.eq(f"{'xy'[d]} of corner ({x},{y},{z})", E.cell(st, w, e, "pos", d, z, y, x), E.cell(st0, m, i, "pos", d, 0, y, x), st)
                E.eq(f"z of corner ({x},{y},{z})", E.cell(st, w, e, "pos", 2, z, y, x), Z(k + z), st)
    for g in range(4):
        t = E.cell(st0, m, i, "ccurv", g)
        mid = cmp("==", t, "m")
        for h, zz in ((g, Z(k)), (g + 4, Z(k + 1))):
            E.eq(f"edge {h + 1}: type of curvature", E.cell(st, w, e, "ccurv", h), t, st)
            for j in range(5):
                want = E.cell(st0, m, i, "curv", g, j)
                got = E.cell(st, w, e, "curv", h, j)
                if j == 2:
                    E.eq(f"edge {h + 1}: z of a midpoint", got, zz, st, [mid])
                    E.eq(f"edge {h + 1}: parameter 2 of another curvature", got, want, st, [lnot(mid)])
                else:
                    E.eq(f"edge {h + 1}: parameter {j}", got, want, st)
    for h in range(8, 12):
        E.eq(f"edge {h + 1}: type of curvature", E.cell(st, w, e, "ccurv", h), E.cell(st0, m, i, "ccurv", h), st)
    E.frame("the 2D mesh is unchanged", m, st0, m, st)


def refuse(E):
    nel, nbc, nz = E.int("nel"), E.int("nbc"), E.int("nz")
    var = [E.int(f"var{i}") for i in range(5)]
    lr1 = [E.int("lx"), E.int("ly"), E.int("lz")]
    ndim = E.int("ndim")
    E.assume(nel >= 1, nbc >= 0, nz >= 1, *[v >= 0 for v in var], *[x >= 1 for x in lr1])
    m = E.mesh("m", ndim, nel, lr1, var, nbc)
    Z = z3.Function(E.name + "z", I, R)
    z = E.array((nz + 1,), "f8", lambda i: Z(to_z(i)))
    args, b1, b2 = ends(E, nbc, False)
    bad = z3.Or(ndim != 2, z3.Not(z3.And(lr1[0] == 2, lr1[1] == 2, lr1[2] == 1)), var[0] < 2, z3.Not(consistent(E, nbc, b1, b2)))
    r = E.call("pymech.meshtools", "extrude", m, z, *args)
    E.raises_iff("extrude", r, bad)
