"""C18: limits are the exact extrema; get_points lists every point once, in storage order."""
from api import *
from C16 import generic_mesh

ASSUMPTIONS = ["floating point values are treated as real numbers (no NaN)", "numpy's min/max over axes are the extrema over that box of points"]
KINDS = {"pos": 3, "vel": 3, "pres": 2, "temp": 3, "scal": 4}


def prove(col):
    col.case("limits", lims)
    col.case("limits are read-only", frozen)
    col.case("points", points)


def lims(E):
    m, nel, lr1 = generic_mesh(E)
    st0 = E.st
    L = E.attr(st0, m, "lims")
    E.frame("the mesh is unchanged", m, st0, m, st0)
    e = E.fresh_int("e", nel)
    idx = [E.fresh_int("i" + n, lr1[2 - k]) for k, n in enumerate("zyx")]
    var = st0.heap[E.attr(st0, m, "var").oid].items
    for v, k in KINDS.items():
        lim = E.attr(st0, L, v)
        comps = [0, 1, 2] if v in ("pos", "vel") else [E.fresh_int("c", var[k])]
        E.eq(f"{v}: one entry per component", E.length(st0, lim), 3 if v in ("pos", "vel") else var[k], st0)
        for c in comps:
            lo, hi = E.item(st0, lim, c)
            val = E.cell(st0, m, e, v, c, *idx)
            n = f"{v}[{c if isinstance(c, int) else 'c'}]"
            E.prove(f"{n}: no value below the minimum", lo <= val, st0)
            E.prove(f"{n}: no value above the maximum", hi >= val, st0)
            for nm, x in (("minimum", lo), ("maximum", hi)):
                E.attained(f"{n}: the {nm} is attained", x, lambda e, z, y, x, v=v, c=c: E.cell(st0, m, e, v, c, z, y, x), [nel] + lr1[::-1], st0)


def frozen(E):
    m, nel, lr1 = generic_mesh(E)
    L = E.attr(E.st, m, "lims")
    for v in KINDS:
        E.attr_assignment_raises(f"assigning {v}", E.st, L, v, E.real("new"), ("AttributeError",))


def points(E):
    m, nel, lr1 = generic_mesh(E)
    st0 = E.st
    r = E.call("pymech.core", "HexaData.get_points", m)
    E.never_raises("get_points", r)
    lx, ly, lz = lr1
    for a, d in zip(r.value.shape, (nel, lx * ly * lz, 3)):
        E.eq("shape", a, d, r.st)
    e = E.fresh_int("e", nel)
    z, y, x = [E.fresh_int("i" + n, lr1[2 - k]) for k, n in enumerate("zyx")]
    for d in range(3):
        E.eq("point " + "xyz"[d], E.arr(r.st, r.value, e, x + lx * (y + ly * z), d), E.cell(st0, m, e, "pos", d, z, y, x), r.st)
    E.frame("the mesh is unchanged", m, st0, m, r.st)
