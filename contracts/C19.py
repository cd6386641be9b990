"""C19: face centres, shortest edge, centroid and edge midpoints of an element of any order."""
import npmodel
from api import *
from C16 import generic_mesh

ASSUMPTIONS = [
    "floating point arithmetic is treated as real arithmetic; sqrt(x) for x >= 0 is the non-negative root",
    "numpy's mean over axes is the mean over that box of points (uninterpreted reduction over the same integrand)",
]
# end points of the twelve edges (iz, iy, ix), 1 standing for the last index
EDGES = [
    ((0, 0, 0), (0, 0, 1)), ((0, 0, 1), (0, 1, 1)), ((0, 1, 1), (0, 1, 0)), ((0, 1, 0), (0, 0, 0)),
    ((1, 0, 0), (1, 0, 1)), ((1, 0, 1), (1, 1, 1)), ((1, 1, 1), (1, 1, 0)), ((1, 1, 0), (1, 0, 0)),
    ((0, 0, 0), (1, 0, 0)), ((0, 0, 1), (1, 0, 1)), ((0, 1, 1), (1, 1, 1)), ((0, 1, 0), (1, 1, 0)),
]
# face -> (axis in (z, y, x), end)
FACES = [(1, 0), (2, 1), (1, 1), (2, 0), (0, 0), (0, 1)]


def setup(E):
    m, nel, lr1 = generic_mesh(E)
    e = E.fresh_int("e", nel)
    lx, ly, lz = lr1
    last = (lz - 1, ly - 1, lx - 1)

    def corner(c, d):
        return E.cell(E.st, m, e, "pos", d, *[(last[a] if c[a] else 0) for a in range(3)])

    return m, e, lr1, corner, ElemRef(E.st.heap[E.attr(E.st, m, "elem").oid].rid, e)


def prove(col):
    for f in range(6):
        col.case(f"face {f + 1}", lambda E, f=f: face(E, f))
    col.case("centroid", centroid)
    for d3 in (False, True):
        col.case("shortest edge in " + ("3D" if d3 else "2D"), lambda E, d3=d3: shortest(E, d3))
    for k in range(12):
        for t in ("", "m", "C", "s"):
            col.case(f"midpoint of edge {k + 1}, type '{t}'", lambda E, k=k, t=t: midpoint(E, k, t))


def face(E, f):
    m, e, lr1, corner, el = setup(E)
    r = E.call("pymech.core", "Elem.face_center", el, f)
    E.never_raises("face centre", r)
    ax, end = FACES[f]
    cs = [c for c in [(a, b, d) for a in (0, 1) for b in (0, 1) for d in (0, 1)] if c[ax] == end]
    for d in range(3):
        E.eq("xyz"[d], mul(4, r.value[d]), corner(cs[0], d) + corner(cs[1], d) + corner(cs[2], d) + corner(cs[3], d), r.st)
    E.frame("nothing changes", m, E.st, m, r.st)


def centroid(E):
    m, e, lr1, corner, el = setup(E)
    c = E.attr(E.st, el, "centroid")
    f = E.st.heap[(el.rid, "pos")].fn
    for d in range(3):
        want = npmodel.reduction(E.I, "mean", lambda z, y, x, d=d: f(e, d, z, y, x), [lr1[2], lr1[1], lr1[0]])
        E.eq("xyz"[d], E.arr(E.st, c, d), want, E.st)


def shortest(E, d3):
    m, e, lr1, corner, el = setup(E)
    E.assume(lr1[2] > 1 if d3 else lr1[2] == 1)
    r = E.call("pymech.core", "Elem.smallest_edge", el)
    E.never_raises("shortest edge", r)
    n = 12 if d3 else 4
    d2 = []
    for a, b in EDGES[:n]:
        s = 0
        for d in range(3):
            x = sub(corner(b, d), corner(a, d))
            s = add(s, mul(x, x))
        d2.append(s)
    v = r.value
    E.prove("not negative", v >= 0, r.st)
    for k, q in enumerate(d2):
        E.prove(f"at most the length of edge {k + 1}", v * v <= q, r.st)
    E.prove("the length of one of the edges", z3.Or([v * v == q for q in d2]), r.st)
    E.frame("nothing changes", m, E.st, m, r.st)


def midpoint(E, k, t):
    m, e, lr1, corner, el = setup(E)
    st0 = E.st
    E.assume(cmp("==", E.cell(st0, m, e, "ccurv", k), t))
    a, b = ([corner(c, d) for d in range(3)] for c in EDGES[k])
    cv = [E.cell(st0, m, e, "curv", k, i) for i in range(5)]
    dx, dy = b[0] - a[0], b[1] - a[1]
    L2 = dx * dx + dy * dy
    if t == "C":  # an arc of that radius exists
        E.assume(L2 > 0, cv[0] != 0, 4 * cv[0] * cv[0] >= L2)
    if t == "s":
        ds = [(b[d] + a[d]) / 2 - cv[d] for d in range(3)]
        E.assume(ds[0] * ds[0] + ds[1] * ds[1] + ds[2] * ds[2] > 0)
    r = E.call("pymech.meshtools", "edge_mid", el, k)
    E.never_raises("midpoint", r)
    M = [E.arr(r.st, r.value, d) for d in range(3)]
    E.prove("three coordinates", len(r.value.shape) == 1 and cmp("==", r.value.shape[0], 3), r.st)
    if t == "":
        for d in range(3):
            E.eq("average " + "xyz"[d], mul(2, M[d]), a[d] + b[d], r.st)
    elif t == "m":
        for d in range(3):
            E.eq("stored " + "xyz"[d], M[d], cv[d], r.st)
    elif t == "s":
        n = SQRT(ds[0] * ds[0] + ds[1] * ds[1] + ds[2] * ds[2])
        for d in range(3):
            E.eq("projection on the sphere " + "xyz"[d], (M[d] - cv[d]) * n, cv[4] * ds[d], r.st)
    else:
        R_, L = cv[0], SQRT(L2)
        ab = z3.If(R_ > 0, R_, -R_)
        s = ab - SQRT(R_ * R_ - L2 / 4)  # sagitta
        sg = z3.If(R_ > 0, z3.RealVal(1), z3.RealVal(-1))
        E.eq("x on the arc", (M[0] - (a[0] + b[0]) / 2) * L, s * sg * dy, r.st)
        E.eq("y on the arc", (M[1] - (a[1] + b[1]) / 2) * L, -s * sg * dx, r.st)
        E.eq("z in the middle", mul(2, M[2]), a[2] + b[2], r.st)
    E.frame("nothing changes", m, st0, m, r.st)
