"""C17: map2D applies the transformation to every vertex and curves exactly the requested edges."""
from api import *
from npmodel import sum_term
import C19

ASSUMPTIONS = C19.ASSUMPTIONS + [
    "the transformation is an uninterpreted total function of two reals (a pure function)",
    "edge_mid is verified against its own contract (C19, repeated here for the four edges of a 2D element); map2D's obligations use edge_mid's value on the original element",
]


def prove(col):
    for c in (True, False):
        for b in (True, False):
            col.case(f"curvature={c}, boundary_curvature={b}", lambda E, c=c, b=b: mapped(E, c, b))
    for k in range(4):
        for t in ("", "m", "C", "s"):
            col.case(f"edge_mid, edge {k + 1}, type '{t}'", lambda E, k=k, t=t: C19.midpoint(E, k, t))


def sound_edges(E, m):
    """precondition: every curved edge of the mesh is of a supported type with consistent parameters"""
    st0 = E.st
    e = z3.Int(E.name + "pre!e")
    for k in range(4):
        t = lambda s: to_z(cmp("==", E.cell(st0, m, e, "ccurv", k), s))
        a, b = ([E.cell(st0, m, e, "pos", d, *c) for d in range(3)] for c in C19.EDGES[k])
        cv = [E.cell(st0, m, e, "curv", k, i) for i in range(5)]
        dx, dy = b[0] - a[0], b[1] - a[1]
        L2 = dx * dx + dy * dy
        ds = [(b[d] + a[d]) / 2 - cv[d] for d in range(3)]
        E.assume(z3.ForAll([e], z3.And(
            z3.Or(t(""), t("m"), t("C"), t("s")),
            z3.Implies(t("C"), z3.And(L2 > 0, cv[0] != 0, 4 * cv[0] * cv[0] >= L2)),
            z3.Implies(t("s"), ds[0] * ds[0] + ds[1] * ds[1] + ds[2] * ds[2] > 0)), patterns=[E.cell(st0, m, e, "ccurv", k).t]))


def mapped(E, curvature, boundary):
    nel, nbc = E.int("nel"), E.int("nbc")
    var = [E.int(f"var{i}") for i in range(5)]
    E.assume(nel >= 1, nbc >= 0, *[v >= 0 for v in var])
    m = E.mesh("m", 2, nel, [2, 2, 1], var, nbc)
    st0 = E.st
    sound_edges(E, m)
    T = UFun("T", 2, 2)
    r = E.call("pymech.meshtools", "map2D", m, T, curvature=curvature, boundary_curvature=boundary)
    E.never_raises("map", r)
    st, w = r.st, r.value
    E.prove("a new mesh", w.oid != m.oid, st)
    el = E.fresh_int("e", nel)
    for y in (0, 1):
        for x in (0, 1):
            X = [E.cell(st0, m, el, "pos", d, 0, y, x) for d in range(3)]
            Y = T.apply(X[:2])
            for d in range(3):
                E.eq(f"{'xyz'[d]} of vertex ({x},{y})", E.cell(st, w, el, "pos", d, 0, y, x), Y[d] if d < 2 else X[2], st)
    elr = ElemRef(st0.heap[E.attr(st0, m, "elem").oid].rid, el)
    total = 0
    e2 = z3.Int("e!sum")
    cnt = 0
    for k in range(12):
        t = E.cell(st0, m, el, "ccurv", k)
        cond = z3.BoolVal(False)
        if k < 4:
            bt = E.cell(st0, m, el, "bcs", 0, k, 0)
            cond = z3.Or(z3.BoolVal(curvature), z3.Not(to_z(cmp("==", t, ""))), z3.And(z3.BoolVal(boundary), nbc > 0, z3.Not(to_z(cmp("==", bt, ""))), z3.Not(to_z(cmp("==", bt, "E")))))
            mid = E.call("pymech.meshtools", "edge_mid", elr, k)
            M = T.apply([E.arr(mid.st, mid.value, d) for d in range(2)])
            s2 = st.fork()
            s2.pc = s2.pc + mid.st.pc
            E.eq(f"edge {k + 1}: x of the midpoint", E.cell(st, w, el, "curv", k, 0), M[0], s2, [cond])
            E.eq(f"edge {k + 1}: y of the midpoint", E.cell(st, w, el, "curv", k, 1), M[1], s2, [cond])
            E.eq(f"edge {k + 1}: midpoint type", E.cell(st, w, el, "ccurv", k), "m", st, [cond])
        E.eq(f"edge {k + 1}: type of any other edge", E.cell(st, w, el, "ccurv", k), t, st, [z3.Not(cond)])
        for i in range(5):
            E.eq(f"edge {k + 1}: parameter {i} of any other edge", E.cell(st, w, el, "curv", k, i), E.cell(st0, m, el, "curv", k, i), st, [z3.Not(cond)])
        cnt = add(cnt, ite(lnot(cmp("==", E.cell(st, w, e2, "ccurv", k), "")), 1, 0))
    E.eq("count of curved sides", E.attr(st, w, "ncurv"), sum_term(cnt, e2, nel), st)
    E.frame("all else is copied", m, st0, w, st, fields=["vel", "pres", "temp", "scal", "bcs"], attrs=("ndim", "nel", "nbc", "time", "istep", "wdsz", "endian", "var", "lr1", "elmap"))
    E.frame("the original is untouched", m, st0, m, st)
