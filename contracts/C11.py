"""C11: gen_box tiles its rectangle and is correctly connected (all sizes, fields and side conditions)."""
from api import *

ASSUMPTIONS = ["floating point arithmetic is treated as real arithmetic", "the side condition lists hold at least one entry per field (statement's precondition)"]


def prove(col):
    for internal in (True, False):
        col.case(f"internal_bcs={internal}", lambda E, internal=internal: box(E, internal, False))
    col.case("default sides", lambda E: box(E, True, True))


def box(E, internal, default):
    nx, ny = E.int("nx"), E.int("ny")
    xmin, xmax, ymin, ymax = (E.real(n) for n in ("xmin", "xmax", "ymin", "ymax"))
    var = [E.int(f"var{i}") for i in range(5)]
    E.assume(nx >= 1, ny >= 1)
    for v in var:
        E.assume(v >= 0)
    nbc = z3.If(var[1] > 0, 1, 0) + z3.If(var[3] > 0, 1, 0) + var[4]
    kw, side = {}, {}
    for s in ("xmin", "xmax", "ymin", "ymax"):
        if default:
            side[s] = lambda b: "P"
            continue
        F = z3.Function(E.name + "bc_" + s, I, I)
        ln = E.int("len_" + s)
        kw["bcs_" + s] = E.slist(ln, lambda i, F=F: Str(F(to_z(i))))
        side[s] = lambda b, F=F: Str(F(to_z(b)))
        E.assume(ln >= nbc)
    r = E.call("pymech.meshtools", "gen_box", nx, ny, xmin, xmax, ymin, ymax, var=E.list(var), internal_bcs=internal, **kw)
    E.raises_iff("box", r, z3.Or(xmax <= xmin, ymax <= ymin))
    st, m = r.st, r.value
    E.eq("number of elements", E.attr(st, m, "nel"), nx * ny, st)
    E.eq("length of the element list", E.nelem(st, m), nx * ny, st)
    E.eq("two-dimensional", E.attr(st, m, "ndim"), 2, st)
    E.eq("one field per velocity, temperature and scalar", E.attr(st, m, "nbc"), nbc, st)
    E.eq("no curved side", E.attr(st, m, "ncurv"), 0, st)
    i, j, b = E.fresh_int("i", nx), E.fresh_int("j", ny), E.fresh_int("ibc")
    hyp = [b >= 0, b < nbc]
    e = i + nx * j
    em = E.attr(st, m, "elmap")
    E.eq("element order", E.arr(st, em, e), e + 1, st)
    sh = E.fieldshape(st, m, e, "pos")
    for d, (a, x) in enumerate(zip(sh, (3, 1, 2, 2))):
        E.eq(f"shape of pos, axis {d}", a, x, st)
    sh = E.fieldshape(st, m, e, "bcs")
    E.eq("condition table has one row per field", sh[0], nbc, st)
    lx, ly = xmax - xmin, ymax - ymin
    R_ = z3.ToReal
    for y in (0, 1):
        for x in (0, 1):
            E.eq(f"x of corner ({x},{y})", E.cell(st, m, e, "pos", 0, 0, y, x), xmin + lx * R_(i + x) / R_(nx), st)
            E.eq(f"y of corner ({x},{y})", E.cell(st, m, e, "pos", 1, 0, y, x), ymin + ly * R_(j + y) / R_(ny), st)
            E.eq(f"z of corner ({x},{y})", E.cell(st, m, e, "pos", 2, 0, y, x), 0, st)
    el = lambda a, c: a + nx * c + 1
    faces = [
        (0, "ymin", j == 0, el(i, j - 1), 3, el(i, ny - 1)),
        (1, "xmax", i == nx - 1, el(i + 1, j), 4, el(0, j)),
        (2, "ymax", j == ny - 1, el(i, j + 1), 1, el(i, 0)),
        (3, "xmin", i == 0, el(i - 1, j), 2, el(nx - 1, j)),
    ]
    bc = lambda f, c: E.cell(st, m, e, "bcs", b, f, c)
    for f, s, outer, nb, nf, opp in faces:
        t = side[s](b)
        n = f"face {f + 1}"
        E.prove(f"{n}: requested condition on the boundary", cmp("==", bc(f, 0), t), st, hyp + [outer])
        E.prove(f"{n}: element number on the boundary", cmp("==", bc(f, 1), e + 1), st, hyp + [outer])
        E.prove(f"{n}: face number on the boundary", cmp("==", bc(f, 2), f + 1), st, hyp + [outer])
        per = cmp("==", t, "P")
        E.prove(f"{n}: periodic partner element", cmp("==", bc(f, 3), opp), st, hyp + [outer, per])
        E.prove(f"{n}: periodic partner face", cmp("==", bc(f, 4), nf), st, hyp + [outer, per])
        if internal:
            E.prove(f"{n}: internal condition inside", cmp("==", bc(f, 0), "E"), st, hyp + [z3.Not(outer)])
            E.prove(f"{n}: element number inside", cmp("==", bc(f, 1), e + 1), st, hyp + [z3.Not(outer)])
            E.prove(f"{n}: face number inside", cmp("==", bc(f, 2), f + 1), st, hyp + [z3.Not(outer)])
            E.prove(f"{n}: neighbour element", cmp("==", bc(f, 3), nb), st, hyp + [z3.Not(outer)])
            E.prove(f"{n}: neighbour face", cmp("==", bc(f, 4), nf), st, hyp + [z3.Not(outer)])
        else:
            E.prove(f"{n}: empty inside", cmp("==", bc(f, 0), ""), st, hyp + [z3.Not(outer)])
    for f in (4, 5):
        E.prove(f"face {f + 1}: empty", cmp("==", bc(f, 0), ""), st, hyp)
