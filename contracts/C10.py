"""C10: extrude: connections of the layers, the ends and the side faces."""
from api import *
from C09 import *
import C09

ASSUMPTIONS = C09.ASSUMPTIONS + ["precondition: in the 2D mesh, internal and periodic conditions name elements by their (positive) number; with internal conditions switched off, the requested end conditions are not internal ones"]
R_ = z3.ToReal


def prove(col):
    for internal in (True, False):
        for default in (True, False):
            col.case(f"internal_bcs={internal}, {'default' if default else 'given'} ends", lambda E, i=internal, d=default: connections(E, i, d))
    col.case("refusals", C09.refuse)


def connections(E, internal, default):
    m, nel, nbc, nz, Z, b1, b2, r = run(E, internal, default)
    st0, st, w = E.st, r.st, r.value
    E.eq("number of fields", E.attr(st, w, "nbc"), nbc, st)
    i, k, b = E.fresh_int("i", nel), E.fresh_int("k", nz), E.fresh_int("b", nbc)
    e = i + nel * k
    old = lambda e, f, c: E.cell(st0, m, e, "bcs", b, f, c)
    new = lambda e, f, c: E.cell(st, w, e, "bcs", b, f, c)
    eq = lambda n, a, v, hyp=(): E.prove(n, cmp("==", a, v), st, hyp)
    first, last = k == 0, k == nz - 1
    # ends
    for n, f, at, t, partner, pf in (("lower end", 4, first, b1(b), i + (nz - 1) * nel + 1, 6), ("upper end", 5, last, b2(b), i + 1, 5)):
        per = to_z(cmp("==", t, "P"))
        eq(f"{n}: requested condition", new(e, f, 0), t, [at])
        eq(f"{n}: element", new(e, f, 1), e + 1, [at])
        eq(f"{n}: face", new(e, f, 2), f + 1, [at])
        eq(f"{n}: periodic partner element", new(e, f, 3), partner, [at, per])
        eq(f"{n}: periodic partner face", new(e, f, 4), pf, [at, per])
        eq(f"{n}: no partner element otherwise", new(e, f, 3), 0, [at, z3.Not(per)])
        eq(f"{n}: no partner face otherwise", new(e, f, 4), 0, [at, z3.Not(per)])
    # between the layers
    for n, f, inner, partner, pf in (("face to the layer below", 4, z3.Not(first), e - nel + 1, 6), ("face to the layer above", 5, z3.Not(last), e + nel + 1, 5)):
        if internal:
            eq(f"{n}: internal", new(e, f, 0), "E", [inner])
            eq(f"{n}: element", new(e, f, 1), e + 1, [inner])
            eq(f"{n}: face", new(e, f, 2), f + 1, [inner])
            eq(f"{n}: neighbour", new(e, f, 3), partner, [inner])
            eq(f"{n}: face of the neighbour", new(e, f, 4), pf, [inner])
        else:
            E.prove(f"{n}: not internal", lnot(cmp("==", new(e, f, 0), "E")), st, [inner])
    # side faces
    for f in range(4):
        n = f"side face {f + 1}"
        t = old(i, f, 0)
        int_, per = to_z(cmp("==", t, "E")), to_z(cmp("==", t, "P"))
        con = z3.Or(int_, per)
        pos = old(i, f, 3) >= 1
        if internal:
            eq(f"{n}: keeps its condition", new(e, f, 0), t)
            eq(f"{n}: element", new(e, f, 1), e + 1)
            gone = z3.BoolVal(False)
        else:
            eq(f"{n}: keeps its condition", new(e, f, 0), t, [z3.Not(int_)])
            eq(f"{n}: internal condition removed", new(e, f, 0), "", [int_])
            eq(f"{n}: element", new(e, f, 1), old(i, f, 1) + nel * k, [z3.Not(int_), old(i, f, 1) >= 1])
            gone = int_
        eq(f"{n}: face", new(e, f, 2), old(i, f, 2), [z3.Not(gone)])
        eq(f"{n}: connected element of the same layer", new(e, f, 3), old(i, f, 3) + R_(nel * k), [con, pos, z3.Not(gone)])
        eq(f"{n}: connected face", new(e, f, 4), old(i, f, 4), [z3.Not(gone)])
        eq(f"{n}: parameter of another condition", new(e, f, 3), old(i, f, 3), [z3.Not(con)])
        for c in (5, 6, 7):
            eq(f"{n}: parameter {c}", new(e, f, c), old(i, f, c), [z3.Not(gone)])
        # mutual connections stay mutual, and matching faces stay matching
        p, g = E.fresh_int("p", nel), E.fresh_int("g", 4)
        hyp = [con, z3.Not(gone), cmp("==", old(i, f, 3), p + 1), cmp("==", old(i, f, 4), g + 1), cmp("==", old(p, g, 0), t), cmp("==", old(p, g, 3), i + 1), cmp("==", old(p, g, 4), f + 1)]
        q = p + nel * k
        eq(f"{n}: the partner has the same condition", new(q, g, 0), t, hyp)
        eq(f"{n}: leads to the partner", new(e, f, 3), q + 1, hyp)
        eq(f"{n}: the partner points back (element)", new(q, g, 3), e + 1, hyp)
        eq(f"{n}: the partner points back (face)", new(q, g, 4), f + 1, hyp)
    if not internal:
        for f in range(6):
            ends_ok = [z3.Not(to_z(cmp("==", x(b), "E"))) for x in (b1, b2)]
            E.prove(f"face {f + 1}: no internal condition remains", lnot(cmp("==", new(e, f, 0), "E")), st, ends_ok)
    # geometry of the connected faces: the corners of the two faces between layers coincide, side faces project on the 2D ones
    up = E.fresh_int("k1")
    inner = [up >= 0, up < nz - 1]
    lo, hi = i + nel * up, i + nel * (up + 1)
    for y in (0, 1):
        for x in (0, 1):
            for d in range(3):
                eq(f"corner ({x},{y}) between layers, {'xyz'[d]}", E.cell(st, w, lo, "pos", d, 1, y, x), E.cell(st, w, hi, "pos", d, 0, y, x), inner)
            for z in (0, 1):
                for d in range(2):
                    eq(f"corner ({x},{y},{z}) projects on the 2D element, {'xy'[d]}", E.cell(st, w, e, "pos", d, z, y, x), E.cell(st0, m, i, "pos", d, 0, y, x))
                eq(f"corner ({x},{y},{z}) is at the height of the layer", E.cell(st, w, e, "pos", 2, z, y, x), Z(k + z))
    E.frame("the 2D mesh is unchanged", m, st0, m, st)
