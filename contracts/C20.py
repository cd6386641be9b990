"""C20: every operation turns well-formed meshes into well-formed meshes."""
from api import *
from npmodel import sum_term
import C03
import C09
import C11
import C12
import C13
import C14
import C16
import C17
import C19

ASSUMPTIONS = sorted(set(C12.ASSUMPTIONS + C13.ASSUMPTIONS + C14.ASSUMPTIONS + C17.ASSUMPTIONS)) + [
    "well-formed: as many elements as counted, element order = injective map into 1..count of the same length (hence a permutation), "
    "count of curved sides = sum over the elements, one row of conditions per field in every element",
    "preconditions: merged meshes have the same number of fields; a 2D mesh has no curvature on its edges 5-12; the field file holds all elements; "
    "the element order of each argument is a permutation of 1..count",
    "the count of curved sides of merged and extruded meshes follows from the number of curved edges of each element by the lemmas on sums (proved by induction here)",
]
BOUNDED = "generating discs, refining extrusion, reading .re2 and .rea files, and sequences of operations are evaluated on generated meshes only"


def prove(col):
    for internal in (True, False):
        col.case(f"box, internal_bcs={internal}", lambda E, i=internal: box(E, i))
        for default in (True, False):
            col.case(f"extrusion, internal_bcs={internal}, {'default' if default else 'given'} ends", lambda E, i=internal, d=default: extruded(E, i, d))
    for d in (2, 3):
        col.case(f"merge without connecting, {d}D", lambda E, d=d: merged(E, d))
        col.case(f"merge, {d}D", lambda E, d=d: joined(E, d))
        col.case(f"reduction, {d}D", lambda E, d=d: reduced(E, d))
        col.case(f"generating internal conditions, {d}D", lambda E, d=d: generated(E, d))
    for c in (True, False):
        for b in (True, False):
            col.case(f"mapping, curvature={c}, boundary_curvature={b}", lambda E, c=c, b=b: mapped(E, c, b))
    col.case("rotation", rotated)
    col.case("deleting internal conditions", deleted)
    for d in (2, 3):
        for en in ("little", "big"):
            col.case(f"field file, {d}D, {en} endian", lambda E, d=d, en=en: field(E, d, en))
    col.case("lemmas on sums", lemmas)


# ---------------------------------------------------------------- well-formedness
def curved(E, st, m, e):
    """number of curved edges of the element"""
    n = 0
    for g in range(12):
        n = add(n, ite(lnot(cmp("==", E.cell(st, m, e, "ccurv", g), "")), 1, 0))
    return n


def total(E, st, m, nel):
    e = z3.Int("e!sum")
    return sum_term(curved(E, st, m, e), e, to_z(nel))


def assume_wf(E, nm, m, nel):
    """precondition; the count of curved sides is put in as the sum"""
    st = E.st
    inv = z3.Function(E.name + nm + ".inverse", I, I)
    k = z3.Int(E.name + "pre!k")
    x = to_z(E.arr(st, E.attr(st, m, "elmap"), k))
    E.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < nel), z3.And(x >= 1, x <= nel, inv(x) == k)), patterns=[x]))
    E.assume(to_z(cmp("==", E.attr(st, m, "ncurv"), total(E, st, m, nel))))


def order(E, m, st, nel):
    em = E.attr(st, m, "elmap")
    E.eq("one entry per element in the element order", em.shape[0], nel, st)
    i, j = E.fresh_int("i", nel), E.fresh_int("j", nel)
    x, y = (to_z(E.arr(st, em, k)) for k in (i, j))
    E.prove("the element order stays within the elements", z3.And(x >= 1, x <= to_z(nel)), st)
    E.prove("the element order names no element twice", z3.Implies(x == y, i == j), st)


def wf(E, m, st, nel, nbc, ncurv=True, e=None):
    E.eq("count of elements", E.attr(st, m, "nel"), nel, st)
    E.eq("number of elements", E.nelem(st, m), nel, st)
    order(E, m, st, nel)
    E.eq("count of fields", E.attr(st, m, "nbc"), nbc, st)
    if e is None:
        e = E.fresh_int("e", nel)
    sh = E.fieldshape(st, m, e, "bcs")
    E.eq("one row of conditions per field", sh[0], nbc, st)
    E.eq("six faces", sh[1], 6, st)
    if ncurv:
        E.eq("count of curved sides", E.attr(st, m, "ncurv"), total(E, st, m, nel), st)


def mesh(E, dim=None, nm="m"):
    m, nel, lr1 = C16.generic_mesh(E, nm, dim)
    nbc = E.attr(E.st, m, "nbc")
    assume_wf(E, nm, m, nel)
    return m, nel, nbc


# ---------------------------------------------------------------- operations
def box(E, internal):
    nx, ny = E.int("nx"), E.int("ny")
    xs = [E.real(n) for n in ("xmin", "xmax", "ymin", "ymax")]
    var = [E.int(f"var{i}") for i in range(5)]
    E.assume(nx >= 1, ny >= 1, xs[1] > xs[0], xs[3] > xs[2], *[v >= 0 for v in var])
    nbc = z3.If(var[1] > 0, 1, 0) + z3.If(var[3] > 0, 1, 0) + var[4]
    r = E.call("pymech.meshtools", "gen_box", nx, ny, *xs, var=E.list(var), internal_bcs=internal)
    E.never_raises("box", r)
    i, j = E.fresh_int("i", nx), E.fresh_int("j", ny)
    e = i + nx * j
    wf(E, r.value, r.st, nx * ny, nbc, False, e)
    E.eq("no curved side is counted", E.attr(r.st, r.value, "ncurv"), 0, r.st)
    E.eq("no edge is curved", curved(E, r.st, r.value, e), 0, r.st)


def extruded(E, internal, default):
    m, nel, nbc = C09.mesh2d(E)
    assume_wf(E, "m", m, nel)
    k = z3.Int(E.name + "pre!e")
    t = E.cell(E.st, m, k, "ccurv", 4)
    for g in range(4, 12):
        t = to_z(E.cell(E.st, m, k, "ccurv", g))
        E.assume(z3.ForAll([k], t == 0, patterns=[t]))
    nz = E.int("nz")
    E.assume(nz >= 1)
    Z = z3.Function(E.name + "z", I, R)
    z = E.array((nz + 1,), "f8", lambda i: Z(to_z(i)))
    args, b1, b2 = C09.ends(E, nbc, default)
    E.assume(C09.consistent(E, nbc, b1, b2))
    r = E.call("pymech.meshtools", "extrude", m, z, *args, internal_bcs=internal)
    E.never_raises("extrusion", r)
    st, w = r.st, r.value
    i, l = E.fresh_int("i", nel), E.fresh_int("k", nz)
    e = i + nel * l
    wf(E, w, st, nel * nz, nbc, False, e)
    E.eq("count of curved sides: those of the 2D mesh, twice per layer", E.attr(st, w, "ncurv"), 2 * nz * E.attr(E.st, m, "ncurv"), st)
    E.eq("every element has twice the curved edges of the 2D element", curved(E, st, w, e), 2 * curved(E, E.st, m, i), st)


def pair(E, d, nbc):
    a, b, n1, n2, c1, c2 = C12.meshes(E, d, nbc=nbc)
    return a, b, n1, n2, c1, c2


def both(E, a, b, n1, n2, c1, c2):
    E.assume(c1 == c2)
    assume_wf(E, "a", a, n1)
    assume_wf(E, "b", b, n2)


def appended(E, a, b, n1, n2, st):
    nbc = E.attr(E.st, a, "nbc")
    wf(E, a, st, n1 + n2, nbc, False)
    E.eq("counts of curved sides add up", E.attr(st, a, "ncurv"), E.attr(E.st, a, "ncurv") + E.attr(E.st, b, "ncurv"), st)
    e1, e2 = E.fresh_int("e", n1), E.fresh_int("e", n2)
    E.eq("own elements keep their curved edges", curved(E, st, a, e1), curved(E, E.st, a, e1), st)
    E.eq("the other mesh's elements keep their curved edges", curved(E, st, a, n1 + e2), curved(E, E.st, b, e2), st)


def merged(E, d):
    a, b, n1, n2, c1, c2 = C12.meshes(E, d, nbc=0)
    both(E, a, b, n1, n2, c1, c2)
    r = E.call("pymech.core", "HexaData.merge", a, b, ignore_all_bcs=True)
    E.never_raises("merging", r)
    appended(E, a, b, n1, n2, r.st)


def joined(E, d):
    C12.joined(E, d, True, lambda *k: both(E, *k), lambda a, b, n1, n2, st: appended(E, a, b, n1, n2, st))


def reduced(E, d):
    m, nel, nbc, n, S, elems = C13.setup(E, d, "array")
    assume_wf(E, "m", m, nel)
    i = z3.Int(E.name + "pre!i")
    E.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), S(i) < nel), patterns=[S(i)]))
    r = E.call("pymech.meshtools", "keep_elements", m, elems)
    E.never_raises("reduction", r)
    wf(E, m, r.st, n, nbc)


def generated(E, d):
    def post(m, nel, nbc, st):
        wf(E, m, st, nel, nbc)

    C14.generate(E, d, lambda m, nel, nbc: assume_wf(E, "m", m, nel), post)


def mapped(E, curvature, boundary):
    nel, nbc = E.int("nel"), E.int("nbc")
    var = [E.int(f"var{i}") for i in range(5)]
    E.assume(nel >= 1, nbc >= 0, *[v >= 0 for v in var])
    m = E.mesh("m", 2, nel, [2, 2, 1], var, nbc)
    assume_wf(E, "m", m, nel)
    C17.sound_edges(E, m)
    r = E.call("pymech.meshtools", "map2D", m, UFun("T", 2, 2), curvature=curvature, boundary_curvature=boundary)
    E.never_raises("mapping", r)
    wf(E, r.value, r.st, nel, nbc)


def rotated(E):
    m, nel, nbc = mesh(E)
    r = E.call("pymech.meshtools", "rotate_2d", m, E.real("x0"), E.real("y0"), E.real("theta"))
    E.never_raises("rotation", r)
    wf(E, m, r.st, nel, nbc)


def deleted(E):
    m, nel, nbc = mesh(E)
    r = E.call("pymech.meshtools", "delete_internal_bcs", m)
    E.never_raises("deletion", r)
    wf(E, m, r.st, nel, nbc)


def field(E, d, en):
    c = C03.setup(E, d, en, 8)
    E.assume(c.nf == c.nel)
    r = E.call("pymech.neksuite.field", "readnek", "file0.f00001")
    E.never_raises("reading", r)
    m, st = r.value, r.st
    wf(E, m, st, c.nel, 0, False)
    e = E.fresh_int("e", c.nel)
    E.eq("no curved side is counted", E.attr(st, m, "ncurv"), 0, st)
    E.eq("no edge is curved", curved(E, st, m, e), 0, st)


def lemmas(E):
    """sums by induction; F, G, H are the partial sums of f, g, h"""
    f, g, F, G, H = (z3.Function("lemma." + x, I, I) for x in ("f", "g", "F", "G", "H"))
    n, m, k, c = (z3.Int("lemma." + x) for x in ("n", "m", "k", "c"))
    rec = lambda S, s, x: S(x + 1) == S(x) + s(x)
    E.prove("sum of two parts: no second part", z3.Implies(z3.And(n >= 0, G(0) == 0), F(n + 0) == F(n) + G(0)))
    E.prove("sum of two parts: one more element", z3.Implies(z3.And(n >= 0, m >= 0, F(n + m) == F(n) + G(m), rec(F, f, n + m), rec(G, g, m), g(m) == f(n + m)), F(n + m + 1) == F(n) + G(m + 1)))
    E.prove("sum of a multiple: no element", z3.Implies(z3.And(G(0) == 0, H(0) == 0), G(0) == 2 * H(0)))
    h = z3.Function("lemma.h", I, I)
    E.prove("sum of a multiple: one more element", z3.Implies(z3.And(G(m) == 2 * H(m), rec(G, g, m), rec(H, h, m), g(m) == 2 * h(m)), G(m + 1) == 2 * H(m + 1)))
    E.prove("sum of equal layers: no layer", z3.Implies(F(0) == 0, F(n * 0) == 0 * c))
    E.prove("sum of equal layers: one more layer", z3.Implies(z3.And(k >= 0, F(n * k) == k * c, F(n * k + n) == F(n * k) + c), F(n * (k + 1)) == (k + 1) * c))
