"""C08: saving, querying and deriving leave the argument as it was, and results share no storage with it."""
from api import *
import C02
import C09
import C17
import C19
import files

ASSUMPTIONS = [
    "two objects share storage only if one is reachable from both (lists, arrays, elements, dictionaries)",
    "formatted text has no effect on the objects that are printed",
    "the transformation given to map2D is a pure function of two coordinates",
]
BOUNDED = "extrude_refine and the refusals are evaluated on generated meshes only"


def prove(col):
    for n in ("points", "lims", "repr", "completeness", "connectivity"):
        col.case(n, lambda E, n=n: query(E, n))
    for n in ("repr of an element", "repr of the limits", "centroid", "smallest edge", "face centre"):
        col.case(n, lambda E, n=n: elem_query(E, n))
    for k in range(12):
        for t in ("", "m", "C", "s"):
            col.case(f"edge_mid {k + 1}, type '{t}'", lambda E, k=k, t=t: edge(E, k, "edge_mid", t))
            if t != "m":
                col.case(f"edge_circle {k + 1}, type '{t}'", lambda E, k=k, t=t: edge(E, k, "edge_circle", t))
    for d in (2, 3):
        for en in ("little", "big"):
            col.case(f"writere2, {d}D, {en}", lambda E, d=d, en=en: write_re2(E, d, en))
        col.case(f"writerea, {d}D", lambda E, d=d: write_rea(E, d))
        for w in (4, 8):
            col.case(f"writenek, {d}D, word size {w}", lambda E, d=d, w=w: write_nek(E, d, w))
    for i in (True, False):
        col.case(f"extrude, internal_bcs={i}", lambda E, i=i: extrude(E, i))
    for c in (True, False):
        col.case(f"map2D, curvature={c}", lambda E, c=c: map2D(E, c))
    for i in (True,):
        col.case(f"merge, ignore_all_bcs={i}", lambda E, i=i: merge(E, i))


def generic_mesh(E, nm="m", d=3):
    nel, nbc = E.int("nel"), E.int("nbc")
    lr1 = [E.int("lx"), E.int("ly"), E.int("lz")]
    var = [E.int(f"var{i}") for i in range(5)]
    E.assume(nel >= 1, nbc >= 0, *[x >= 1 for x in lr1], *[v >= 0 for v in var])
    return E.mesh(nm, d, nel, lr1, var, nbc), nel, lr1


def untouched(E, m, r, st0, what="the argument", normal=False):
    """on every way out"""
    if r.st is not None:
        E.frame(what, m, st0, m, r.st)
        E.same_objects(what, m, st0, r.st)
    elif normal:
        E.never_raises("call", r)
    for n, (pc, ex, s) in enumerate(r.raises):
        q = s.fork()
        q.pc = list(pc)
        E.frame(f"{what}, when {ex.kind} is raised ({n})", m, st0, m, q)


def query(E, n):
    m, nel, lr1 = generic_mesh(E)
    st0 = E.st
    fn = {"points": "get_points", "repr": "__repr__", "completeness": "check_bcs_present", "connectivity": "check_connectivity"}.get(n)
    if n == "lims":
        r = E.prop(m, "lims")
    else:
        r = E.call("pymech.core", "HexaData." + fn, m)
    untouched(E, m, r, st0)
    if n in ("points", "lims") and r.st is not None:
        E.disjoint("the result", r.st, r.value, m)


def elem_query(E, n):
    m, nel, lr1 = generic_mesh(E)
    st0 = E.st
    el = ElemRef(st0.heap[E.attr(st0, m, "elem").oid].rid, E.fresh_int("e", nel))
    if n == "repr of the limits":
        L = E.prop(m, "lims")
        E.st = L.st
        r = E.call("pymech.core", "DataLims.__repr__", L.value)
    elif n == "repr of an element":
        r = E.call("pymech.core", "Elem.__repr__", el)
    elif n == "centroid":
        r = E.prop(el, "centroid")
        E.disjoint("the result", r.st, r.value, m)
    elif n == "smallest edge":
        r = E.call("pymech.core", "Elem.smallest_edge", el)
    else:
        i = E.int("face")
        E.assume(i >= 0, i < 6)
        r = E.call("pymech.core", "Elem.face_center", el, i)
    untouched(E, m, r, st0)


def edge(E, k, fn, t):
    m, nel, lr1 = generic_mesh(E)
    st0 = E.st
    el = ElemRef(st0.heap[E.attr(st0, m, "elem").oid].rid, E.fresh_int("e", nel))
    E.assume(cmp("==", E.cell(st0, m, el.idx, "ccurv", k), t))
    E.elsewhere = ("div", "sqrt")  # C19 has these
    args = [el, k]
    if fn == "edge_circle":
        P = z3.Function(E.name + "p", I, R)
        args.append(E.array((3,), "f8", lambda i: P(to_z(i))))
    r = E.call("pymech.meshtools", fn, *args)
    untouched(E, m, r, st0)
    if r.st is not None and r.value is not None:
        E.disjoint("the result", r.st, r.value, m)


def write_re2(E, d, en):
    nel = E.int("nel")
    m = E.mesh("m", d, nel, [2, 2, d - 1], [d, 0, 0, 0, 0], 2, extra={"endian": en})
    E.assume(nel >= 1, nel < 10**8)
    st0 = E.st
    output_file(E)
    r = E.call("pymech.neksuite.mesh", "writere2", "mesh.re2", m)
    untouched(E, m, r, st0, normal=True)


def write_rea(E, d):
    nel = E.int("nel")
    E.assume(nel >= 1)
    m = E.mesh("m", d, nel, [2, 2, d - 1], [d, 0, 0, 0, 0], 2)
    st0 = E.st
    sink(E)
    r = E.call("pymech.neksuite.mesh", "writerea", "mesh.rea", m)
    untouched(E, m, r, st0, normal=True)


def write_nek(E, d, w):
    v, m, lr1 = C02.setup(E, d, "big", w, "f8")
    st0 = E.st
    output_file(E)
    r = E.call("pymech.neksuite.field", "writenek", "file0.f00001", m)
    untouched(E, m, r, st0, normal=True)


def extrude(E, internal):
    m, nel, nbc, nz, Z, b1, b2, r = C09.run(E, internal, True)
    untouched(E, m, r, E.st)
    E.disjoint("the result", r.st, r.value, m)


def map2D(E, curvature):
    nel, nbc = E.int("nel"), E.int("nbc")
    var = [E.int(f"var{i}") for i in range(5)]
    E.assume(nel >= 1, nbc >= 0, *[v >= 0 for v in var])
    m = E.mesh("m", 2, nel, [2, 2, 1], var, nbc)
    C17.sound_edges(E, m)
    st0 = E.st
    r = E.call("pymech.meshtools", "map2D", m, UFun("T", 2, 2), curvature=curvature)
    untouched(E, m, r, st0)
    E.disjoint("the result", r.st, r.value, m)


def merge(E, ignore):
    a, nel, lr1 = generic_mesh(E, "a")
    E.name += "other "
    b, nel2, lr2 = generic_mesh(E, "b")
    st0 = E.st
    r = E.call("pymech.core", "HexaData.merge", a, b, ignore_all_bcs=ignore)
    untouched(E, b, r, st0, "the mesh that is added")
    E.disjoint("the merged mesh", r.st, a, b)
