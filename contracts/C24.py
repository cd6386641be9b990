"""C24: extrude_refine: without splitting it is extrude; how the mesh is taken apart, extruded and joined; inputs that are refused."""
from api import *
import C09
from C09 import consistent, ends, mesh2d
import loops
from heap import InstC
from interp import Builtin

ASSUMPTIONS = C09.ASSUMPTIONS + [
    "precondition: z is a one-dimensional array",
    "in the cases 'parts', keep_elements, extrude, merge and update_ncurv are replaced by their contracts (C13, C09/C10, C12, C20) and extrude_mid by an assumed one: it leaves its arguments alone and returns another mesh",
    "splitting functions are arbitrary functions of two coordinates and a parameter without side effects",
]
BOUNDED = "the middle layers (extrude_mid) and with them the refined mesh as a whole (well-formed, mutually connected, complete, without gaps or overlaps) are evaluated on generated meshes; the parts are proved for 1 and 2 splitting functions (3 in the thorough tier), the refusals for 1 to 3"
MT = "pymech.meshtools"


def prove(col):
    for internal in (True, False):
        for default in (True, False):
            for empty in (True, False):
                n = f"internal_bcs={internal}, {'default' if default else 'given'} ends, {'empty list' if empty else 'no splitting functions'}"
                col.case(n, lambda E, a=(internal, default, empty): plain(E, *a))
    col.case("refusals", refuse)
    for ns in (1, 2, 3):
        for nf in (0, 1, 2, 3, 4):
            if nf != ns:
                col.case(f"{ns} functions, {nf} parameters", lambda E, a=(ns, nf): parameters(E, *a))
        for im in range(ns + 1):
            col.case(f"{ns} functions, finest {im}: layer counts", lambda E, a=(ns, im): layers(E, *a))
            for internal, given_ in ((True, True), (True, False), (False, True)):
                if ns == 1 or (ns == 2 and internal and given_ == (im == 1)) or col.tier != "quick":
                    n = f"{ns} functions, finest {im}, parameters {'given' if given_ else 'missing'}, internal_bcs={internal}"
                    col.case(n + ": parts", lambda E, a=(ns, im, given_, internal): parts(E, *a))


def given(E):
    m, nel, nbc = mesh2d(E)
    nz = E.int("nz")
    E.assume(nz >= 1)
    Z = z3.Function(E.name + "z", I, R)
    return m, nbc, nz, E.array((nz + 1,), "f8", lambda i: Z(to_z(i)))


def plain(E, internal, default, empty):
    m, nbc, nz, z = given(E)
    args, b1, b2 = ends(E, nbc, default)
    if not default:
        E.assume(consistent(E, nbc, b1, b2))
    fun = E.list([]) if empty else None
    st0 = E.st
    a = E.call(MT, "extrude", m, z, *args, internal_bcs=internal)
    E.never_raises("extrude", a)
    r = E.call(MT, "extrude_refine", m, z, *args, fun=fun, internal_bcs=internal)
    E.never_raises("extrude_refine", r)
    E.frame("the result is that of extrude", a.value, a.st, r.value, r.st)
    E.frame("the 2D mesh is unchanged", m, st0, m, r.st)


def value(E, st, x):
    return E.arr(st, x, 0) if isinstance(x, ArrRef) else x


def functions(E, n):
    """splitting functions: arbitrary functions of three numbers"""
    out = []
    for k in range(n):
        f = z3.Function(f"{E.name}fun{k}", R, R, R, R)
        out.append(Builtin(f"fun{k}", lambda I_, st, a, kw, nd, f=f: f(*[to_z(to_real(value(E, st, x))) for x in a])))
    return E.list(out)


def refuse(E):
    nel, nbc, nz = E.int("nel"), E.int("nbc"), E.int("nz")
    var = [E.int(f"var{i}") for i in range(5)]
    lr1 = [E.int("lx"), E.int("ly"), E.int("lz")]
    ndim = E.int("ndim")
    E.assume(nel >= 1, nbc >= 0, nz >= 1, *[v >= 0 for v in var], *[x >= 1 for x in lr1])
    m = E.mesh("m", ndim, nel, lr1, var, nbc)
    Z = z3.Function(E.name + "z", I, R)
    z = E.array((nz + 1,), "f8", lambda i: Z(to_z(i)))
    args, b1, b2 = ends(E, nbc, False)
    bad = z3.Or(ndim != 2, z3.Not(z3.And(lr1[0] == 2, lr1[1] == 2, lr1[2] == 1)), var[0] < 2, z3.Not(consistent(E, nbc, b1, b2)))
    r = E.call(MT, "extrude_refine", m, z, *args)
    E.raises_iff("extrude_refine", r, bad)


def refused(E, r):
    E.raises_iff("extrude_refine", r, True)


def parameters(E, ns, nf):
    m, nbc, nz, z = given(E)
    par = E.list([E.real(f"par{k}") for k in range(nf)])
    refused(E, E.call(MT, "extrude_refine", m, z, fun=functions(E, ns), funpar=par))


def layers(E, ns, im):
    m, nbc, nz, z = given(E)
    E.assume(nz % max(2 ** (im + 1), 2 ** (ns - im + 1)) != 0)
    refused(E, E.call(MT, "extrude_refine", m, z, fun=functions(E, ns), imesh_high=im))


def bind(names, args, kw):
    return {**dict(zip(names, args)), **kw}


def parts(E, ns, im, given_, internal):
    """how the mesh is taken apart and what is made of the parts, given the contracts of keep_elements (C13), extrude (C09, C10) and merge (C12)"""
    m, nbc, nz, z = given(E)
    E.assume(nz % max(2 ** (im + 1), 2 ** (ns - im + 1)) == 0)
    log, afters, st0 = [], [], E.st
    E.internal, E.afters = internal, afters

    def fresh_mesh(st, nm, ndim, nel):
        keep, E.st = E.st, st
        w = E.mesh(nm, ndim, nel, [2, 2, ndim - 1], [ndim, 0, 0, 0, 0], nbc)
        E.st = keep
        return w

    def keep_elements(I_, st, args, kw):
        a = bind(["mesh", "elems", "external_bc"], args, kw)
        log.append(("keep", st.fork(), a))
        n = E.length(st, a["elems"])
        new = fresh_mesh(st, f"part{len(log)}", 2, n)
        c, w = st.heap[a["mesh"].oid], st.heap[new.oid]
        st.heap[a["mesh"].oid] = InstC(c.cls, {**c.attrs, **{k: w.attrs[k] for k in ("nel", "elem", "elmap", "ncurv")}})
        afters.append((a["mesh"], st.fork()))

    def extruded(what, names):
        def call(I_, st, args, kw):
            w = fresh_mesh(st, f"box{len(log)}", 3, z3.Int(f"{E.name}box{len(log)}.nel"))
            log.append((what, st.fork(), bind(names, args, kw), w))
            return w
        return call

    def merge(I_, st, args, kw):
        log.append(("merge", st.fork(), bind(["self", "other", "tol", "ignore_empty", "ignore_all_bcs"], args, kw)))
        return 0

    E.I.overrides["keep_elements"] = keep_elements
    E.I.overrides["extrude"] = extruded("extrude", ["mesh", "z", "bc1", "bc2", "internal_bcs"])
    E.I.overrides["extrude_mid"] = extruded("mid", ["mesh", "z", "bc1", "bc2", "fun", "funpar", "internal_bcs"])
    E.I.overrides["HexaData.merge"] = merge
    E.I.overrides["HexaData.update_ncurv"] = lambda I_, st, args, kw: None  # the count of curved sides: C20
    E.I.decide_ms = 300
    kw = {"funpar": E.list([E.real(f"par{k}") for k in range(ns)])} if given_ else {}
    r = E.call(MT, "extrude_refine", m, z, fun=functions(E, ns), imesh_high=im, internal_bcs=internal, **kw)
    E.never_raises("extrude_refine", r)
    # the argument below is about this way of building the mesh; another one is left to the bounded check
    if [x[0] for x in log] != ["keep"] * 3 * ns + ["extrude", "mid"] * ns + ["extrude"] + ["merge"] * 2 * ns:
        raise Unsupported("the mesh is not built by splitting, extruding and merging in this order")
    par = [E.item(st0, kw["funpar"], k) if given_ else z3.RealVal(0) for k in range(ns)]
    keeps, boxes, merges = log[:3 * ns], log[3 * ns:5 * ns + 1], log[5 * ns + 1:]
    split(E, m, st0, ns, keeps, par)
    refs = [[x[2]["mesh"] for x in keeps[3 * k:3 * k + 3]] for k in range(ns)]
    want = [y for k in range(ns) for y in refs[k][:2]] + [refs[-1][2]]
    if [x[2]["mesh"] for x in boxes] != want:
        raise Unsupported("the parts are not extruded in order")
    for n, x in enumerate(boxes):
        last = [s for y, s in afters if y == x[2]["mesh"]][-1]
        E.frame(f"part {n} is not changed before it is extruded", x[2]["mesh"], last, x[2]["mesh"], x[1])
    extents(E, ns, im, nz, Z_of(E, st0, z), boxes, par)
    for n, x in enumerate(boxes):
        for at in ("bc1", "bc2"):
            v, b = x[2].get(at), E.fresh_int("b", nbc)
            E.eq(f"part {n}: number of conditions {at}", nbc if v is None else E.length(x[1], v), nbc, x[1])
            if v is not None:
                E.prove(f"part {n}: periodic by default ({at})", cmp("==", E.item(x[1], v, b), "P"), x[1])
        E.prove(f"part {n}: internal conditions as requested", x[2].get("internal_bcs", True) is internal, x[1])
    out = [x[3] for x in boxes]
    target = merges[0][2]["self"]
    E.prove("every part is merged once", sorted(x.oid for x in out) == sorted([target.oid] + [x[2]["other"].oid for x in merges]), r.st)
    for n, x in enumerate(merges):
        E.prove(f"merge {n}: into the same mesh", x[2]["self"] == target, x[1])
        E.prove(f"merge {n}: joined when connections are requested", x[2].get("ignore_all_bcs", False) is (not internal) and not x[2].get("ignore_empty", False), x[1])
    E.prove("the merged mesh is returned", r.value == target, r.st)
    E.frame("the 2D mesh is unchanged", m, st0, m, r.st)


def Z_of(E, st, z):
    return lambda i: E.arr(st, z, i)


def split(E, m, st0, ns, keeps, par):
    """every element of the mesh belongs to exactly one part"""
    src, sst = m, st0
    for k in range(ns):
        n = E.nelem(sst, src)
        i = E.fresh_int("i", n)
        F = z3.Function(f"{E.name}fun{k}", R, R, R, R)
        value = lambda e, k=k, F=F, src=src, sst=sst: [F(to_z(E.cell(sst, src, e, "pos", 0, 0, y, x)), to_z(E.cell(sst, src, e, "pos", 1, 0, y, x)), to_z(to_real(par[k]))) for y in (0, 1) for x in (0, 1)]
        fine = lambda e: z3.And([v <= 0 for v in value(e)])
        coarse = lambda e: z3.And([v > 0 for v in value(e)])
        kinds = [fine, lambda e: z3.And(z3.Not(fine(e)), z3.Not(coarse(e))), coarse]
        names = ["finer side", "middle", "coarser side"]
        for c in range(3):
            _, st, a = keeps[3 * k + c]
            nm = f"split {k}, {names[c]}"
            E.frame(f"{nm}: taken from the mesh that is split", src, sst, a["mesh"], st, fields=("pos", "ccurv", "curv") + (("bcs",) if E.internal or k else ()), attrs=())
            if c < 2 or k == 0:
                E.disjoint(f"{nm}: the part", st, a["mesh"], src)
            ln = E.length(st, a["elems"])
            j, h = E.fresh_int("j", ln), E.fresh_int("h", ln)
            get = lambda q: to_z(E.item(st, a["elems"], q))
            E.prove(f"{nm}: every number is one of an element", z3.And(get(j) >= 0, get(j) < to_z(n)), st)
            E.prove(f"{nm}: every element is on this side", kinds[c](get(j)), st)
            E.prove(f"{nm}: no element twice", j == h, st, [get(j) == get(h)])
            x = z3.Int(E.name + "ex!j")
            found = lambda q: z3.And(q >= 0, q < to_z(ln), get(q) == i)
            inv = loops.INVERSES.get(get(x).decl().name()) if z3.is_app(get(x)) and get(x).num_args() == 1 and get(x).arg(0).eq(x) else None
            E.prove(f"{nm}: every element on this side", z3.Exists([x], found(x)) if inv is None else found(inv[1](i)), st, [kinds[c](i)])
            E.prove(f"{nm}: mark of the new sides", cmp("==", a.get("external_bc", ""), "con" if E.internal else ""), st)
        src, sst = E.afters[3 * k + 2]


def extents(E, ns, im, nz, Z, boxes, par):
    """every part spans the whole height; the layers of a middle part are those of its finer side"""
    level = lambda k: 2 ** abs(k - im)
    for n, x in enumerate(boxes):
        k, mid = n // 2, x[0] == "mid"
        step = level(k) if not mid else min(level(k), level(k + 1))
        nm, st = f"part {n}", x[1]
        zz = x[2]["z"]
        E.eq(f"{nm}: number of layers", zz.shape[0], 1 + to_z(nz) / step, st)
        j = E.fresh_int("j", zz.shape[0])
        E.eq(f"{nm}: heights", E.arr(st, zz, j), Z(j * step), st)
        E.eq(f"{nm}: lower end", E.arr(st, zz, 0), Z(0), st)
        E.eq(f"{nm}: upper end", E.arr(st, zz, sub(zz.shape[0], 1)), Z(nz), st)
        if mid:
            px, py = E.real("px"), E.real("py")
            F = z3.Function(f"{E.name}fun{k}", R, R, R, R)
            v = E.I.call(x[2]["fun"], [px, py, x[2]["funpar"]], {}, st.fork(), ast.Name("contract", ast.Load()))
            p = F(px, py, to_z(to_real(par[k])))
            E.eq(f"{nm}: negative on the finer side", v, -p if k < im else p, st)
