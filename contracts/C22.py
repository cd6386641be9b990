"""C22: readplane returns the numbers of the plane file, readdns those of the velocity file."""
from api import *
import files
import spec

ASSUMPTIONS = [
    "precondition: the file has the layout of a SIMSON file (Fortran records, all extents positive; velocity files: an even number of points in x, an even number or one in z, flow type 0 to 3, -1, -2, 6 to 9 or +-20, at most 100 scalars)",
    "contract of numpy.fft.irfft2(A, (nz, nx), (0, 2)): the real field whose half-complex coefficients, scaled by the number of points, are A",
    "a complex number a+bi is the term a+b*i for an indeterminate i (only sums and products with real numbers occur)",
    "contracts of open/read/struct.unpack/numpy.reshape; cos is uninterpreted, arccos(-1) is pi",
]


def prove(col):
    for d in (1, 2, 3):
        for en in ("little", "big"):
            col.case(f"plane file, {d}D, {en} endian", lambda E, d=d, en=en: plane(E, d, en))
    for en in ("little", "big"):
        for fl in FLOWS:
            col.case(f"velocity file, {en} endian, flow {fl}", lambda E, en=en, fl=fl: velocity(E, en, fl))


def plane(E, d, en):
    E.I.pins = True
    e = "<" if en == "little" else ">"
    src = files.Source(E.name + "file", None)
    E.I.open_hook = lambda I_, st, f, mode: files.open_source(I_, st, src) if mode == "rb" else None
    nn = [src.num(e + "i4", 4 + 4 * i) for i in range(d)]
    E.assume(cmp("==", src.num(e + "i4", 0), 4 * d), *[cmp(">=", n, 1) for n in nn])
    if en == "big":  # the same four bytes in the other order
        E.assume(cmp("==", src.num("<i4", 0), 4 * d * 2**24))
    nt = 1
    for n in nn:
        nt = mul(nt, n)
    size = mul(8, nt)
    first = 4 + 4 * d + 4
    rec = lambda k: add(first + 4, mul(k, add(size, 8)))
    if d == 1:
        E.assume(cmp("==", src.num(e + "i4", first), size))
    else:
        for k in range(d):
            E.assume(cmp("==", src.num(e + "i4", add(first, mul(k, add(size, 8)))), size))
    r = E.call("pymech.simsonsuite", "readplane", "plane")
    E.never_raises("reading", r)
    st = r.st
    if not isinstance(r.value, tuple) or len(r.value) != 4:
        E.eq("returns coordinates, data, extents and dimensions", 0, 1, st)
        return
    x, data, got, ndim = r.value
    E.eq("number of dimensions", ndim, d, st)
    for i, n in enumerate(nn):
        E.eq(f"extent {i}", E.item(st, got, i), n, st)
    idx = [E.fresh_int("i", n) for n in nn]
    lin, w = 0, 1
    for i, n in zip(idx, nn):
        lin, w = add(lin, mul(w, i)), mul(w, n)
    num = lambda k: src.num(e + "f8", add(rec(k), mul(8, lin)))
    E.eq("axes of the data", len(data.shape), d, st)
    for a, n in enumerate(nn):
        E.eq(f"shape of the data {a}", data.shape[a], n, st)
    E.eq("data", E.arr(st, data, *idx), num(d), st)
    if d == 1:
        E.eq("coordinates", E.item(st, x, idx[0]), num(0), st)
        return
    E.eq("axes of the coordinates", len(x.shape), d + 1, st)
    for a, n in enumerate([d] + nn):
        E.eq(f"shape of the coordinates {a}", x.shape[a], n, st)
    for k in range(d):
        E.eq(f"coordinate {k}", E.arr(st, x, k, *idx), num(k), st)


FLOWS = {  # class of flow types -> (condition, bytes of its quantities)
    "plain": (lambda f, ns: z3.And(f >= 0, f <= 3), lambda ns: 0),
    "-1": (lambda f, ns: f == -1, lambda ns: 16),
    "-2": (lambda f, ns: f == -2, lambda ns: 24),
    "6 to 9": (lambda f, ns: z3.And(f >= 6, f <= 9), lambda ns: 40),
    "20": (lambda f, ns: z3.Or(f == 20, f == -20), lambda ns: add(8, mul(8, ns))),
}


def velocity(E, en, flow):
    """records: 44+16 ns bytes (Re, flag, box, time, scalars); 16 bytes (extents); flow type, dstar; quantities of the flow;
    one record of nx numbers per (field, z, y)"""
    I_ = E.I
    I_.pins = True
    e = "<" if en == "little" else ">"
    src = files.Source(E.name + "file", None)
    I_.open_hook = lambda I_, st, f, mode: files.open_source(I_, st, src) if mode == "rb" else None
    ns = E.int("ns")
    E.assume(ns >= 0, ns <= 100)
    src.tags[(e + "i4", 0)] = add(44, mul(16, ns))
    if en == "big":  # the same four bytes in the other order (a signed number)
        hi, lo = E.int("hi"), E.int("lo")
        E.assume(lo >= 0, lo < 256, hi >= 0, hi < 256, 256 * hi + lo == to_z(src.tags[(">i4", 0)]))
        src.tags[("<i4", 0)] = z3.If(lo < 128, lo * 2**24 + hi * 2**16, lo * 2**24 + hi * 2**16 - 2**32)
    at = lambda k: add(k, mul(16, ns))
    i4 = lambda p: src.num(e + "i4", p)
    f8 = lambda p: src.num(e + "f8", p)
    nx, ny, nz = [i4(at(56 + 4 * k)) for k in range(3)]
    fl, dstar = i4(at(80)), f8(at(84))
    when, extra = FLOWS[flow]
    hx, hz = E.int("hx"), E.int("hz")
    E.assume(nx == 2 * hx, hx >= 1, ny >= 2, z3.Or(nz == 1, nz == 2 * hz), nz >= 1, dstar != 0, when(fl, ns))
    data0 = add(at(100), extra(ns))
    row = add(mul(8, nx), 8)
    comp = mul(row, mul(ny, nz))
    phys = z3.Function(E.name + "field", I, I, I, I, R)
    sgn = lambda v: -1 if isinstance(v, int) and v == 1 else 1
    # place of a plane in the array (its own inverse)
    place = lambda z: ite(cmp("<", mul(2, z), nz), z, sub(sub(mul(3, idiv(I_, nz, 2, E.st)), z), 1))

    def coef(v, z, y, x):
        """coefficient x of row y of the plane stored as number z"""
        p = add(add(add(data0, mul(v, comp)), mul(add(mul(z, ny), y), row)), mul(16, x))
        c = add(f8(p), mul(f8(add(p, 8)), N.IMAG))
        return mul(mul(c, mul(nx, nz)), sgn(v))

    def filled(v, done, before):
        def fn(z, y, x):
            w = place(z)
            return ite(conj(cmp("<", mul(2, x), nx), cmp("<", w, done)), coef(v, w, y, x), before(z, y, x))

        return fn

    def planes(view, axes):
        have = view.st.heap[view.fr].vars
        v = add(3, have["ivar"]) if "ivar" in have else have.get("idim")
        if v is None or len(axes) != 1:
            return None
        I_.pass_ = v
        before = view.st.heap[spec.key_of(view.I, view.st, view.fr, ("arr", "fou"))].fn
        return spec.Contract(lambda pos: [
            (("attr", "infile", "%pos"), add(add(data0, mul(v, comp)), mul(pos[0], mul(ny, row)))),
            (("arr", "fou"), filled(v, pos[0], before)),
        ])

    def transform(I__, st, a, s, axes, n):
        """contract of irfft2: the field with these half-complex coefficients, scaled by the number of points"""
        v = getattr(I_, "pass_", None)
        if v is None or not isinstance(a, ArrRef) or len(a.shape) != 3 or not isinstance(s, tuple) or not isinstance(axes, tuple):
            I_.unsupported(n, "irfft2")
        I_.oblige("transformed axes", st, conj(*[cmp("==", x, y) for x, y in zip(axes, (0, 2))], len(axes) == 2))
        I_.oblige("points of the transformed field", st, conj(*[cmp("==", x, y) for x, y in zip(s, (nz, nx))], len(s) == 2))
        for k, (x, y) in enumerate(zip(a.shape, (nz, ny, add(idiv(I_, nx, 2, st), 1)))):
            I_.oblige(f"coefficients of a field: extent {k}", st, cmp("==", x, y))
        z, y, x = [fresh("c") for _ in range(3)]
        q = st.fork()
        q.pc = list(q.pc) + [z >= 0, z < nz, y >= 0, y < ny, x >= 0, 2 * x <= nx]
        want = ite(cmp("<", mul(2, x), nx), coef(v, place(z), y, x), 0)
        I_.oblige("coefficients of a field", q, spec.eqv(N.snapshot(I_, st, a)[0](z, y, x), want))
        return N.new_array(I_, st, (nz, ny, nx), "f8", lambda z, y, x: phys(to_z(v), to_z(z), to_z(y), to_z(x)))

    def scalars(view, axes):
        loc = ("attr array", E.elem(view.st, view.var("data"), 0), "scal")
        old = view.st.heap[spec.key_of(view.I, view.st, view.fr, loc)].fn
        zero = lambda *i: Fraction(0)
        return spec.Contract(lambda pos: [
            (("attr", "infile", "%pos"), add(data0, mul(add(3, pos[0]), comp))),
            (("arr", "fou"), filled(2 if isinstance(pos[0], int) else add(2, pos[0]), nz, zero)),
            (loc, lambda i, z, y, x: ite(cmp("<", i, pos[0]), phys(to_z(add(3, i)), to_z(z), to_z(y), to_z(x)), old(i, z, y, x))),
        ])

    I_.fft_hook = transform
    I_.loop_contracts.update({"iz": planes, "ivar": scalars})
    r = E.call("pymech.simsonsuite", "readdns", "field")
    E.never_raises("reading", r)
    st = r.st
    m = r.value
    if not isinstance(m, Ref):
        E.eq("returns a data set", 0, 1, st)
        return
    E.eq("time", E.attr(st, m, "time"), f8(32), st)
    E.eq("number of elements", E.attr(st, m, "nel"), 1, st)
    E.eq("dimensions", E.attr(st, m, "ndim"), ite(cmp(">", nz, 1), 3, 2), st)
    E.eq("endian", E.attr(st, m, "endian"), en, st)
    E.eq("word size", E.attr(st, m, "wdsz"), 8, st)
    for k, n in enumerate((nx, ny, nz)):
        E.eq(f"points per direction {k}", E.item(st, E.attr(st, m, "lr1"), k), n, st)
    E.eq("number of scalars", E.item(st, E.attr(st, m, "var"), 4), ns, st)
    E.eq("number of components", E.item(st, E.attr(st, m, "var"), 1), ite(cmp(">", nz, 1), 3, 2), st)
    z, y, x = E.fresh_int("z", nz), E.fresh_int("y", ny), E.fresh_int("x", nx)
    el = E.elem(st, m, 0)
    get = lambda name, *i: E.arr(st, E.attr(st, el, name), *i)
    for name, n in (("pos", 3), ("vel", 3), ("scal", ns)):
        for k, d in enumerate((n, nz, ny, nx)):
            E.eq(f"shape of {name} {k}", E.attr(st, el, name).shape[k], d, st)
    lx, lz = f8(16), f8(24)
    div = lambda a, b: I_.quot(a, b)
    E.eq("grid x", get("pos", 0, z, y, x), mul(div(lx, nx), x), st)
    c = terms.COS(to_z(mul(div(N.PI, sub(ny, 1)), to_real(y))))
    E.eq("grid y", get("pos", 1, z, y, x), div(mul(div(2, dstar), sub(1, c)), 2), st)
    E.eq("grid z", get("pos", 2, z, y, x), mul(div(lz, nz), sub(to_real(z), div(nz, 2))), st)
    for v in range(3):
        E.eq(f"component {v}", get("vel", v, z, y, x), phys(v, to_z(z), to_z(y), to_z(x)), st)
    i = E.fresh_int("i", ns)
    E.eq("scalars", get("scal", i, z, y, x), phys(to_z(add(3, i)), to_z(z), to_z(y), to_z(x)), st)
