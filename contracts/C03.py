"""C03: readnek puts every stored number where the layout says."""
from api import *
import files
import loops

ASSUMPTIONS = [
    "precondition: the file has the field layout (header text of 12 fields, tag, element map naming distinct existing elements, as many numbers as the header announces)",
    "contracts of open/read/seek/split/int/float/struct/numpy.frombuffer",
    "floating point values are treated as real numbers; rounding to single precision is an uninterpreted function",
]
NAMES = ("X", "U", "P", "T", "S")
FIELD = ("pos", "vel", "pres", "temp", "scal")


def prove(col):
    for d in (2, 3):
        for en in ("little", "big"):
            for w in (4, 8):
                for dt in ("float64", "float32"):
                    for zero in (False, True):
                        if (dt, zero) != ("float64", False) and (d, en) != (2, "big") and not (zero and w == 8 and d == 3 and en == "little" and dt == "float64"):
                            continue
                        col.case(f"{d}D, {en} endian, word size {w}, {dt}" + (", map with a zero" if zero else ""), lambda E, a=(d, en, w, dt, zero): read(E, *a))
    col.case("wrong tag", wrong)
    for m in (0, 1, 11):
        col.case(f"header of {m} fields", lambda E, m=m: short(E, m))


class Case:
    pass


def setup(E, d, en, w, zero=False):
    c = Case()
    c.d, c.en, c.w = d, en, w
    c.nel, c.nf, c.lx, c.ly = E.int("nel"), E.int("nfile"), E.int("lx"), E.int("ly")
    c.lz = 1 if d == 2 else E.int("lz")
    c.time, c.istep, c.fid, c.nfiles = E.real("time"), E.int("istep"), E.int("fid"), E.int("nfiles")
    c.ns = E.int("nscalars")
    c.has = [z3.Bool(E.name + "has" + v) for v in NAMES]
    E.assume(c.nel >= 1, c.nf >= 1, c.nf <= c.nel, c.lx >= 1, c.ly >= 1, c.ns >= 0, c.ns <= 99, z3.Or(*c.has))
    if d == 3:
        E.assume(c.lz >= 2)
    var = files.Text([(c.has[i], v) for i, v in enumerate("XUPT")] + [(c.has[4], "S"), (c.has[4], files.IntP("%02d", c.ns))])
    h = header_text(132, "#std", ("int", w), ("int", c.lx), ("int", c.ly), ("int", c.lz), ("int", c.nel), ("int", c.nf),
                    ("real", c.time), ("int", c.istep), ("int", c.fid), ("int", c.nfiles), var)
    c.src = file_with_tag(E, "file", h, en)
    c.e = "<" if en == "little" else ">"
    EM, inv = z3.Function(E.name + "elmap", I, I), z3.Function(E.name + "elmap.inv", I, I)
    c.EM, c.inv = EM, inv
    loops.INVERSES[EM.name()] = (EM, inv)

    def over(dt, p):
        if dt == c.e + "i4":
            q = poly(sub(p, 136))
            if all((v / 4).denominator == 1 for v in q.values()):
                return EM(to_z(from_poly({m: v / 4 for m, v in q.items()})))

    c.src.over = over
    k = z3.Int(E.name + "pre!k")
    inside = z3.And(k >= 0, k < c.nf)
    lo = 0 if zero else 1
    E.assume(z3.ForAll([k], z3.Implies(inside, z3.And(EM(k) >= lo, EM(k) <= c.nel, inv(EM(k)) == k)), patterns=[EM(k)]))
    if zero:
        k0 = E.fresh_int("k0", c.nf)
        E.assume(EM(k0) == 0)
    n = [ite(c.has[0], d, 0), ite(c.has[1], d, 0), ite(c.has[2], 1, 0), ite(c.has[3], 1, 0), ite(c.has[4], c.ns, 0)]
    c.n = n
    c.npts = mul(mul(c.lx, c.ly), c.lz)
    c.zero = zero
    off, c.off = add(136, mul(4, c.nf)), []
    for v in range(5):
        c.off.append(off)
        off = add(off, mul(mul(mul(c.nf, n[v]), c.npts), w))
    c.dt = c.e + ("f4" if w == 4 else "f8")
    return c


def number(c, v, k, comp, z, y, x):
    """the stored number of file element k"""
    lin = add(x, mul(c.lx, add(y, mul(c.ly, z))))
    blk = add(mul(comp, c.nf), k) if v == 4 else add(mul(k, c.n[v]), comp)
    return c.src.num(c.dt, add(c.off[v], mul(c.w, add(mul(blk, c.npts), lin))))


def header_post(E, c, r, dt="float64"):
    st = r.st
    m = r.value
    at = lambda n: E.attr(st, m, n)
    E.eq("dimension", at("ndim"), c.d, st)
    E.eq("element count", at("nel"), c.nel, st)
    E.eq("number of elements", E.nelem(st, m), c.nel, st)
    E.eq("time", at("time"), files.round_fn(14)(c.time), st)
    E.eq("step", at("istep"), c.istep, st)
    E.eq("word size", at("wdsz"), c.w, st)
    E.eq("byte order", at("endian"), c.en, st)
    for i, (n, x) in enumerate((("lx", c.lx), ("ly", c.ly), ("lz", c.lz))):
        E.eq("order " + n, E.item(st, at("lr1"), i), x, st)
    for i, n in enumerate(NAMES):
        E.eq("number of values of " + n, E.item(st, at("var"), i), c.n[i], st)
    em = at("elmap")
    k = E.fresh_int("k", c.nf)
    E.eq("length of the element order", em.shape[0], c.nf, st)
    E.eq("element order", E.arr(st, em, k), c.EM(k), st)


def values(E, c, r, dt="float64", skipped=None):
    st, m = r.st, r.value
    k = E.fresh_int("k", c.nf)
    z, y, x = E.fresh_int("iz", c.lz), E.fresh_int("iy", c.ly), E.fresh_int("ix", c.lx)
    e_in = k if c.zero else sub(c.EM(k), 1)
    e_out = E.fresh_int("e", c.nel)
    q = z3.Int("q!any")
    if c.zero:
        absent = e_out >= c.nf
    else:
        absent = z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < c.nf), c.EM(q) != e_out + 1), patterns=[c.EM(q)])
    for v in range(5):
        n = c.n[v]
        E.eq(f"{FIELD[v]}: number of components", E.fieldshape(st, m, e_out, FIELD[v])[0], 3 if v < 2 else n, st)
        for a, b in zip(E.fieldshape(st, m, e_out, FIELD[v])[1:], (c.lz, c.ly, c.lx)):
            E.eq(f"{FIELD[v]}: points", a, b, st)
        comps = [0, 1, 2] if v < 2 else [E.fresh_int("c", n)]
        for j in comps:
            nm = f"{FIELD[v]}[{j if isinstance(j, int) else 'c'}]"
            got = E.cell(st, m, e_in, FIELD[v], j, z, y, x)
            want = number(c, v, k, j, z, y, x)
            if dt == "float32":
                want = round4(want)
            sk = skipped(v, j) if skipped else False
            stored = c.has[v]
            if v < 2 and j >= c.d:
                E.eq(f"{nm}: absent component is zero", got, 0, st)
            else:
                if v < 2:
                    E.eq(f"{nm}: zero if the file has no such variable", got, 0, st, [z3.Not(stored)])
                E.eq(f"{nm}: the stored number", got, want, st, [stored, lnot(sk)])
                if skipped:
                    E.eq(f"{nm}: a skipped variable is zero", got, 0, st, [stored, sk])
            E.eq(f"{nm}: elements that are not in the file stay zero", E.cell(st, m, e_out, FIELD[v], j, z, y, x), 0, st, [absent])


def read(E, d, en, w, dt, zero):
    c = setup(E, d, en, w, zero)
    r = E.call("pymech.neksuite.field", "readnek", "file0.f00001", *([] if dt == "float64" else [dt]))
    E.never_raises("readnek", r)
    header_post(E, c, r)
    values(E, c, r, dt)


def wrong(E):
    c = setup(E, 3, "little", 8)
    c.src.tags = {}
    wrong_tag(E, c.src)
    r = E.call("pymech.neksuite.field", "readnek", "file0.f00001")
    E.raises_iff("wrong tag", r, True)


def short(E, m):
    h = header_text(132, *["#std"] * min(m, 1), *[("int", E.int(f"tok{i}")) for i in range(max(m - 1, 0))])
    file_with_tag(E, "file", h, "little")
    r = E.call("pymech.neksuite.field", "readnek", "file0.f00001")
    E.raises_iff("short header", r, True, ("IOError", "OSError", "ValueError"))
