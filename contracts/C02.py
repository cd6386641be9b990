"""C02: writenek writes exactly the layout."""
from api import *
import C05
import files

ASSUMPTIONS = C05.ASSUMPTIONS + [
    "precondition: the element order names existing elements and is stored as 32-bit integers; the machine is little-endian",
    "contracts of tofile, astype, byteswap, numpy.min and numpy.max",
]
FIELD = ("pos", "vel", "pres", "temp", "scal")
MOD = "pymech.neksuite.field"


def prove(col):
    for d in (2, 3):
        for en in ("little", "big"):
            for w in (4, 8):
                for dt in ("f8", "f4") if (d, en) == (3, "big") else ("f8",):
                    col.case(f"{d}D, {en} endian, word size {w}, {dt} arrays", lambda E, a=(d, en, w, dt): layout(E, *a))
    col.case("other word size", refuse)


def setup(E, d, en, w, dt):
    v = C05.symbols(E, d)
    E.assume(v["nel"] >= 1, v["nel"] < 2**31)
    E.assume(v["istep"] >= 0)
    lr1 = [v["lx"], v["ly"], v["lz"]]
    m = E.mesh("m", d, v["nel"], lr1, list(v["nb"]), E.int("nbc"), dt=dt, extra={"wdsz": w, "endian": en, "time": v["time"], "istep": v["istep"]})
    k = z3.Int(E.name + "pre!k")
    em = E.attr(E.st, m, "elmap")
    ek = to_z(E.arr(E.st, em, k))
    E.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < v["nel"]), z3.And(ek >= 1, ek <= v["nel"])), patterns=[ek]))
    return v, m, lr1


def expected(E, st0, m, v, d, en, w, lr1):
    """the streams after the header: (name, type, axes, function)"""
    e = "<" if en == "little" else ">"
    nel, box = v["nel"], lr1[::-1]
    em = lambda k: E.arr(st0, E.attr(st0, m, "elmap"), k)
    out = [("tag", e + "f4", [1], lambda i: round4(frac(6.54321))), ("element order", e + "i4", [nel], em)]
    dt = e + ("f4" if w == 4 else "f8")
    conv = round4 if w == 4 else (lambda x: x)
    cell = lambda k, f, c, *i: E.cell(st0, m, sub(em(k), 1), f, c, *i)
    for i, f in enumerate(FIELD):
        n = v["nb"][i]
        if i < 4:
            out.append((f, dt, [nel, n] + box, lambda k, c, z, y, x, f=f: conv(cell(k, f, c, z, y, x))))
        else:
            out.append((f, dt, [n, nel] + box, lambda c, k, z, y, x, f=f: conv(cell(k, f, c, z, y, x))))
    if d == 3:
        for i, f in enumerate(FIELD):
            def mm(k, c, s, f=f):
                lo, hi = [N.reduction(E.I, q, lambda z, y, x: cell(k, f, c, z, y, x), box) for q in ("min", "max")]
                return ite(cmp("==", s, 0), round4(lo), round4(hi))
            out.append((f"minimum and maximum of {f}", e + "f4", [nel, v["nb"][i], 2], mm))
    return out


def layout(E, d, en, w, dt):
    v, m, lr1 = setup(E, d, en, w, dt)
    st0 = E.st
    out = output_file(E)
    r = E.call(MOD, "writenek", "file0.f00001", m)
    E.never_raises("writenek", r)
    st = r.st
    if len(out) != 1:
        raise Unsupported("one file is not opened exactly once")
    f = out[0]
    ps = parts_of(E, st, f)
    exp = expected(E, st0, m, v, d, en, w, lr1)
    size = 132
    for _, t, ax, _ in exp:
        size = add(size, mul(int(t[2]), N.prod_terms(ax)))
    E.eq("size of the file", total_size(E, st, f), size, st)
    E.frame("the data is unchanged", m, st0, m, st)
    if not ps or ps[0].kind != "text":
        raise Unsupported("the file does not start with a text")
    E.eq("size of the header", ps[0].n, 132, st)
    E.st = st
    src = files.Source("file", ps[0].text)
    h = E.call(MOD, "read_header", files.open_source(E.I, E.st, src))
    E.never_raises("parsing the header", h)
    want = dict(v, wdsz=z3.IntVal(w), nelf=v["nel"], fid=0, nfiles=1)
    C05.same(E, "header", want, d, h, files.round_fn(14)(v["time"]))
    if len(ps) - 1 != len(exp):
        raise Unsupported("the pieces of the file do not correspond one to one to the parts of the layout")
    for p, (n, t, ax, fn) in zip(ps[1:], exp):
        same_stream(E, n, st, p, t, ax, fn)


def refuse(E):
    v, m, lr1 = setup(E, 3, "little", 8, "f8")
    E.assume(v["wdsz"] != 4, v["wdsz"] != 8)
    output_file(E)
    E.I.setattr(m, "wdsz", v["wdsz"], E.st, ast.Name("contract", ast.Load()))
    ok = E.call(MOD, "writenek", "file0.f00001", m)
    E.raises_iff("word size", ok, True)
