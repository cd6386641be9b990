"""C01: readnek(writenek(data)) returns data.

The file that is read is the file that was written: the number of element order position k, component c and grid point
(z, y, x) of each variable is at the offset that the pieces written before it add up to (this is what C02 proves about
the pieces, repeated here as obligations), and C03's reader is run on that file."""
from api import *
import C02
import C05
import files
import loops

ASSUMPTIONS = C02.ASSUMPTIONS + ["precondition: the element order is a permutation of 1..nel", "the bytes of a file are the bytes of the pieces written, in order"]
MOD = "pymech.neksuite.field"


def prove(col):
    for d in (2, 3):
        for en in ("little", "big"):
            for w in (4, 8):
                col.case(f"{d}D, {en} endian, word size {w}", lambda E, a=(d, en, w, "f8"): roundtrip(E, *a))
    col.case("2D, big endian, word size 8, f4 arrays", lambda E: roundtrip(E, 2, "big", 8, "f4"))
    col.case("3D, little endian, word size 4, f4 arrays", lambda E: roundtrip(E, 3, "little", 4, "f4"))


def roundtrip(E, d, en, w, dt):
    v, m, lr1 = C02.setup(E, d, en, w, dt)
    st0 = E.st
    nel = v["nel"]
    # the element order is a permutation
    em = E.attr(st0, m, "elmap")
    k = z3.Int(E.name + "pre!k")
    F = to_z(E.arr(st0, em, k)).decl()
    inv = z3.Function(E.name + "elmap.inv", I, I)
    loops.INVERSES[F.name()] = (F, inv)
    E.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < nel), inv(F(k)) == k), patterns=[F(k)]))
    j = z3.Int(E.name + "pre!j")
    E.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 1, j <= nel), z3.And(F(inv(j)) == j, inv(j) >= 0, inv(j) < nel)), patterns=[inv(j)]))
    # write
    out = output_file(E)
    r = E.call(MOD, "writenek", "file0.f00001", m)
    E.never_raises("writing", r)
    if len(out) != 1:
        raise Unsupported("one file is not opened exactly once")
    ps = parts_of(E, r.st, out[0])
    exp = C02.expected(E, st0, m, v, d, en, w, lr1)
    if not ps or ps[0].kind != "text" or len(ps) - 1 != len(exp):
        raise Unsupported("the pieces of the file do not correspond one to one to the parts of the layout")
    E.eq("size of the header", ps[0].n, 132, r.st)
    off = {}
    o = 132
    for p, (n, t, ax, fn) in zip(ps[1:], exp):
        same_stream(E, "written " + n, r.st, p, t, ax, fn)
        off[n] = (o, t, ax, fn)
        o = add(o, mul(int(t[2]), N.prod_terms(ax)))
    # read
    E.st = r.st
    src = file_with_tag(E, "file", ps[0].text, en)
    src.text.size = 132
    e = "<" if en == "little" else ">"

    def over(dt_, p):
        if dt_ == e + "i4":
            q = poly(sub(p, 136))
            if all((x / 4).denominator == 1 for x in q.values()):
                return F(to_z(from_poly({m_: x / 4 for m_, x in q.items()})))

    src.over = over
    q = E.call(MOD, "readnek", "file0.f00001")
    E.never_raises("reading", q)
    st, g = q.st, q.value
    at = lambda n: E.attr(st, g, n)
    for n in ("ndim", "nel", "istep", "wdsz", "endian"):
        E.eq(n, at(n), E.attr(st0, m, n), st)
    E.eq("time to 14 digits", at("time"), files.round_fn(14)(v["time"]), st)
    E.eq("number of elements", E.nelem(st, g), nel, st)
    for i in range(3):
        E.eq(f"order {i}", E.item(st, at("lr1"), i), lr1[i], st)
    for i in range(5):
        E.eq(f"variable count {i}", E.item(st, at("var"), i), v["nb"][i], st)
    kk = E.fresh_int("k", nel)
    E.eq("length of the element order", at("elmap").shape[0], nel, st)
    E.eq("element order", E.arr(st, at("elmap"), kk), F(kk), st)
    el = E.fresh_int("e", nel)
    idx = [E.fresh_int("i" + n, lr1[2 - i]) for i, n in enumerate("zyx")]
    for i, f in enumerate(C02.FIELD):
        o, t, ax, fn = off[f]
        for c in ([0, 1, 2][:d] if i < 2 else [E.fresh_int("c", v["nb"][i])]):
            k0 = inv(el + 1)
            ix = ([c, k0] if i == 4 else [k0, c]) + idx
            flat = 0
            for a, n in zip(ix, ax):
                flat = add(mul(flat, n), a)
            raw = src.num(t, add(o, mul(int(t[2]), flat)))
            fact = cmp("==", raw, fn(*ix))
            old = E.cell(st0, m, el, f, c, *idx)
            want = old if w == 8 else round4(old)
            E.eq(f"{f}[{c if isinstance(c, int) else 'c'}]: every value", E.cell(st, g, el, f, c, *idx), want, st, [v["has"][i], fact])
        E.eq(f"{f}: number of components", E.fieldshape(st, g, el, f)[0], 3 if i < 2 else v["nb"][i], st)
