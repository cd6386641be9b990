"""C06: readre2(writere2(mesh)) returns the mesh."""
from api import *
import files
import npmodel as N

ASSUMPTIONS = [
    "precondition: fewer than 10^8 elements (the header has 9 columns for the number); condition names of at most 3 characters "
    "without trailing blanks, curvature types of one character (all ASCII: one byte per character)",
    "identities of texts: a text padded to 8 bytes and stripped is the text; the first byte of a one-character text is the text",
    "trusted lemma: the list of the pairs that satisfy a condition enumerates each such pair once",
    "floating point values are treated as real numbers; a double holds every element and face number exactly",
    "contracts of open/read/write/split/int/struct, tofile, byteswap, frombuffer, tobytes, record arrays; the machine is little-endian",
]
BOUNDED = "the number of boundary condition fields: 2 (1 and 3 in the thorough tier) are proved for all inputs, other numbers are sampled"
MOD = "pymech.neksuite.mesh"


def prove(col):
    for d in (2, 3):
        for en in ("little", "big"):
            for nbc in (1, 2, 3) if (d, en) == (3, "big") and col.tier != "quick" else (2,):
                col.case(f"{d}D, {en} endian, {nbc} field(s)", lambda E, a=(d, en, nbc): roundtrip(E, *a))
        col.case(f"{d}D, refusals", lambda E, d=d: refuse(E, d))


def setup(E, d, en, nbc):
    nel = E.int("nel")
    E.assume(nel >= 1, nel < 10**8)
    m = E.mesh("m", d, nel, [2, 2, d - 1], [d, 0, 0, 0, 0], nbc, extra={"endian": en})
    k, f = z3.Int(E.name + "pre!e"), z3.Int(E.name + "pre!f")
    t = to_z(E.cell(E.st, m, k, "ccurv", f))
    E.assume(z3.ForAll([k, f], z3.Or(t == 0, files.FIRST(t) == t), patterns=[t]))
    return m, nel


def roundtrip(E, d, en, nbc):
    m, nel = setup(E, d, en, nbc)
    st0 = E.st
    out = output_file(E)
    r = E.call(MOD, "writere2", "mesh.re2", m)
    E.never_raises("writing", r)
    if len(out) != 1:
        raise Unsupported("one file is not opened exactly once")
    E.frame("writing changes nothing", m, st0, m, r.st)
    ps = parts_of(E, r.st, out[0])
    e = "<" if en == "little" else ">"
    same_stream(E, "tag", r.st, ps[1], e + "f4", [1], lambda i: round4(frac(6.54321)))
    E.eq("size of the header", ps[0].n, 80, r.st)
    E.st = r.st
    source_of(E, r.st, out[0], "file", en, 80)
    q = E.call(MOD, "readre2", "mesh.re2")
    E.never_raises("reading", q)
    st, g = q.st, q.value
    at = lambda n: E.attr(st, g, n)
    E.eq("dimension", at("ndim"), d, st)
    E.eq("element count", at("nel"), nel, st)
    E.eq("number of elements", E.nelem(st, g), nel, st)
    E.eq("endianness", at("endian"), en, st)
    E.eq("fields", at("nbc"), nbc, st)
    for i, n in enumerate([2, 2, d - 1]):
        E.eq(f"points in direction {i}", E.item(st, at("lr1"), i), n, st)
    for i in range(5):
        E.eq(f"variable count {i}", E.item(st, at("var"), i), d if i == 0 else 0, st)
    k = E.fresh_int("e", nel)
    for c in range(d):
        for z in range(d - 1):
            for y in range(2):
                for x in range(2):
                    E.eq(f"coordinate {c} of vertex {z}{y}{x}", E.cell(st, g, k, "pos", c, z, y, x), E.cell(st0, m, k, "pos", c, z, y, x), st)
    cnt, e2 = 0, z3.Int("e!sum")
    for f in range(12):
        t = E.cell(st0, m, k, "ccurv", f)
        has = lnot(cmp("==", t, ""))
        E.eq(f"edge {f + 1}: curvature type", E.cell(st, g, k, "ccurv", f), t, st)
        for c in range(5):
            E.eq(f"edge {f + 1}: curvature parameter {c}", E.cell(st, g, k, "curv", f, c), ite(has, E.cell(st0, m, k, "curv", f, c), 0), st)
    for f in range(12):
        cnt = add(cnt, ite(lnot(cmp("==", E.cell(st0, m, e2, "ccurv", f), "")), 1, 0))
    E.eq("count of curved sides", at("ncurv"), N.sum_term(cnt, e2, nel), st)
    for b in range(nbc):
        for f in range(6):
            t = E.cell(st0, m, k, "bcs", b, f, 0)
            has = conj(lnot(cmp("==", t, "")), lnot(cmp("==", t, "E")), f < 2 * d)
            n = f"field {b + 1}, face {f + 1}: "
            new = lambda c: E.cell(st, g, k, "bcs", b, f, c)
            E.eq(n + "type", new(0), ite(has, t, ""), st)
            E.eq(n + "element", new(1), ite(has, add(k, 1), 0), st)
            E.eq(n + "face", new(2), ite(has, f + 1, 0), st)
            for c in range(3, 8):
                E.eq(n + f"parameter {c}", new(c), ite(has, E.cell(st0, m, k, "bcs", b, f, c), 0), st)


def refuse(E, d):
    lr1 = [E.int(n) for n in ("lx", "ly", "lz")]
    E.assume(*[n >= 1 for n in lr1])
    E.assume(z3.Or(lr1[0] != 2, lr1[1] != 2, lr1[2] != d - 1))
    nel, nbc = E.int("nel"), E.int("nbc")
    E.assume(nel >= 0, nbc >= 0)
    m = E.mesh("m", d, nel, lr1, [d, 0, 0, 0, 0], nbc)
    out = output_file(E)
    r = E.call(MOD, "writere2", "mesh.re2", m)
    E.raises_iff("other than two points per direction", r, True)
    E.prove("nothing is written", not out, E.st)
