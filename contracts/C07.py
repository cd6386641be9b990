"""C07: readrea(writerea(mesh)) returns the mesh to the printed precision."""
from api import *
import files
from heap import FieldC, InstC
import lines
import npmodel as N

ASSUMPTIONS = [
    "precondition: a consistent mesh (number of curved sides, own element and face numbers in its conditions, empty conditions without parameters, connections 'E' with the number of an element), fewer than 10^10 elements",
    "precondition: condition names of at most 3 and curvature types of at most 2 characters, without blanks; printed numbers have exponents of two digits",
    "printing a real with p digits after the point and parsing it is an arbitrary function that rounds to p+1 digits: it returns zero for zero only and returns integers of at most p+1 digits exactly",
    "trusted lemma: the list of the pairs that satisfy a condition enumerates each such pair once",
    "contracts of open/readline/write/seek, str.split/strip/format, int/float of printed numbers; a line never contains a newline but at its end",
]
BOUNDED = "the number of boundary condition fields: 0 to 3 are proved for all inputs (all layouts with 1; 0, 2 and 3 in one layout per dimension, all in the thorough tier), other numbers are sampled"
MOD = "pymech.neksuite.mesh"
LAYOUT = {"below 1000": (1, 999), "below a million": (1000, 999999), "from a million on": (10**6, 10**10 - 2)}


def prove(col):
    for d in (2, 3):
        for i, lay in enumerate(LAYOUT):
            for nbc in (0, 1, 2, 3):
                if nbc == 1 or col.tier != "quick" or (d, i, nbc) in ((2, 1, 0), (3, 0, 0), (2, 0, 2), (3, 1, 2), (3, 2, 3)):
                    col.case(f"{d}D, {lay}, {nbc} field(s)", lambda E, a=(d, lay, nbc): roundtrip(E, *a))


def setup(E, d, lay, nbc):
    lo, hi = LAYOUT[lay]
    nel = E.int("nel")
    E.assume(nel >= lo, nel <= hi)
    m = E.mesh("m", d, nel, [2, 2, d - 1], [d, 0, 0, 0, 0], nbc)
    st = E.st
    k = z3.Int("e!sum")
    cnt = 0
    for f in range(12):
        cnt = add(cnt, ite(lnot(cmp("==", E.cell(st, m, k, "ccurv", f), "")), 1, 0))
    c = st.heap[m.oid]
    st.heap[m.oid] = InstC(c.cls, {**c.attrs, "ncurv": lines.canonical_sum(N.sum_term(cnt, k, nel))})
    # a consistent mesh: own numbers and parameters of the conditions
    rid = st.heap[E.attr(st, m, "elem").oid].rid
    old = st.heap[(rid, "bcs")]

    def bcs(e, b, f, c):
        v = old.fn(e, b, f, c)
        if c == 0:
            return v
        name = old.fn(e, b, f, 0)
        empty = to_z(cmp("==", name, ""))
        if c < 3:
            return z3.If(empty, v, to_z(add((e, f)[c - 1], 1)))
        if c == 3:
            v = z3.If(to_z(cmp("==", name, "E")), z3.If(to_z(v) >= 1, to_z(v), z3.RealVal(1)), to_z(v))
        return z3.If(empty, z3.RealVal(0), to_z(v))

    st.heap[(rid, "bcs")] = FieldC("array", old.shapefn, old.dtype, bcs)
    return m, nel


def printed(v, x):
    """v is x printed with at least 7 significant digits"""
    v, x = to_z(to_real(v)), to_z(to_real(x))
    return z3.Or([v == x] + [v == files.round_fn(p)(x) for p in range(7, 18)])


def roundtrip(E, d, lay, nbc):
    E.I.decide_ms = 500  # branches that are left open cost time only
    m, nel = setup(E, d, lay, nbc)
    st0 = E.st
    out = []

    def writing(I_, st, f, mode):
        if mode == "w":
            out.append(lines.new_text_output(I_, st))
            return out[-1]

    E.I.open_hook = writing
    r = E.call(MOD, "writerea", "mesh.rea", m)
    E.never_raises("writing", r)
    if len(out) != 1:
        raise Unsupported("one text file is not opened exactly once")
    E.frame("writing changes nothing", m, st0, m, r.st)
    c = r.st.heap[r.st.heap[out[0].oid].attrs["%lines"].oid]
    if not isinstance(c, lines.LinesC):
        raise Unsupported(getattr(c, "why", "file"))
    segs = c.segments()
    E.st = r.st
    E.I.open_hook = lambda I_, st, f, mode: lines.open_text(I_, st, segs) if mode in ("r", "rt") else None
    q = E.call(MOD, "readrea", "mesh.rea")
    E.never_raises("reading", q)
    st, g = q.st, q.value
    at = lambda n: E.attr(st, g, n)
    E.eq("dimension", at("ndim"), d, st)
    E.eq("element count", at("nel"), nel, st)
    E.eq("number of elements", E.nelem(st, g), nel, st)
    E.eq("count of curved sides", at("ncurv"), E.attr(st0, m, "ncurv"), st)
    E.eq("fields", at("nbc"), nbc, st)
    for i, n in enumerate([2, 2, d - 1]):
        E.eq(f"points in direction {i}", E.item(st, at("lr1"), i), n, st)
    for i in range(5):
        E.eq(f"variable count {i}", E.item(st, at("var"), i), d if i == 0 else 0, st)
    k = E.fresh_int("e", nel)
    for c in range(d):
        for z in range(d - 1):
            for y in range(2):
                for x in range(2):
                    E.prove(f"coordinate {c} of vertex {z}{y}{x}", printed(E.cell(st, g, k, "pos", c, z, y, x), E.cell(st0, m, k, "pos", c, z, y, x)), st)
    for f in range(12):
        t = E.cell(st0, m, k, "ccurv", f)
        has = lnot(cmp("==", t, ""))
        E.eq(f"edge {f + 1}: curvature type", E.cell(st, g, k, "ccurv", f), t, st)
        for c in range(5):
            v = E.cell(st, g, k, "curv", f, c)
            E.prove(f"edge {f + 1}: curvature parameter {c}", printed(v, E.cell(st0, m, k, "curv", f, c)), st, [to_z(has)])
            E.prove(f"edge {f + 1}: no curvature parameter {c}", to_z(v) == 0, st, [z3.Not(to_z(has))])
    x = z3.Real("round!x")
    zero = [z3.ForAll([x], (files.round_fn(p)(x) == 0) == (x == 0), patterns=[files.round_fn(p)(x)]) for p in (7, 12)]
    exact = zero + [z3.ForAll([x], z3.Implies(z3.And(z3.IsInt(x), x >= 0, x < 10**p), files.round_fn(p)(x) == x), patterns=[files.round_fn(p)(x)]) for p in (7, 12)]
    for b in range(nbc):
        for f in range(2 * d):
            t = E.cell(st0, m, k, "bcs", b, f, 0)
            has = to_z(lnot(cmp("==", t, "")))
            n = f"field {b + 1}, face {f + 1}: "
            new = lambda c: E.cell(st, g, k, "bcs", b, f, c)
            E.prove(n + "type", to_z(cmp("==", new(0), t)), st, zero)
            E.prove(n + "element", to_z(new(1)) == z3.If(has, k + 1, 0), st, zero)
            E.prove(n + "face", to_z(new(2)) == z3.If(has, z3.IntVal(f + 1), 0), st, zero)
            for c in range(3, 8):
                E.prove(n + f"parameter {c}", printed(new(c), E.cell(st0, m, k, "bcs", b, f, c)), st, zero)
            old = to_z(E.cell(st0, m, k, "bcs", b, f, 3))
            E.prove(n + "number of the connected element", to_z(to_real(new(3))) == old, st, exact + [z3.IsInt(old), old >= 0, old <= nel])
