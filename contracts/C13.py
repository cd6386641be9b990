"""C13: keep_elements leaves exactly the chosen elements, renumbered."""
from api import *
from npmodel import sum_term

ASSUMPTIONS = [
    "precondition: the set of elements is given as distinct non-negative numbers, and internal and periodic conditions name existing elements",
    "sorting a permutation of a strictly increasing sequence gives that sequence (contract of numpy's sort)",
    "floating point arithmetic is treated as real arithmetic; 32-bit element numbers do not overflow",
]
R_ = z3.ToReal


def prove(col):
    for d in (2, 3):
        for given in (True, False):
            for kind in ("array", "list") if d == 2 and given else ("array",):
                col.case(f"{d}D, {'given' if given else 'default'} outer condition, {kind} of numbers", lambda E, d=d, g=given, k=kind: keep(E, d, g, k))
    col.case("refusal", refuse)


def setup(E, d, kind):
    nel, nbc, n = E.int("nel"), E.int("nbc"), E.int("n")
    var = [E.int(f"var{i}") for i in range(5)]
    lr1 = [E.int("lx"), E.int("ly"), E.int("lz")]
    E.assume(nel >= 1, nbc >= 0, n >= 1, *[v >= 0 for v in var], *[x >= 1 for x in lr1])
    m = E.mesh("m", d, nel, lr1, var, nbc)
    S, P = E.increasing("S", n)
    get = lambda i: S(P(to_z(i)))
    elems = E.array((n,), "i8", get) if kind == "array" else E.slist(n, get)
    e, b = z3.Int(E.name + "pre!e"), z3.Int(E.name + "pre!b")
    for f in range(2 * d):
        t, c3 = E.cell(E.st, m, e, "bcs", b, f, 0), E.cell(E.st, m, e, "bcs", b, f, 3)
        con = z3.Or(to_z(cmp("==", t, "E")), to_z(cmp("==", t, "P")))
        E.assume(z3.ForAll([e, b], z3.Implies(z3.And(e >= 0, e < nel, b >= 0, b < nbc, con), z3.And(z3.ToReal(z3.ToInt(c3)) == c3, c3 >= 1, c3 <= R_(nel))), patterns=[c3]))
    return m, nel, nbc, n, S, elems


def keep(E, d, given, kind):
    m, nel, nbc, n, S, elems = setup(E, d, kind)
    ext = E.str("external")
    i = z3.Int(E.name + "pre!i")
    E.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), S(i) < nel), patterns=[S(i)]))
    args = [ext] if given else []
    if not given:
        ext = ""
    st0 = E.st
    r = E.call("pymech.meshtools", "keep_elements", m, elems, *args)
    E.never_raises("reduction", r)
    st = r.st
    E.eq("number of elements", E.attr(st, m, "nel"), n, st)
    E.eq("length of the element list", E.nelem(st, m), n, st)
    em = E.attr(st, m, "elmap")
    k, b = E.fresh_int("k", n), E.fresh_int("b", nbc)
    E.eq("length of the element order", em.shape[0], n, st)
    E.eq("element order", E.arr(st, em, k), k + 1, st)
    old = lambda f, c: E.cell(st0, m, S(k), "bcs", b, f, c)
    new = lambda f, c: E.cell(st, m, k, "bcs", b, f, c)
    eq = lambda n, a, v, hyp=(): E.prove(n, cmp("==", a, v), st, hyp)
    for f in ("pos", "curv", "ccurv", "vel", "pres", "temp", "scal"):
        E.same_field("kept element", f, m, st0, S(k), m, st, k)
    j = E.fresh_int("j", n)
    q = z3.Int("q!any")
    for f in range(6):
        nm = f"face {f + 1}"
        if f >= 2 * d:
            for c in range(8):
                eq(f"{nm}: entry {c} stays", new(f, c), old(f, c))
            continue
        t = old(f, 0)
        con = z3.Or(to_z(cmp("==", t, "E")), to_z(cmp("==", t, "P")))
        p = old(f, 3) - 1
        to_kept = [con, p == R_(S(j))]
        gone = [con, z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < n), R_(S(q)) != p), patterns=[S(q)])]
        eq(f"{nm}: element number", new(f, 1), k + 1)
        eq(f"{nm}: face number stays", new(f, 2), old(f, 2))
        eq(f"{nm}: connection between kept elements stays", new(f, 0), t, to_kept)
        eq(f"{nm}: still leads to the same element", new(f, 3), j + 1, to_kept)
        eq(f"{nm}: still leads to the same face", new(f, 4), old(f, 4), to_kept)
        eq(f"{nm}: connection to a removed element gets the outer condition", new(f, 0), ext, gone)
        eq(f"{nm}: connection to a removed element loses its target", new(f, 3), 0, gone)
        eq(f"{nm}: connection to a removed element loses its face", new(f, 4), 0, gone)
        for c in (0, 3, 4):
            eq(f"{nm}: entry {c} of any other condition", new(f, c), old(f, c), [z3.Not(con)])
        for c in (5, 6, 7):
            eq(f"{nm}: entry {c} stays", new(f, c), old(f, c))
    cnt, e2 = 0, z3.Int("e!sum")
    for g in range(12):
        cnt = add(cnt, ite(lnot(cmp("==", E.cell(st0, m, S(e2), "ccurv", g), "")), 1, 0))
    E.eq("count of curved sides", E.attr(st, m, "ncurv"), sum_term(cnt, e2, n), st)
    for at in ("ndim", "nbc", "time", "istep", "wdsz", "endian", "var", "lr1"):
        E.same_attr("metadata", at, m, st0, m, st)
    if kind == "array":
        E.prove("the given array of numbers is unchanged", cmp("==", E.arr(st, elems, k), E.arr(st0, elems, k)), st)


def refuse(E):
    m, nel, nbc, n, S, elems = setup(E, 2, "array")
    r = E.call("pymech.meshtools", "keep_elements", m, elems)
    i = z3.Int("i!q")
    E.raises_iff("reduction", r, z3.Exists([i], z3.And(i >= 0, i < n, S(i) >= nel)))
