"""C12: merging appends the other mesh and connects exactly the coinciding eligible faces."""
from api import *
import C15
import C19
import spec

ASSUMPTIONS = C19.ASSUMPTIONS + [
    "32-bit numbers do not overflow",
    "the search is verified against the contracts of face_center and smallest_edge, discharged in the cases taken over from C19",
    "precondition of the proof: every eligible face coincides with at most one eligible face of the other mesh; where two periodic faces coincide, each one's partner is a periodic face of its own mesh that has it as partner and does not coincide with a face of the other mesh itself",
]
BOUNDED = "periodic faces whose partners are joined as well, and chains of merges, are evaluated on generated meshes only"


def prove(col):
    for d in (2, 3):
        for ig in (True, False):
            col.case(f"joining, {d}D, ignore_empty={ig}", lambda E, d=d, ig=ig: joined(E, d, ig))
        for nm, ignore, which in (("conditions ignored", True, 0), ("no conditions", False, 1), ("no conditions in the other mesh", False, 2)):
            col.case(f"{nm}, {d}D", lambda E, d=d, i=ignore, w=which: plain(E, d, i, w))
        col.case(f"other order, {d}D", lambda E, d=d: refuse(E, d, d))
    col.case("other dimension", lambda E: refuse(E, 2, 3))
    for f in range(6):
        col.case(f"face centre {f + 1}", lambda E, f=f: C19.face(E, f))
    for d3 in (False, True):
        col.case("shortest edge in " + ("3D" if d3 else "2D"), lambda E, d3=d3: C19.shortest(E, d3))


def meshes(E, d, d2=None, same=True, nbc=1):
    lr1 = [E.int("lx"), E.int("ly"), E.int("lz")]
    lr2 = lr1 if same else [E.int("lx2"), E.int("ly2"), E.int("lz2")]
    var = [E.int(f"var{i}") for i in range(5)]
    n1, n2, c1, c2 = E.int("nel1"), E.int("nel2"), E.int("nbc1"), E.int("nbc2")
    E.assume(n1 >= 1, n2 >= 1, c1 >= nbc, c2 >= nbc, *[x >= 1 for x in lr1 + lr2], *[v >= 0 for v in var])
    return E.mesh("a", d, n1, lr1, var, c1), E.mesh("b", d if d2 is None else d2, n2, lr2, var, c2), n1, n2, c1, c2


def refuse(E, d, d2):
    a, b, n1, n2, c1, c2 = meshes(E, d, d2, False, 0)
    st0 = E.st
    if d == d2:
        E.assume(cmp("!=", E.item(st0, E.attr(st0, a, "lr1"), 0), E.item(st0, E.attr(st0, b, "lr1"), 0)))
    r = E.call("pymech.core", "HexaData.merge", a, b)
    E.raises_iff("merging", r, True)


def appended(E, a, b, n1, n2, st):
    """everything but the conditions"""
    st0 = E.st
    e1, e2 = E.fresh_int("e", n1), E.fresh_int("e", n2)
    E.eq("number of elements", E.attr(st, a, "nel"), n1 + n2, st)
    E.eq("length of the element list", E.nelem(st, a), n1 + n2, st)
    E.eq("count of curved sides", E.attr(st, a, "ncurv"), E.attr(st0, a, "ncurv") + E.attr(st0, b, "ncurv"), st)
    em, em1, em2 = E.attr(st, a, "elmap"), E.attr(st0, a, "elmap"), E.attr(st0, b, "elmap")
    E.eq("length of the element order", em.shape[0], n1 + n2, st)
    E.eq("element order of the first part", E.arr(st, em, e1), E.arr(st0, em1, e1), st)
    E.eq("element order of the second part", E.arr(st, em, n1 + e2), E.arr(st0, em2, e2) + n1, st)
    for f in ("pos", "vel", "pres", "temp", "scal", "curv", "ccurv"):
        E.same_field("own elements stay", f, a, st0, e1, a, st, e1)
        E.same_field("the other mesh's elements follow in order", f, b, st0, e2, a, st, n1 + e2)
    for at in ("ndim", "nbc", "time", "istep", "wdsz", "endian", "var", "lr1"):
        E.same_attr("metadata", at, a, st0, a, st)
    E.frame("the other mesh is untouched", b, st0, b, st)


def plain(E, d, ignore, which):
    """nothing to join"""
    a, b, n1, n2, c1, c2 = meshes(E, d, nbc=0)
    if which:
        E.assume([None, c1, c2][which] == 0)
    r = E.call("pymech.core", "HexaData.merge", a, b, ignore_all_bcs=ignore)
    E.never_raises("merging", r)
    E.eq("no joined pairs", r.value, 0, r.st)
    appended(E, a, b, n1, n2, r.st)
    B0 = old_bcs(E, a, b, n1, d)
    el = E.fresh_int("e", n1 + n2)
    bb, f = E.fresh_int("b", z3.If(el < n1, c1, c2)), E.fresh_int("f", 6)
    for c in range(8):
        E.eq(f"entry {c} of the conditions", E.cell(r.st, a, el, "bcs", bb, f, c), B0(el, bb, f, c), r.st)


def old_bcs(E, a, b, n1, d):
    """conditions after appending, before joining"""

    def fn(e, bb, f, c):
        x = E.cell(E.st, a, e, "bcs", bb, f, c)
        t = E.cell(E.st, b, sub(e, n1), "bcs", bb, f, 0)
        y = E.cell(E.st, b, sub(e, n1), "bcs", bb, f, c)
        used = cmp("<", f, 2 * d)
        if c == 1:
            y = ite(conj(used, cmp(">", y, 0)), add(y, n1), y)
        if c == 3:
            con = disj(cmp("==", t, "E"), cmp("==", t, "P"))
            y = ite(conj(used, con, cmp(">=", y, 1)), add(y, n1), y)
        return ite(cmp("<", e, n1), x, y)

    return fn


def joined(E, d, ig, pre=None, post=None):
    a, b, n1, n2, c1, c2 = meshes(E, d)
    if pre:
        pre(a, b, n1, n2, c1, c2)
    nf = 2 * d
    st0 = E.st

    pos = lambda e, *i: ite(cmp("<", e, n1), E.cell(st0, a, e, "pos", *i), E.cell(st0, b, sub(e, n1), "pos", *i))
    FC, SE = C15.callee_contracts(E, pos)
    tol = E.real("tol")
    B0 = old_bcs(E, a, b, n1, d)
    nbc = z3.If(c2 < c1, c2, c1)
    P = E.name
    has_ = z3.Function(P + "has", I, I, B)
    pe_, pf_ = z3.Function(P + "pe", I, I, I), z3.Function(P + "pf", I, I, I)
    mm = z3.Function(P + "match", I, I, I, I, B)
    cn = z3.Function(P + "count", I, I, I)
    has, pe, pf = (lambda e, f, F=F: F(to_z(e), to_z(f)) for F in (has_, pe_, pf_))

    def elig(e, f):
        t = B0(e, 0, f, 0)
        n = z3.Not(to_z(cmp("==", t, "E")))
        return z3.And(n, z3.Not(to_z(cmp("==", t, "")))) if ig else n

    # partners of joined periodic faces, and back
    ke, kf, be, bf = (lambda e, f, F=z3.Function(P + nm, I, I, I): F(to_z(e), to_z(f)) for nm in ("ke", "kf", "be", "bf"))
    pp = lambda e, f: z3.And(has(e, f), isP(e, f), isP(pe(e, f), pf(e, f)))

    def former(e, f):
        """the face is the former partner of a joined periodic face"""
        x, y = be(e, f), bf(e, f)
        return z3.And(z3.Not(has(e, f)), pp(x, y), ke(x, y) == to_z(e), kf(x, y) == to_z(f))

    def partner(e, f):
        x, y = be(e, f), bf(e, f)
        w = pe(x, y), pf(x, y)
        return ke(*w), kf(*w)

    isP = lambda e, f: to_z(cmp("==", B0(e, 0, f, 0), "P"))
    inside = lambda e, f: z3.And(to_z(e) >= 0, e < n1 + n2, to_z(f) >= 0, f < nf)

    # the precondition, instantiated where it is used
    def pairs(e, f):
        """about the face (e, f)"""
        e, f = to_z(e), to_z(f)
        return z3.Implies(has(e, f), z3.And(
            inside(e, f), inside(pe(e, f), pf(e, f)), (e < n1) == (pe(e, f) >= n1), elig(e, f), has(pe(e, f), pf(e, f)),
            z3.Implies(pp(e, f), z3.And(
                to_z(B0(e, 0, f, 3)) == z3.ToReal(ke(e, f) + 1), to_z(B0(e, 0, f, 4)) == z3.ToReal(kf(e, f) + 1),
                to_int(B0(e, 0, f, 3)) == ke(e, f) + 1, to_int(B0(e, 0, f, 4)) == kf(e, f) + 1,
                inside(ke(e, f), kf(e, f)), (e < n1) == (ke(e, f) < n1), z3.Not(has(ke(e, f), kf(e, f))), isP(ke(e, f), kf(e, f)),
                be(ke(e, f), kf(e, f)) == e, bf(ke(e, f), kf(e, f)) == f)),
            pe(pe(e, f), pf(e, f)) == e, pf(pe(e, f), pf(e, f)) == f))

    def unique(e, f, g, h):
        """about the coincidence of (e, f) in the second part with (g, h) in the first"""
        e, f, g, h = (to_z(x) for x in (e, f, g, h))
        return z3.Implies(z3.And(inside(e, f), inside(g, h), g < n1, n1 <= e, elig(e, f), elig(g, h)), z3.And(
            mm(e, f, g, h) == z3.And(has(e, f), pe(e, f) == g, pf(e, f) == h),
            mm(e, f, g, h) == z3.And(has(g, h), pe(g, h) == e, pf(g, h) == f)))

    def around(e, f):
        b, p = (be(e, f), bf(e, f)), (pe(e, f), pf(e, f))
        return [pairs(e, f), pairs(*p), pairs(*b), pairs(pe(*b), pf(*b)), pairs(ke(e, f), kf(e, f))]

    def match(e, f, g, h):
        x, y = FC(e, f), FC(g, h)
        s = 0
        for p, q in zip(x, y):
            s = add(s, mul(sub(q, p), sub(q, p)))
        p, q = SE(e), SE(g)
        return mm(*[to_z(x) for x in (e, f, g, h)]) == (SQRT(s) <= tol * z3.If(q < p, q, p))

    less = lambda p, q: z3.Or(to_z(p[0]) < to_z(q[0]), z3.And(to_z(p[0]) == to_z(q[0]), to_z(p[1]) < to_z(q[1])))
    same = lambda p, q: z3.And(to_z(p[0]) == to_z(q[0]), to_z(p[1]) == to_z(q[1]))

    def done(q, s, e, f):
        e, f = to_z(e), to_z(f)
        p = (pe(e, f), pf(e, f))
        new = (z3.If(e < n1, p[0], e), z3.If(e < n1, p[1], f))
        old = (z3.If(e < n1, e, p[0]), z3.If(e < n1, f, p[1]))
        return z3.And(has(e, f), z3.Or(less(new, q), z3.And(same(new, q), less(old, s))))

    def value(cond, old):
        def fn(e, bb, f, c):
            if c not in (0, 3, 4):
                return old(e, bb, f, c)
            v = {0: "E", 3: to_real(add(pe(e, f), 1)), 4: to_real(add(pf(e, f), 1))}[c]
            k = partner(e, f)
            v2 = {0: "P", 3: to_real(add(k[0], 1)), 4: to_real(add(k[1], 1))}[c]
            o = old(e, bb, f, c)
            return ite(True if type(bb) is int and bb == 0 else to_z(bb) < nbc, ite(cond(e, f), v, ite(z3.And(former(e, f), cond(be(e, f), bf(e, f))), v2, o)), o)

        return fn

    ctx = {}

    def closed(q, s):
        n = add(cn(to_z(q[0]), to_z(q[1])), z3.If(z3.And(has(*q), less((pe(*q), pf(*q)), s)), 1, 0))
        return [(("field", ctx["rid"], "bcs"), value(lambda e, f: done(q, s, e, f), ctx["old"])), (("var", "nchanges"), n)]

    def step(q):
        e, f = to_z(q[0]), to_z(q[1])
        return [cn(n1, 0) == 0, cn(e, f + 1) == cn(e, f) + z3.If(has(e, f), 1, 0), cn(e, nf) == cn(e + 1, 0),
                pairs(e, f), pairs(e, f + 1), pairs(e + 1, 0), pairs(n1, 0)]

    def con(*k, **kw):
        c = spec.Contract(*k, **kw)
        c.limits = lambda loc, idx: [cmp("<", idx[0], n1 + n2)]
        c.cell = lambda loc, idx: around(idx[0], idx[2])
        return c

    def loop1(V, axes):
        el = E.attr(V.st, a, "elem")
        ctx["rid"] = V.st.heap[el.oid].rid
        ctx["old"] = B0
        return con(lambda p: closed((add(n1, p[0]), p[1]), (0, 0)), defs=lambda p: step((add(n1, p[0]), p[1])), here=lambda p: around(add(n1, p[0]), p[1]))

    def loop2(V, axes):
        q = (V.var("iel0"), V.var("iface0"))
        c = con(lambda p: closed(q, p), defs=lambda p: step(q), here=lambda p: [match(*q, *p), unique(*q, *p)] + around(*q) + around(*p))

        def splits(p, loc, i):
            if loc[0] != "field":
                return []
            x = (i[0], i[2])
            now = z3.And(pp(*q), same((pe(*q), pf(*q)), p))
            k, l = same(x, (ke(*q), kf(*q))), same(x, (ke(*p), kf(*p)))
            return [same(x, q), same(x, p), z3.And(now, k), z3.And(now, l), z3.Or(k, l), now]

        c.splits = splits
        return c

    E.I.loop_contracts.update({"(iel0, iface0)": loop1, "(iel1, iface1)": loop2})
    r = E.call("pymech.core", "HexaData.merge", a, b, tol=tol, ignore_empty=ig)
    E.never_raises("merging", r)
    st = r.st
    if post:
        return post(a, b, n1, n2, st)
    appended(E, a, b, n1, n2, st)
    el = E.fresh_int("e", n1 + n2)
    bb, f = E.fresh_int("b", z3.If(el < n1, c1, c2)), E.fresh_int("f", 6)
    old = lambda c: B0(el, bb, f, c)
    new = lambda c: E.cell(st, a, el, "bcs", bb, f, c)
    join = z3.And(has(el, f), bb < nbc)
    E.assume(*around(el, f))
    for c in range(8):
        if c in (0, 3, 4):
            v = {0: "E", 3: to_real(add(pe(el, f), 1)), 4: to_real(add(pf(el, f), 1))}[c]
            E.eq(f"entry {c} of a joined face", new(c), v, st, [join])
            k = partner(el, f)
            v = {0: "P", 3: to_real(add(k[0], 1)), 4: to_real(add(k[1], 1))}[c]
            E.eq(f"entry {c} of the former partner of a joined periodic face", new(c), v, st, [former(el, f), bb < nbc])
            E.eq(f"entry {c} of any other face", new(c), old(c), st, [z3.Not(join), z3.Not(z3.And(former(el, f), bb < nbc))])
        else:
            E.eq(f"entry {c} of the conditions", new(c), old(c), st)
    E.eq("number of joined pairs", r.value, cn(to_z(n1 + n2), 0), st)
