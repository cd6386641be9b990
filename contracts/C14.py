"""C14: delete_internal_bcs empties exactly the internal conditions; generate_internal_bcs connects exactly the matching faces."""
from api import *
from npmodel import sum_term
from C16 import generic_mesh
import C15
import C19
import spec

ASSUMPTIONS = C19.ASSUMPTIONS + [
    "32-bit numbers do not overflow",
    "generation is verified against the contracts of face_center and smallest_edge, discharged in the cases taken over from C19",
    "precondition of generation: among the faces without a condition, each matches at most one face of another element (otherwise 'connected mutually' cannot hold)",
]


def prove(col):
    col.case("deletion", delete)
    for d in (2, 3):
        col.case(f"generation, {d}D", lambda E, d=d: generate(E, d))
    for f in range(6):
        col.case(f"face centre {f + 1}", lambda E, f=f: C19.face(E, f))
    for d3 in (False, True):
        col.case("shortest edge in " + ("3D" if d3 else "2D"), lambda E, d3=d3: C19.shortest(E, d3))


def delete(E):
    m, nel, lr1 = generic_mesh(E)
    st0 = E.st
    nbc = E.attr(st0, m, "nbc")
    r = E.call("pymech.meshtools", "delete_internal_bcs", m)
    E.never_raises("deletion", r)
    st = r.st
    e, b = E.fresh_int("e", nel), E.fresh_int("b", nbc)
    cnt, eq_, bq = 0, z3.Int("e!sum"), z3.Int("b!sum")
    for f in range(6):
        old = lambda c: E.cell(st0, m, e, "bcs", b, f, c)
        new = lambda c: E.cell(st, m, e, "bcs", b, f, c)
        internal = to_z(cmp("==", old(0), "E"))
        for c in range(8):
            E.eq(f"face {f + 1}: entry {c} of an internal condition", new(c), "" if c == 0 else 0, st, [internal])
            E.eq(f"face {f + 1}: entry {c} of any other condition", new(c), old(c), st, [z3.Not(internal)])
        cnt = add(cnt, ite(cmp("==", E.cell(st0, m, eq_, "bcs", bq, f, 0), "E"), 1, 0))
    E.eq("number of deleted conditions", r.value, sum_term(sum_term(cnt, eq_, nel), bq, nbc), st)
    E.frame("nothing else changes", m, st0, m, st, fields=[f for f in E.FIELDS if f != "bcs"])


class Pairs:
    """the faces without a condition that coincide with a face of another element: partner functions"""

    def __init__(self, E, m, nel, nf, tol, FC, SE):
        P = E.name
        self.has_ = z3.Function(P + "has", I, I, B)
        self.pe_, self.pf_ = z3.Function(P + "pe", I, I, I), z3.Function(P + "pf", I, I, I)
        self.mm_ = z3.Function(P + "match", I, I, I, I, B)
        self.cn_ = z3.Function(P + "count", I, I, I)
        self.FC, self.SE, self.tol = FC, SE, tol
        st = E.st
        free = lambda e, f: to_z(cmp("==", E.cell(st, m, e, "bcs", 0, f, 0), ""))
        e, f, g, h = z3.Ints("e!q f!q g!q h!q")
        inside = lambda e, f: z3.And(e >= 0, e < nel, f >= 0, f < nf)
        has, pe, pf, mm = self.has_, self.pe_, self.pf_, self.mm_
        E.assume(
            z3.ForAll([e, f], z3.Implies(has(e, f), z3.And(
                inside(e, f), inside(pe(e, f), pf(e, f)), pe(e, f) != e, free(e, f), has(pe(e, f), pf(e, f)),
                pe(pe(e, f), pf(e, f)) == e, pf(pe(e, f), pf(e, f)) == f)), patterns=[has(e, f)]),
            z3.ForAll([e, f, g, h], z3.Implies(z3.And(inside(e, f), inside(g, h), e < g, free(e, f), free(g, h)), z3.And(
                mm(e, f, g, h) == z3.And(has(e, f), pe(e, f) == g, pf(e, f) == h),
                mm(e, f, g, h) == z3.And(has(g, h), pe(g, h) == e, pf(g, h) == f))), patterns=[mm(e, f, g, h)]),
        )

    def has(self, e, f):
        return self.has_(to_z(e), to_z(f))

    def pe(self, e, f):
        return self.pe_(to_z(e), to_z(f))

    def pf(self, e, f):
        return self.pf_(to_z(e), to_z(f))

    def match(self, e, f, g, h):
        """definition of the match of two faces, instantiated"""
        a, b = self.FC(e, f), self.FC(g, h)
        d = 0
        for x, y in zip(a, b):
            d = add(d, mul(sub(y, x), sub(y, x)))
        p, q = self.SE(e), self.SE(g)
        return self.mm_(*[to_z(x) for x in (e, f, g, h)]) == (SQRT(d) <= self.tol * z3.If(q < p, q, p))


def generate(E, d, pre=None, post=None):
    nf = 2 * d
    nel, nbc = E.int("nel"), E.int("nbc")
    lr1 = [E.int("lx"), E.int("ly"), E.int("lz")]
    var = [E.int(f"var{i}") for i in range(5)]
    E.assume(nel >= 1, nbc >= 1, *[x >= 1 for x in lr1], *[v >= 0 for v in var])
    m = E.mesh("m", d, nel, lr1, var, nbc)
    if pre:
        pre(m, nel, nbc)
    st0 = E.st
    FC, SE = C15.callee_contracts(E)
    tol = E.real("tol")
    Q = Pairs(E, m, nel, nf, tol, FC, SE)
    rid = st0.heap[E.attr(st0, m, "elem").oid].rid
    old = st0.heap[(rid, "bcs")].fn
    cn = Q.cn_

    def done(e1, f1, e, f):
        low = Q.pe(e, f) > e
        le, lf = z3.If(low, to_z(e), Q.pe(e, f)), z3.If(low, to_z(f), Q.pf(e, f))
        return z3.And(Q.has(e, f), z3.Or(le < e1, z3.And(le == e1, lf < f1)))

    def bcs(e1, f1):
        def fn(e, b, f, c):
            new = ["E", add(e, 1), add(f, 1), add(Q.pe(e, f), 1), add(Q.pf(e, f), 1)]
            if c > 4:
                return old(e, b, f, c)
            v = new[c] if c < 3 else to_real(new[c])
            return ite(done(e1, f1, e, f), v, old(e, b, f, c))

        return fn

    def lc(e1, f1):
        return lambda e, f: z3.Or(z3.Not(to_z(cmp("==", old(e, 0, f, 0), ""))), done(e1, f1, e, f))

    fc = lambda e, f, k: FC(e, f)[k] if isinstance(k, int) else ite(cmp("==", k, 0), FC(e, f)[0], ite(cmp("==", k, 1), FC(e, f)[1], FC(e, f)[2]))

    def closed(e1, f1):
        e1, f1 = to_z(e1), to_z(f1)
        return [(("field", rid, "bcs"), bcs(e1, f1)), (("arr", "lc"), lc(e1, f1)), (("var", "nconnect"), cn(e1, f1))]

    consts = [(("arr", "fc"), fc), (("arr", "scales"), lambda e: SE(e))]

    def step(e, f):
        """definition of the count"""
        e, f = to_z(e), to_z(f)
        return [cn(0, 0) == 0, cn(e, f + 1) == cn(e, f) + z3.If(z3.And(Q.has(e, f), Q.pe(e, f) > e), nbc, 0), cn(e, nf) == cn(e + 1, 0)]

    def limits(loc, idx):
        return [cmp("<", idx[0], nel)]

    def con(*a, **k):
        c = spec.Contract(*a, **k)
        c.limits = limits
        return c

    def loop1(V, axes):
        return con(lambda p: closed(p[0], 0) + consts, defs=lambda p: step(p[0], 0))

    def loop2(V, axes):
        e1 = V.var("iel1")
        return con(lambda p: closed(e1, p[0]), defs=lambda p: step(e1, p[0]))

    def loop3(V, axes):
        e1, f1 = V.var("iel1"), V.var("iface1")
        return con(
            lambda p: closed(e1, f1) + [(("var", "find_iel1_iface"), False)],
            facts=lambda p: [z3.Not(z3.And(Q.has(e1, f1), Q.pe(e1, f1) > e1, Q.pe(e1, f1) < e1 + 1 + to_z(p[0])))],
            exit=lambda: closed(e1, add(f1, 1)),
        )

    def loop4(V, axes):
        e1, f1, e2 = V.var("iel1"), V.var("iface1"), V.var("iel2")
        found = z3.And(Q.has(e1, f1), Q.pe(e1, f1) == e2)

        def exit():
            a, b = closed(e1, add(f1, 1)), closed(e1, f1)
            out = [(("var", "find_iel1_iface"), found)]
            for (loc, v), (_, w) in zip(a, b):
                out.append((loc, ite(found, v, w) if loc[0] == "var" else (lambda *i, v=v, w=w: ite(found, v(*i), w(*i)))))
            return out

        return con(
            lambda p: closed(e1, f1) + [(("var", "find_iel1_iface"), False)],
            facts=lambda p: [z3.Not(z3.And(found, Q.pf(e1, f1) < to_z(p[0])))],
            here=lambda p: [Q.match(e1, f1, e2, p[0])],
            exit=exit,
        )

    E.I.loop_contracts.update({"iel1": loop1, "iface1": loop2, "iel2": loop3, "iface2": loop4})
    r = E.call("pymech.meshtools", "generate_internal_bcs", m, tol=tol)
    if post:
        return post(m, nel, nbc, r.st)
    e_ = z3.Int("e!q")
    E.raises_iff("generation", r, z3.Exists([e_], z3.And(e_ >= 0, e_ < nel, SE(e_) <= 0)))
    st = r.st
    e, b, f = E.fresh_int("e", nel), E.fresh_int("b", nbc), E.fresh_int("f", 6)
    cell = lambda s, c: E.cell(s, m, e, "bcs", b, f, c)
    h = Q.has(e, f)
    for c, v in enumerate(["E", e + 1, f + 1, z3.ToReal(Q.pe(e, f) + 1), z3.ToReal(Q.pf(e, f) + 1)]):
        E.eq(f"entry {c} of a face that coincides with another", cell(st, c), v, st, [h])
    for c in range(8):
        E.eq(f"entry {c} of any other face", cell(st, c), cell(st0, c), st, [z3.Not(h)])
        if c > 4:
            E.eq(f"entry {c} of every face", cell(st, c), cell(st0, c), st)
    E.eq("number of connections", r.value, cn(to_z(nel), 0), st)
    E.frame("nothing else changes", m, st0, m, st, fields=[f for f in E.FIELDS if f != "bcs"])
