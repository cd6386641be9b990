"""C15: the mesh checks accept exactly the valid meshes."""
from api import *
from C16 import generic_mesh
import C19

ASSUMPTIONS = C19.ASSUMPTIONS + [
    "check_connectivity is verified against the contracts of face_center and smallest_edge (their values as functions of the element and face); those contracts are discharged in the cases taken over from C19",
    "logging calls have no effect on the result",
]


def prove(col):
    for d in (2, 3):
        col.case(f"connectivity, {d}D", lambda E, d=d: connectivity(E, d))
        col.case(f"completeness, {d}D", lambda E, d=d: complete(E, d))
    for f in range(6):
        col.case(f"face centre {f + 1}", lambda E, f=f: C19.face(E, f))
    for d3 in (False, True):
        col.case("shortest edge in " + ("3D" if d3 else "2D"), lambda E, d3=d3: C19.shortest(E, d3))


def callee_contracts(E, pos=None):
    """face_center(i) = FC(e, i), 0 <= i < 6 required; smallest_edge() = SE(e); both are functions of the coordinates of
    element e, pos(e, d, z, y, x): that the element has these coordinates is an obligation at the call"""
    known = {id(c): c for k, c in E.st.heap.items() if isinstance(k, tuple) and k[1] == "pos"} if pos is None else {}

    def same(I_, st, el):
        c = st.heap.get((el.rid, "pos"))
        if not isinstance(c, FieldC):
            return False
        if id(c) in known:
            return True
        if pos is None:
            return False
        e = fresh("same")
        i = [fresh("same") for _ in range(4)]
        q = st.fork()
        q.pc = list(q.pc) + [e >= 0] + [x >= 0 for x in i] + [to_z(cmp("<", x, n)) for x, n in zip(i, c.shapefn(e))]
        I_.oblige("the coordinates are those of the contract of the called method", q, cmp("==", c.fn(e, *i), pos(e, *i)), "pre")
        known[id(c)] = c
        return True

    fc = [z3.Function(f"{E.name}face_center.{d}", I, I, R) for d in range(3)]
    se = z3.Function(f"{E.name}smallest_edge", I, R)

    def face_center(I_, st, args, kw):
        el, i = (list(args) + [kw.get("i")])[:2]
        if not isinstance(el, ElemRef) or i is None or not same(I_, st, el):
            return NotImplemented
        I_.oblige("precondition of face_center: face number in 0..5", st, conj(cmp(">=", i, 0), cmp("<", i, 6)), "pre")
        return tuple(F(to_z(el.idx), to_z(i)) for F in fc)

    def smallest_edge(I_, st, args, kw):
        if not isinstance(args[0], ElemRef) or not same(I_, st, args[0]):
            return NotImplemented
        r = se(to_z(args[0].idx))
        return r

    E.I.overrides["Elem.face_center"] = face_center
    E.I.overrides["Elem.smallest_edge"] = smallest_edge
    return (lambda e, i: [F(to_z(e), to_z(i)) for F in fc]), (lambda e: se(to_z(e)))


def mesh(E, d):
    nel, nbc = E.int("nel"), E.int("nbc")
    lr1 = [E.int("lx"), E.int("ly"), E.int("lz")]
    var = [E.int(f"var{i}") for i in range(5)]
    E.assume(nel >= 1, nbc >= 0, *[x >= 1 for x in lr1], *[v >= 0 for v in var])
    return E.mesh("m", d, nel, lr1, var, nbc), nel, nbc


def pick(f, n, g):
    """g at the symbolic face f (0..n-1)"""
    r = g(n - 1)
    for k in range(n - 2, -1, -1):
        r = ite(cmp("==", f, k), g(k), r)
    return r


def bad(E, m, nel, nbc, d, e, b, f, tol, FC, SE):
    """face f of element e has an invalid connection in field b"""
    c = lambda e, f, k: E.cell(E.st, m, e, "bcs", b, f, k)
    num = lambda v: z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v)) - 1
    t = c(e, f, 0)
    int_, per = to_z(cmp("==", t, "E")), to_z(cmp("==", t, "P"))
    p, g = num(c(e, f, 3)), num(c(e, f, 4))
    n = 2 * d
    exists = z3.And(p >= 0, p < nel, g >= 0, g < n)
    back = z3.And(to_z(cmp("==", c(p, g, 0), t)), num(c(p, g, 3)) == e, num(c(p, g, 4)) == f)
    a, q = FC(e, f), FC(p, g)
    d2 = sum((x - y) * (x - y) for x, y in zip(a, q))
    lim = tol * z3.If(SE(e) <= SE(p), SE(e), SE(p))
    near = SQRT(d2) <= lim
    return z3.And(z3.Or(int_, per), z3.Not(z3.And(exists, back, z3.Or(per, near))))


def connectivity(E, d):
    m, nel, nbc = mesh(E, d)
    FC, SE = callee_contracts(E)
    tol = E.real("tol")
    r = E.call("pymech.core", "HexaData.check_connectivity", m, tol)
    e, b = z3.Int("e!q"), z3.Int("b!q")
    cond = z3.Exists([e, b], z3.And(e >= 0, e < nel, b >= 0, b < nbc, z3.Or([bad(E, m, nel, nbc, d, e, b, f, tol, FC, SE) for f in range(2 * d)])))
    E.raises_iff("connectivity check", r, cond)
    if r.st is not None:
        E.eq("returns True", r.value, True, r.st)
        E.frame("the mesh is unchanged", m, E.st, m, r.st)


def complete(E, d):
    m, nel, nbc = mesh(E, d)
    r = E.call("pymech.core", "HexaData.check_bcs_present", m)
    e, b = z3.Int("e!q"), z3.Int("b!q")
    cond = z3.Exists([e, b], z3.And(e >= 0, e < nel, b >= 0, b < nbc, z3.Or([to_z(cmp("==", E.cell(E.st, m, e, "bcs", b, f, 0), "")) for f in range(2 * d)])))
    E.raises_iff("completeness check", r, cond)
    if r.st is not None:
        E.eq("returns True", r.value, True, r.st)
        E.frame("the mesh is unchanged", m, E.st, m, r.st)
