"""C25: gen_circle builds a square block and a quarter ring with matching nodes, and joins four rotated copies of the ring."""
from api import *
from interp import UFun
from npmodel import PI, sum_term
import terms
from terms import ATAN, COS, SIN

ASSUMPTIONS = [
    "floating point arithmetic is treated as real arithmetic",
    "elementary facts on sin, cos and atan: sin(atan x) = x cos(atan x), cos(atan x) > 0, cos > 0 on (-pi/2, pi/2), sin and cos agree at pi/4, "
    "cos even and sin odd, atan(1) = -atan(-1) = pi/4, sin(pi/2) = 1, sqrt(2)^2 = 2",
    "merge appends the elements and joins the coinciding faces (contract discharged under C12), rotate_2d rotates all coordinates and leaves "
    "everything else alone (contract discharged under C16)",
    "the given spacing and curvature functions satisfy f(0) = 0 and f(1) = 1",
]
BOUNDED = "the default spacing (bisection and refinement parameter), right-handedness of the elements and the joined disc as a whole are evaluated on generated discs only"
R_ = z3.ToReal


def prove(col):
    for internal in (True, False):
        for default in (False, True):
            col.case(f"blocks, internal_bcs={internal}, {'default' if default else 'given'} curvature", lambda E, i=internal, d=default: blocks(E, i, d))
    col.case("lemmas", lemmas)


def trig(E, ts):
    """the elementary facts for these arguments"""
    for t in ts:
        E.assume(SIN(t) * SIN(t) + COS(t) * COS(t) == 1, z3.Implies(z3.And(2 * t < PI, -2 * t < PI), COS(t) > 0))


def bind(names, args, kw):
    return {**dict(zip(names, args)), **kw}


def blocks(E, internal, default):
    r_, s = E.real("r"), E.real("s")
    ns, no, nb = E.int("ns"), E.int("no"), E.int("nb")
    var = [E.int(f"var{i}") for i in range(5)]
    E.assume(r_ > 0, s > 0, s < 1, ns >= 1, no >= 1, nb >= 1, PI > 3, PI < 4, *[v >= 0 for v in var])
    F = z3.Function(E.name + "bc", I, I)
    bl, cf = UFun(E.name + "bl", 1), UFun(E.name + "cf", 1)
    BL = lambda x: bl.apply([x])
    E.assume(BL(0) == 0, BL(1) == 1)
    kw = dict(bl_fun=bl)
    if default:
        CF = lambda x: SIN(PI * x / 2) * SIN(PI * x / 2)
        E.assume(SIN(PI / 2) == 1)
    else:
        CF = lambda x: cf.apply([x])
        kw["curvature_fun"] = cf
        E.assume(CF(0) == 0, CF(1) == 1)
    log = []

    def merge(I_, st, args, kw_):
        log.append(("merge", st.fork(), bind(["self", "other", "tol", "ignore_empty", "ignore_all_bcs"], args, kw_)))
        return 0

    def rotate(I_, st, args, kw_):
        log.append(("rotate", st.fork(), bind(["mesh", "x0", "y0", "theta"], args, kw_)))
        return None

    E.I.overrides["HexaData.merge"] = merge
    E.I.overrides["rotate_2d"] = rotate
    bc = E.slist(nb, lambda i: Str(F(to_z(i))))
    r = E.call("pymech.meshtools", "gen_circle", r_, s, ns, no, var=E.list(var), bc=bc, internal_bcs=internal, **kw)
    E.never_raises("disc", r)
    # the argument below is about this way of building the disc; another one is left to the bounded check
    usual = [x[0] for x in log] == ["merge", "rotate"] * 3 + ["merge"]
    if usual:
        st = log[0][1]
        sq, ring = log[0][2]["self"], log[0][2]["other"]
        usual = isinstance(sq, Ref) and isinstance(ring, Ref) and r.value == sq
        for what, st_, a in log:
            if what == "merge":
                usual = usual and a["self"] == sq and a["other"] == ring and a.get("ignore_all_bcs", False) is (not internal) and not a.get("ignore_empty", False)
            else:
                turn = conj(cmp("==", a["x0"], 0), cmp("==", a["y0"], 0), cmp("==", a["theta"], PI / 2))
                usual = usual and a["mesh"] == ring and terms.decide(to_z(turn), E.I.facts) is True
    if not usual:
        raise Unsupported("the disc is not built by merging a square with a ring turned by quarter turns")
    for m, n in ((sq, ns * ns), (ring, ns * no)):
        nm = "square" if m == sq else "ring"
        E.eq(f"{nm}: two-dimensional", E.attr(st, m, "ndim"), 2, st)
        E.eq(f"{nm}: number of elements", E.attr(st, m, "nel"), n, st)
        E.eq(f"{nm}: length of the element list", E.nelem(st, m), n, st)
        E.eq(f"{nm}: number of fields", E.attr(st, m, "nbc"), nb, st)
    c = s * r_ * SQRT(z3.RealVal(2))
    E.assume(SQRT(z3.RealVal(2)) * SQRT(z3.RealVal(2)) == 2, SQRT(z3.RealVal(2)) > 0)
    # square
    i, j, b = E.fresh_int("i", ns), E.fresh_int("j", ns), E.fresh_int("b", nb)
    e = i + ns * j
    conditions(E, st, sq, "square", i, j, ns, ns, b, internal, [None] * 4)
    for y in (0, 1):
        for x in (0, 1):
            P = lambda d: E.cell(st, sq, e, "pos", d, 0, y, x)
            E.eq(f"square: x of corner ({x},{y})", P(0), c * (R_(i + x) / R_(ns) - 0.5), st)
            E.eq(f"square: y of corner ({x},{y})", P(1), c * (R_(j + y) / R_(ns) - 0.5), st)
            E.eq(f"square: z of corner ({x},{y})", P(2), 0, st)
    nocurv(E, st, sq, "square", e)
    E.eq("square: no curved side", E.attr(st, sq, "ncurv"), 0, st)
    # ring
    i, j = E.fresh_int("i", no), E.fresh_int("j", ns)
    e = i + no * j
    conditions(E, st, ring, "ring", i, j, no, ns, b, internal, [None, Str(F(b)), None, None])
    P = lambda i, j, d, y, x: E.cell(st, ring, i + no * j, "pos", d, 0, y, x)
    i2, j2 = E.fresh_int("i", no), E.fresh_int("j", ns)
    for d in range(3):
        n = "xyz"[d]
        for y in (0, 1):
            E.eq(f"ring: elements share their radial nodes, {n}{y}", P(i, j, d, y, 1), P(i2, j, d, y, 0), st, [i2 == i + 1])
            E.eq(f"ring: elements share their angular nodes, {n}{y}", P(i, j, d, 1, y), P(i, j2, d, 0, y), st, [j2 == j + 1])
    ends(E, st, P, i, j, ns, no, c, r_, BL, CF)
    diagonals(E, st, P, i, j, ns, no)
    last = i == no - 1
    for g in range(12):
        t = E.cell(st, ring, e, "ccurv", g)
        if g == 1:
            E.eq("ring: outer edge is circular", t, "C", st, [last])
            E.eq("ring: inner edges are straight, edge 2", t, "", st, [z3.Not(last)])
            for q in range(5):
                E.eq(f"ring: radius of the outer edge, entry {q}", E.cell(st, ring, e, "curv", g, q), r_ if q == 0 else 0, st, [last])
        else:
            E.eq(f"ring: inner edges are straight, edge {g + 1}", t, "", st)
    eq_ = z3.Int("e!sum")
    E.eq("ring: number of curved sides", E.attr(st, ring, "ncurv"), sum_term(ite(cmp("==", MODF(eq_, no), no - 1), 1, 0), eq_, no * ns), st)


def conditions(E, st, m, nm, i, j, ni, nj, b, internal, outer):
    e = i + ni * j
    el = lambda a, c: a + ni * c + 1
    B = lambda f, c: E.cell(st, m, e, "bcs", b, f, c)
    faces = [(0, j == 0, el(i, j - 1), 3), (1, i == ni - 1, el(i + 1, j), 4), (2, j == nj - 1, el(i, j + 1), 1), (3, i == 0, el(i - 1, j), 2)]
    for f, out, nb, nf in faces:
        n = f"{nm}: face {f + 1}"
        if outer[f] is not None:
            E.eq(f"{n}: requested condition on the outside", B(f, 0), outer[f], st, [out])
        elif internal:
            t = B(f, 0)
            E.prove(f"{n}: a condition to be joined on the outside", z3.Not(z3.Or([to_z(cmp("==", t, x)) for x in ("", "E", "P")])), st, [out])
        if internal:
            for c, v in enumerate(("E", e + 1, f + 1, nb, nf)):
                E.eq(f"{n}: entry {c} inside", B(f, c), v, st, [z3.Not(out)])
        else:
            E.eq(f"{n}: empty inside", B(f, 0), "", st, [z3.Not(out)])
    for f in (4, 5):
        E.eq(f"{nm}: face {f + 1}: empty", B(f, 0), "", st)


def nocurv(E, st, m, nm, e):
    for g in range(12):
        E.eq(f"{nm}: edge {g + 1} is straight", E.cell(st, m, e, "ccurv", g), "", st)


def ends(E, st, P, i, j, ns, no, c, r_, BL, CF):
    x0, x1 = BL(E.I.quot(i, no)), BL(E.I.quot(add(i, 1), no))
    E.assume(SIN(z3.RealVal(0)) == 0)
    inner = ([i == 0], [(x0, z3.RealVal(0)), (CF(x0), z3.RealVal(0))])
    outer = ([i == no - 1], [(x1, z3.RealVal(1)), (CF(x1), z3.RealVal(1))])
    # the spacing and the curvature at both ends, proved first and then put in
    for n, (at, put) in (("inner", inner), ("outer", outer)):
        E.prove(f"ring: spacing and curvature of the {n} end", z3.And([a == b for a, b in put]), st, at)
    for y in (0, 1):
        q = R_(j + y) / R_(ns)
        al, t = PI * (q - 0.5) / 2, R_(2 * (j + y)) / R_(ns) - 1
        be = ATAN(t)
        trig(E, [al, be])
        E.assume(SIN(be) == t * COS(be), COS(be) > 0)
        for n, (at, put), x, want in (
            ("inner node lies on the square", inner, 0, (c / 2, c * (q - 0.5))),
            ("outer node lies on the circle", outer, 1, (r_ * COS(al), r_ * SIN(al))),
        ):
            for d in (0, 1):
                v = to_z(P(i, j, d, y, x))
                for o, w in reversed(put):
                    v = z3.substitute(v, (to_z(o), w))
                E.prove(f"ring: {n}, {y}, {'xy'[d]}", cmp("==", unval(z3.simplify(v)), want[d]), st, at + [a == b for a, b in put])


def diagonals(E, st, P, i, j, ns, no):
    """the lower and the upper side of the ring lie on the diagonals and are mirror images: a quarter turn takes one to the other"""
    q = PI / 4
    first = ([j == 0], [(E.I.quot(j, ns), 0), (E.I.quot(mul(2, j), ns), 0)])
    last = ([j == ns - 1], [(E.I.quot(add(j, 1), ns), 1), (E.I.quot(mul(2, add(j, 1)), ns), 2)])
    for n, (at, put) in (("lower", first), ("upper", last)):
        E.prove(f"ring: position of the {n} side", z3.And([a == b for a, b in put]), st, at)

    def value(d, y, x, put):
        v = z3.substitute(to_z(P(i, j, d, y, x)), *[(to_z(a), z3.RealVal(b)) for a, b in put])
        v = z3.substitute(z3.simplify(v), (ATAN(z3.RealVal(-1)), -q), (ATAN(z3.RealVal(1)), q))
        return z3.simplify(v, som=True)

    E.assume(ATAN(z3.RealVal(-1)) == -q, ATAN(z3.RealVal(1)) == q, COS(-q) == COS(q), SIN(-q) == -SIN(q), SIN(q) == COS(q), COS(q) > 0)
    for x in (0, 1):
        lo, up = [[value(d, y, x, h[1]) for d in (0, 1)] for y, h in ((0, first), (1, last))]
        for n, a, b in (("lower side on its diagonal", lo[1], -lo[0]), ("upper side on its diagonal", up[1], up[0]), ("sides of equal length", lo[0], up[0])):
            E.prove(f"ring: {n}, end {x}", a == b, st)


def lemmas(E):
    """sum of [e mod n = n-1] over n*k elements is k: the partial sums S(e) are e div n"""
    S = z3.Function("lemma.S", I, I)
    e, n = z3.Ints("lemma.e lemma.n")
    f = z3.If(MODF(e, n) == n - 1, 1, 0)
    E.prove("curved sides: no element", z3.Implies(z3.And(n >= 1, S(0) == 0), S(0) == DIVF(z3.IntVal(0), n)))
    E.prove("curved sides: one more element", z3.Implies(z3.And(n >= 1, e >= 0, S(e) == DIVF(e, n), S(e + 1) == S(e) + f), S(e + 1) == DIVF(e + 1, n)))
    x, y, t, u = z3.Reals("lemma.x lemma.y lemma.t lemma.r")
    E.prove("outer nodes have the distance r from the centre", z3.Implies(z3.And(x == u * COS(t), y == u * SIN(t)), x * x + y * y == u * u))
