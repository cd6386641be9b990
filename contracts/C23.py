"""C23: paths of field files; a dataset shows the stored values at the coordinates of the mesh."""
import dsmodel
import npmodel
from api import *
from C16 import generic_mesh
from dsmodel import DsV, PathArg, StoreV, SymItems, VarV
from heap import FieldC

ASSUMPTIONS = [
    "regular expressions mean what Python's re documents (the pattern is parsed by Python's own parser and translated to a regular language; the five digits may be any decimal digits of Unicode)",
    "numpy.unique(return_index=True) returns the index of the first occurrence of each distinct value, in some order",
    "numpy.round(., 8) is an arbitrary function; precondition of the values: the coordinates along an axis stay distinct when rounded",
    "xarray: load_store builds a dataset from the variables of a store, combine_by_coords puts datasets together by their coordinates, coords.update and drop_vars do what their names say",
    "reading the file is the contract of readnek (C03, C04)",
]
BOUNDED = "combining the elements in xarray, reading several files, and the refusal of meshes xarray cannot combine are evaluated on generated files only"


def prove(col):
    col.case("paths", paths)
    col.case("opening by path", opening)
    for drop in ("none", "name", "list"):
        col.case(f"dataset, dropped variables: {drop}", lambda E, d=drop: dataset(E, d))
    for p in (0, 1):
        for t in (0, 1):
            for s in (0, 1):
                col.case(f"variables of an element, pressure {p}, temperature {t}, {['no ', ''][s]}scalars", lambda E, p=p, t=t, s=s: variables(E, p, t, s))
    col.case("element not aligned with the axes", unaligned)


# ---------------------------------------------------------------- paths
def languages():
    D, A = dsmodel.alt(dsmodel.rng(a, b) for a, b in dsmodel.unicode_digits()), dsmodel.rng(48, 57)
    must = dsmodel.cat([dsmodel.ALL, dsmodel.lit(".f"), dsmodel.alt([z3.Concat(*[A] * 5), dsmodel.lit("ld")])])
    may = dsmodel.cat([dsmodel.ALL, dsmodel.lit(".f"), dsmodel.alt([z3.Concat(*[D] * 5), dsmodel.lit("ld")])])
    return must, may


def paths(E):
    s = z3.String(E.name + "path")
    must, may = languages()
    for nm, fn, pre in (("can_open_nek_dataset", "can_open_nek_dataset", []), ("backend", "PymechXarrayBackend.guess_can_open", [None])):
        r = E.call("pymech.dataset", fn, *pre, PathArg(s))
        E.never_raises(nm, r)
        ok = to_z(E.I.truth(r.value, r.st, ast.Name("contract", ast.Load())))
        E.prove(f"{nm}: a path that ends like a field file is recognised", ok, r.st, [z3.InRe(s, must)])
        E.prove(f"{nm}: a recognised path ends like a field file", z3.InRe(s, may), r.st, [ok])


def opening(E):
    s = z3.String(E.name + "path")
    must, may = languages()
    calls = []

    def open_(I_, st, a, kw):
        calls.append((list(a), dict(kw)))
        return DsV("opened")

    E.I.overrides["_open_nek_dataset"] = open_
    p = PathArg(s)
    r = E.call("pymech.dataset", "open_dataset", p, drop_variables="ux")
    E.prove("every other path is refused", z3.Or([to_z(conj(*x[0])) for x in r.raises if x[1].kind == "NotImplementedError"] + [z3.BoolVal(False)]), E.st, [z3.Not(z3.InRe(s, may))])
    for i, x in enumerate(r.raises):
        E.prove(f"only other paths are refused, {i}", z3.Not(to_z(conj(*x[0]))), E.st, [z3.InRe(s, must)])
    b = bind(["path", "drop_variables"], *calls[0]) if len(calls) == 1 else {}
    if not calls or set(b) != {"path", "drop_variables"}:
        raise Unsupported("a field file is not opened by one call of _open_nek_dataset")
    E.prove("the file that was asked for is opened", b["path"] is p and b["drop_variables"] == "ux", r.st)
    E.prove("its dataset is returned", isinstance(r.value, DsV) and r.value.how == "opened", r.st)
    del calls[:]
    r = E.call("pymech.dataset", "PymechXarrayBackend.open_dataset", None, p, drop_variables="ux")
    E.never_raises("backend", r)
    b = bind(["path", "drop_variables"], *calls[0]) if len(calls) == 1 else {}
    if set(b) != {"path", "drop_variables"}:
        raise Unsupported("the backend does not open a field file by one call of _open_nek_dataset")
    E.prove("backend: the file that was asked for is opened", b["path"] is p and b["drop_variables"] == "ux", r.st)
    E.prove("backend: its dataset is returned", isinstance(r.value, DsV) and r.value.how == "opened", r.st)


def bind(names, args, kw):
    return {**dict(zip(names, args)), **kw}


# ---------------------------------------------------------------- the dataset of a file
def dataset(E, drop):
    m, nel, lr1 = generic_mesh(E, "m", 3)
    E.I.overrides["readnek"] = lambda I_, st, a, kw: m
    axes = E.I.class_attr(E.cls("pymech.dataset", "_NekDataStore"), "axes", None, E.st, None)

    def store(I_, st, a, kw):
        return StoreV(bind(["elem"], a, kw)["elem"], axes)

    E.I.overrides["_NekDataStore"] = store
    log = E.I.ds_log = []
    st0 = E.st
    d = {"none": None, "name": "ux", "list": E.list(["ux", "temperature"])}[drop]
    r = E.call("pymech.dataset", "_open_nek_dataset", "file0.f00001", *([] if drop == "none" else [d]))
    E.never_raises("opening", r)
    v = r.value
    usual = isinstance(v, DsV)
    if usual and v.how == "drop_vars":
        dropped, v = v.args[1], v.args[0]
    else:
        dropped = None
    coords = list(log)
    if usual and v.how == "coords":
        coords.append((v.args[0], v.args[1]))
        v = v.args[0]
    usual = usual and v.how == "combine" and len(coords) == 1 and coords[0][0] is v
    if not usual:
        raise Unsupported("the dataset is not built by combining the datasets of the elements")
    E.prove("the variables asked for are dropped", dropped is d if drop == "list" else dropped == d, r.st)
    E.prove("only the time is added", [k for k, _ in coords[0][1]] == ["time"], r.st)
    E.eq("time", coords[0][1][0][1], E.attr(st0, m, "time"), r.st)
    parts = v.args[0]
    E.eq("one dataset per element", E.length(r.st, parts), nel, r.st)
    e = E.fresh_int("e", nel)
    x = E.item(r.st, parts, e)
    if not (isinstance(x, DsV) and x.how == "set_coords" and x.args[0].how == "store"):
        raise Unsupported("the dataset of an element is not loaded from its store")
    E.prove("the axes are coordinates", tuple(x.args[1]) == ("z", "y", "x"), r.st)
    s = x.args[0].args[0]
    el = E.attr(r.st, s, "elem") if isinstance(s, (Ref, StoreV)) else None
    if not isinstance(el, ElemRef):
        raise Unsupported("the store of an element")
    rid = r.st.heap[E.attr(st0, m, "elem").oid].rid
    q, _ = E.I.resolve_elem(r.st, el)
    E.prove("every element is shown", q.rid == rid, r.st)
    E.eq("element of the dataset", q.idx, e, r.st)
    E.frame("the mesh stays as it was read", m, st0, m, r.st)


# ---------------------------------------------------------------- variables of an element
def setup(E, p, t, s):
    nel, nbc, ns = E.int("nel"), E.int("nbc"), E.int("scalars") if s else 0
    lr1 = [E.int("lx"), E.int("ly"), E.int("lz")]
    nv = E.int("var1")
    E.assume(nel >= 1, nbc >= 0, nv >= 0, *([ns >= 1, ns <= 99] if s else []), *[x >= 1 for x in lr1])
    m = E.mesh("m", 3, nel, lr1, [3, nv, p, t, ns], nbc)
    e = E.fresh_int("e", nel)
    el = ElemRef(E.st.heap[E.attr(E.st, m, "elem").oid].rid, e)
    return m, nel, lr1, ns, e, el


ROUND = z3.Function("round.8", R, R)


def variables(E, p, t, s):
    m, nel, lr1, ns, e, el = setup(E, p, t, s)
    lx, ly, lz = lr1
    st0 = E.st
    # precondition: the elements are aligned with the axes (and, for the order of numpy.unique, their coordinates
    # along an axis are distinct when rounded)
    X = [z3.Function(E.name + "X." + c, I, I, R) for c in "xyz"]

    def pos(e, d, *zyx):
        v = [X[k](to_z(e), to_z(zyx[2 - k])) for k in range(3)]
        return v[d] if isinstance(d, int) else z3.If(to_z(d) == 0, v[0], z3.If(to_z(d) == 1, v[1], v[2]))

    old = st0.heap[(el.rid, "pos")]
    st0.heap[(el.rid, "pos")] = FieldC("array", old.shapefn, old.dtype, pos)
    P = lambda d, z, y, x: E.cell(st0, m, e, "pos", d, z, y, x)
    seq = [E.increasing("first." + c, n) for c, n in zip("xyz", lr1)]
    stride = [1, lx, lx * ly]
    for (S, _), w in zip(seq, stride):
        npmodel.CLOSED[S.name()] = lambda k, w=w: mul(k, w)

    def hook(I_, st, arr, n):
        """the first occurrences of the distinct values of the coordinates of an aligned element"""
        if len(arr.shape) != 3 or not all(peq(to_z(a), to_z(b)) for a, b in zip(arr.shape, (lz, ly, lx))):
            I_.unsupported(n, "unique of another array")
        f = I_.np.snapshot(I_, st, arr)[0]
        i = [fresh("u") for _ in range(3)]
        got = to_z(f(*i))
        for d in range(3):
            if got.eq(to_z(ROUND(to_z(P(d, *i))))) :
                S, order = seq[d]
                return I_.np.new_array(I_, st, (lr1[d],), "i8", lambda k: S(order(to_z(k))))
        I_.unsupported(n, "unique of other values than the rounded coordinates")

    E.I.unique_hook = hook
    q = E.construct("pymech.dataset", "_NekDataStore", el)
    E.st = q.st
    r = E.call("pymech.dataset", "_NekDataStore.get_variables", q.value)
    E.never_raises("variables", r)
    st = r.st
    d = st.heap[r.value.oid] if isinstance(r.value, Ref) else None
    if not isinstance(d, DictC):
        raise Unsupported("the variables are not a dictionary")
    items = {k: v for k, v in d.items if isinstance(k, str)}
    syms = [(k, v) for k, v in d.items if isinstance(k, SymItems)]
    want = {"xmesh": ("pos", 0), "ymesh": ("pos", 1), "zmesh": ("pos", 2), "ux": ("vel", 0), "uy": ("vel", 1), "uz": ("vel", 2)}
    if p:
        want["pressure"] = ("pres", 0)
    if t:
        want["temperature"] = ("temp", 0)
    E.prove("names of the variables", set(items) == set(want) | set("xyz"), st)
    for c, n in zip("xyz", lr1):
        x = items[c]
        E.eq(f"coordinate {c}: number of points", x.shape[0], n, st)
        i = E.fresh_int("i", n)
        g = [E.fresh_int("g", q) for q in (lz, ly, lx)]
        at = list(g)
        at[2 - "xyz".index(c)] = i
        E.eq(f"coordinate {c}: position of the points", E.arr(st, x, i), P("xyz".index(c), *at), st)
    for nm, (f, comp) in want.items():
        variable(E, st, nm, items[nm], m, e, f, comp, lr1, st0)
    if not s:
        E.prove("no scalars", not syms, st)
        return
    if len(syms) != 1:
        raise Unsupported("variables of the scalars")
    key, val = syms[0]
    E.eq("scalars: number of variables", key.n, ns, st)
    i = E.fresh_int("scalar", ns)
    ps = key.key.pieces
    ok = len(ps) == 2 and all(c is True for c, _ in ps) and ps[0][1] == "s" and getattr(ps[1][1], "fmt", "").lstrip("%") in ("02d",)
    E.prove("scalars: name", ok, st)
    if ok:
        E.eq("scalars: number in the name", z3.substitute(to_z(ps[1][1].t), (key.k, i)), i + 1, st)
    variable(E, st, "scalar", val.subst([(key.k, i)]), m, e, "scal", i, lr1, st0)


def variable(E, st, nm, v, m, e, f, comp, lr1, st0):
    lx, ly, lz = lr1
    if not isinstance(v, VarV) or not isinstance(v.data, ArrRef):
        raise Unsupported("variable of another kind")
    E.prove(f"{nm}: axes", tuple(v.dims) == ("z", "y", "x"), st)
    for a, n in zip(v.data.shape, (lz, ly, lx)):
        E.eq(f"{nm}: points", a, n, st)
    g = [E.fresh_int("g", q) for q in (lz, ly, lx)]
    E.eq(f"{nm}: values", E.arr(st, v.data, *g), E.cell(st0, m, e, f, comp, *g), st)


def unaligned(E):
    m, nel, lr1, ns, e, el = setup(E, 0, 0, 0)
    lx, ly, lz = lr1
    st0 = E.st
    C = [z3.Function(E.name + "axis." + c, I, R) for c in "xyz"]

    def dims(I_, st, a, kw):
        b = bind(["self", "mesh"], a, kw)
        f = I_.np.snapshot(I_, st, b["mesh"])[0]
        i = [fresh("u") for _ in range(3)]
        for d in range(3):
            if to_z(f(*i)).eq(to_z(E.cell(st0, m, e, "pos", d, *i))):
                return I_.np.new_array(I_, st, (lr1[d],), "f8", lambda k: C[d](to_z(k)))
        raise Unsupported("coordinates of another array")

    E.I.overrides["_NekDataStore.meshgrid_to_dim"] = dims
    s = E.construct("pymech.dataset", "_NekDataStore", el)
    E.st = s.st
    r = E.call("pymech.dataset", "_NekDataStore.get_variables", s.value)
    raised = [to_z(conj(*x[0])) for x in r.raises if x[1].kind == "ValueError"]
    q = z3.Ints("z!w y!w x!w")
    inside = z3.And([z3.And(i >= 0, i < n) for i, n in zip(q, (lz, ly, lx))])
    for d in range(3):
        bad = ROUND(to_z(E.cell(st0, m, e, "pos", d, *q))) != ROUND(C[d](q[2 - d]))
        E.prove(f"refused when {'xyz'[d]} does not follow its axis", z3.Or(raised + [z3.BoolVal(False)]), E.st, [inside, bad])
