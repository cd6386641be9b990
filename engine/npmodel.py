"""Model of the builtins, of numpy, copy, math, itertools and functools that pymech uses (trusted contracts)."""
import ast
import itertools
import re

from heap import *
from interp import Builtin, Choice, ChoiceSeq, ExcVal, FuncVal, GenV, IterV, LambdaVal, ModVal, PartialVal, PathEnds, Poison, SliceV, State, UFun, ClassVal, BoundMethod, FuncVal
from heap import FrameC
from terms import *

EXCS = ("ValueError", "TypeError", "IOError", "AttributeError", "IndexError", "KeyError", "RuntimeError", "NotImplementedError", "ImportError", "OSError", "Exception", "AssertionError")

SUMR = z3.Function("sum_real", z3.ArraySort(I, R), I, R)
SUMI = z3.Function("sum_int", z3.ArraySort(I, I), I, I)


class DType:
    def __init__(self, d):
        self.d = d

    def subst(self, pairs):
        return self


class Zip:
    pass


def setup(I_):
    pass


def native(name):
    def d(f):
        BUILTINS[name] = f
        return f

    return d


BUILTINS = {}
MODS = {}
MODCONSTS = {}


def mod(*names):
    def d(f):
        for n in names:
            MODS[n] = f
        return f

    return d


def builtin(I_, name):
    if name in BUILTINS:
        return Builtin(name, BUILTINS[name])
    if name in EXCS:
        return Builtin(name, lambda I_, st, a, k, n, nm=name: ExcVal(nm, a))
    if name in ("float", "int", "str", "bool", "dict", "list", "tuple", "type", "bytes", "object", "property", "super", "set"):
        return Builtin(name, lambda I_, st, a, k, n, nm=name: conv(I_, st, nm, a, k, n))
    if name == "Ellipsis":
        return Ellipsis
    return None


def lookup(I_, base, nm):
    full = base + "." + nm
    if full in MODS:
        return Builtin(full, MODS[full])
    if full == "math.pi":
        return PI
    if base in ("typing", "__future__", "os", "io", "struct", "sys", "collections.abc"):
        return Opaque(full)
    if base == "textwrap":
        return Builtin(full, lambda I_, st, a, k, n: Opaque("text"))
    return ModVal(full)


PI = z3.Const("pi", R)


def modattr(I_, m, name, st, node):
    full = m.name + "." + name
    if m.name == "logger":
        return Builtin(full, lambda I_, st, a, k, n: None)
    if full in ("numpy.int32", "numpy.int64", "numpy.float32", "numpy.float64", "numpy.intc"):
        return DType({"int32": "i4", "intc": "i4", "int64": "i8", "float32": "f4", "float64": "f8"}[name])
    if full in MODCONSTS:
        return MODCONSTS[full]
    if full in ("math.pi", "numpy.pi"):
        return PI
    if full == "sys.byteorder":
        return "little"
    if full == "os.SEEK_CUR":
        return 1
    if full in MODS:
        return Builtin(full, MODS[full])
    if full.startswith("pymech"):
        mm = I_.module(m.name)
        v = I_.glob(mm, name)
        if v is not None:
            return v
    if m.name in ("os", "io", "struct", "sys", "numpy", "copy", "math", "itertools", "functools", "os.path", "pathlib", "re", "xarray", "xarray.backends", "xarray.backends.common"):
        return ModVal(full)
    I_.unsupported(node, f"{full}")


# ------------------------------------------------------------------ dtypes
def dtype_of(I_, v, node=None):
    if v is None:
        return "f8"
    if isinstance(v, DType):
        return v.d
    if isinstance(v, Builtin):
        return {"float": "f8", "int": "i8", "bool": "b"}[v.name]
    if isinstance(v, str):
        parts = [p.strip() for p in v.split(",")]
        if len(parts) > 1:
            return ("struct", tuple(dtype_of(I_, p) for p in parts))
        s = v
        if s[0] in "<>=|":
            s = s[1:]
        m = {"float64": "f8", "float32": "f4", "float": "f8", "d": "f8", "f": "f4", "int": "i8", "i": "i4", "int32": "i4", "int64": "i8", "bool": "b"}
        if s in m:
            return m[s]
        if s[0] == "U" or s[0] == "S":
            return "s" + s[1:]
        if s in ("f4", "f8", "i4", "i8"):
            return s
    raise Unsupported(f"dtype {v!r}")


def zero(dt):
    return 0 if dt[0] in "iu" else Fraction(0) if dt[0] in "fc" else False if dt[0] == "b" else ""


def zeros_fn(dt):
    if dt_is_struct(dt):
        cols = dt_cols(dt)
        return lambda *i: zero(cols[i[-1]])
    z = zero(dt)
    return lambda *i: z


# ------------------------------------------------------------------ arrays
def base_content(I_, st, ar):
    return I_.resolve_base(ar.base, ar.sel, st)


def dtype_at(c):
    return c.dtype


def new_array(I_, st, shape, dt, fn, aslist=False):
    oid = I_.new(st, ArrC(shape, dt, fn))
    n = len(shape) + (1 if dt_is_struct(dt) else 0)
    return ArrRef(oid, [("v", i, 0, 1) for i in range(n)], shape, aslist)


def full_view(oid, c):
    n = len(c.shape) + (1 if dt_is_struct(c.dtype) else 0)
    return ArrRef(oid, [("v", i, 0, 1) for i in range(n)], c.shape)


def snapshot(I_, st, ar):
    """function of the view's index and dtype, fixed at this moment; logs the read"""
    if isinstance(ar, Choice):
        ar = ar.as_array(I_, st)
    base, sel, c = base_content(I_, st, ar)
    v = ArrRef(base, sel, ar.shape)
    I_.log_read(base, view_pattern(v, c), st)
    f = c.fn
    return (lambda *i: f(*v.index(list(i)))), c.dtype


def view_pattern(v, c):
    out = []
    for s in v.sel:
        if s[0] == "c":
            out.append(("c", s[1]))
        else:
            n = v.shape[s[1]] if s[1] < len(v.shape) else None
            out.append(("r", s[2], s[3], n) if n is not None else ("all",))
    return out


def dtype(I_, st, ar):
    base, sel, c = base_content(I_, st, ar)
    return c.dtype


def slice_range(I_, st, s, n, node):
    """start, step, count of a slice of a dimension of size n"""
    step = 1 if s.step is None else s.step
    if isz(step) or step == 0:
        I_.unsupported(node, "slice step")
    if step < 0:
        if s.lo is None and s.hi is None:
            return sub(n, 1), step, (n if step == -1 else I_.unsupported(node, "slice step"))
        I_.unsupported(node, "negative slice step")

    def norm(x, default):
        if x is None:
            return default
        if not is_int_t(x):
            I_.unsupported(node, "slice bound")
        if isinstance(x, int) and isinstance(n, int):
            return min(max(x if x >= 0 else n + x, 0), n)
        if isinstance(x, int) and x < 0:
            y = add(n, x)
            d = I_.decide(cmp(">=", y, 0), st)
            return y if d is True else 0 if d is False else ite(cmp(">=", y, 0), y, 0)
        if isz(x) and I_.decide(cmp(">=", x, 0), st) is not True:
            I_.unsupported(node, "slice bound of unknown sign")
        d = I_.decide(cmp("<=", x, n), st)
        return x if d is True else n if d is False else ite(cmp("<=", x, n), x, n)

    lo, hi = norm(s.lo, 0), norm(s.hi, n)
    cnt = sub(hi, lo)
    if isinstance(cnt, int):
        cnt = max(cnt, 0)
        return lo, step, (cnt + step - 1) // step
    d = I_.decide(cmp(">=", cnt, 0), st)
    if d is not True:
        cnt = 0 if d is False else ite(cmp(">=", cnt, 0), cnt, 0)
    if step != 1:
        from interp import idiv

        cnt = idiv(I_, add(cnt, step - 1), step, st)
    return lo, step, cnt


def expand(idx, nd, I_, node):
    if not isinstance(idx, tuple):
        idx = (idx,)
    if any(i is Ellipsis for i in idx):
        k = [j for j, i in enumerate(idx) if i is Ellipsis][0]
        idx = idx[:k] + (SliceV(None, None, None),) * (nd - len(idx) + 1) + idx[k + 1 :]
    if len(idx) > nd:
        I_.oblige("number of indices: " + I_.loc(node), State(), False)
        I_.unsupported(node, "too many indices")
    return idx + (SliceV(None, None, None),) * (nd - len(idx))


def view(I_, obj, idx, st, node):
    """ArrRef after basic indexing"""
    if any(i is None for i in (idx if isinstance(idx, tuple) else (idx,))):
        I_.unsupported(node, "newaxis")
    idx = expand(idx, len(obj.shape), I_, node)
    for i in idx:
        if isinstance(i, (ArrRef, Choice, Ref)):
            I_.unsupported(node, "fancy indexing")
    shape, m = [], {}
    for d, (i, n) in enumerate(zip(idx, obj.shape)):
        if isinstance(i, SliceV):
            lo, step, cnt = slice_range(I_, st, i, n, node)
            m[d] = ("v", len(shape), lo, step)
            shape.append(cnt)
        else:
            if is_real_t(i):
                I_.oblige("index is an integer: " + I_.loc(node), st, False)
                I_.unsupported(node, "index is not an integer")
            m[d] = ("c", I_.check_index(i, n, st, node))
    hid = len(obj.shape)
    m[hid] = ("v", len(shape), 0, 1)
    sel = []
    for s in obj.sel:
        if s[0] == "c":
            sel.append(s)
        else:
            t = m[s[1]]
            if t[0] == "c":
                sel.append(("c", add(s[2], mul(s[3], t[1]))))
            else:
                sel.append(("v", t[1], add(s[2], mul(s[3], t[2])), s[3] * t[3]))
    return ArrRef(obj.base, sel, shape, obj.aslist)


def is_record(I_, st, obj):
    return len(obj.shape) == 0 and any(s[0] == "v" for s in obj.sel)


def rec_item(obj, col):
    return ArrRef(obj.base, [s if s[0] == "c" else ("c", col) for s in obj.sel], ())


def rec_col(I_, st, obj, idx, node):
    base, sel, c = base_content(I_, st, obj)
    if not isinstance(idx, int):
        I_.unsupported(node, "field of a record")
    n = len(dt_cols(c.dtype))
    if not -n <= idx < n:
        I_.oblige("index in bounds: " + I_.loc(node), st, False)
        I_.unsupported(node, "record index out of range")
    return rec_item(obj, idx % n)


def read_scalar(I_, st, v):
    base, sel, c = base_content(I_, st, v)
    return I_.read(base, tuple(s[1] for s in sel), st)


def array_get(I_, obj, idx, st, node):
    if isinstance(obj, Choice):
        obj = obj.as_array(I_, st)
    if is_record(I_, st, obj):
        if isinstance(idx, SliceV):
            base, sel, c = base_content(I_, st, obj)
            n = len(dt_cols(c.dtype))
            return tuple(read_scalar(I_, st, rec_item(obj, j)) for j in range(n)[slice(idx.lo, idx.hi, idx.step)])
        return read_scalar(I_, st, rec_col(I_, st, obj, idx, node))
    if len(obj.shape) == 0:
        I_.unsupported(node, "index of a scalar")
    if obj.aslist:
        if isinstance(idx, tuple):
            I_.unsupported(node, "tuple index of a list")
        if isinstance(idx, SliceV):
            v = view(I_, obj, idx, st, node)
            f, dt = snapshot(I_, st, v)
            return new_array(I_, st, v.shape, dt, f, aslist=True)
    if isinstance(idx, ArrRef) and len(idx.shape) == 1 and len(obj.shape) == 1 and not obj.aslist:
        r = take(I_, obj, idx, st, node)
        if r is not None:
            return r
    v = view(I_, obj, idx, st, node)
    if len(v.shape) == 0:
        if is_record(I_, st, v):
            return v
        return read_scalar(I_, st, v)
    return v


def take(I_, obj, idx, st, node):
    """obj[idx] for an array of indices"""
    g, gt = snapshot(I_, st, idx)
    f, dt = snapshot(I_, st, obj)
    if dt_is_struct(gt) or dt_is_struct(dt) or gt[0] not in "iu":
        return None

    def at(k):
        v = g(k)
        if isz(v) and z3.is_app(v) and v.decl().name() in CLOSED:
            v = CLOSED[v.decl().name()](v.arg(0))
        return v

    k = I_.new_digit("k", idx.shape[0])
    i = at(k)
    j = I_.check_index(i, obj.shape[0], st, node)
    if not peq(to_z(i), to_z(j)):
        I_.unsupported(node, "indices of unknown sign")
    v = f(j)
    return new_array(I_, st, tuple(idx.shape), dt, lambda i: subst(v, [(k, to_z(i))]))


# strictly increasing sequences in closed form: name -> function
CLOSED = {}


def array_set(I_, obj, idx, v, st, node):
    if is_record(I_, st, obj):
        t = rec_col(I_, st, obj, idx, node)
        return store(I_, st, t, v, node)
    t = view(I_, obj, idx, st, node)
    if obj.aslist and len(t.shape):
        # list slice assignment of equal length
        it = I_.iterable(v, st, node)
        if not (isinstance(it, list) and len(it) == t.shape[0]):
            I_.unsupported(node, "list slice assignment")
        for j, x in enumerate(it):
            store(I_, st, view(I_, t, j, st, node), x, node)
        return
    assign_array(I_, st, t, v, node)


def store(I_, st, t, v, node):
    """scalar store"""
    if isinstance(v, (ArrRef, Choice)):
        if isinstance(v, Choice):
            v = v.as_array(I_, st)
        if all(isinstance(d, int) and d == 1 for d in v.shape):
            f, _ = snapshot(I_, st, v)
            v = f(*[0] * len(v.shape))
        else:
            I_.unsupported(node, "array stored into a scalar cell")
    assign_array(I_, st, t, v, node)


def same_dim(I_, a, b, st):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    if peq(a, b):
        return True
    return I_.decide(cmp("==", a, b), st)


def broadcast_to(I_, st, x, shape, node):
    """function of an index of `shape` giving x's element"""
    f, dt = snapshot(I_, st, x)
    xs = list(x.shape)
    if len(xs) > len(shape):
        while len(xs) > len(shape):
            if not (isinstance(xs[0], int) and xs[0] == 1):
                I_.oblige("shapes match: " + I_.loc(node), st, False)
                I_.unsupported(node, "shapes do not match")
            xs.pop(0)
        k = len(x.shape) - len(xs)
        f0 = f
        f = lambda *i: f0(*([0] * k), *i)
    off = len(shape) - len(xs)
    m = []
    for d, n in enumerate(xs):
        t = shape[off + d]
        if isinstance(n, int) and n == 1 and not (isinstance(t, int) and t == 1):
            m.append("b")
        else:
            r = same_dim(I_, n, t, st)
            if r is None:
                I_.oblige("shapes match: " + I_.loc(node), st, cmp("==", n, t))
            elif r is False:
                I_.oblige("shapes match: " + I_.loc(node), st, False)
                I_.unsupported(node, f"shapes do not match ({n} and {t})")
            m.append("i")
    struct = dt_is_struct(dt)

    def g(*i):
        j = [0 if k == "b" else i[off + d] for d, k in enumerate(m)]
        if struct:
            j.append(i[-1])
        return f(*j)

    return g, dt


def assign_array(I_, st, t, v, node):
    """t[...] = v with broadcasting"""
    if isinstance(t, Choice):
        I_.unsupported(node, "store into a path-dependent array")
    base, sel, c = base_content(I_, st, t)
    if getattr(c, "ro", False):
        I_.unsupported(node, "store into a derived array")
    tv = ArrRef(base, sel, t.shape)
    struct = dt_is_struct(c.dtype)
    if isinstance(v, (Choice, ChoiceSeq)):
        v = v.as_array(I_, st)
    if isinstance(v, (tuple, list)) or (isinstance(v, Ref) and isinstance(st.heap[v.oid], ListC)) or (isinstance(v, IterV)):
        it = I_.iterable(v, st, node)
        if struct or not isinstance(it, list) or len(t.shape) < 1:
            I_.unsupported(node, "sequence stored into an array")
        v = array_from_list(I_, st, it, None, node)
    if isinstance(v, ArrRef) and not (len(v.shape) == 0 and not is_record(I_, st, v)):
        g, vdt = broadcast_to(I_, st, v, t.shape, node)
        if struct != dt_is_struct(vdt):
            I_.unsupported(node, "record and plain arrays mixed")
        getv = g
    else:
        if isinstance(v, ArrRef):
            v = read_scalar(I_, st, v)
        if isinstance(v, (Ref, ElemRef, Poison)) or v is None:
            I_.unsupported(node, f"store of {type(v).__name__} into an array")
        if isinstance(v, Opaque):
            v = v
        if struct and any(s[0] == "v" for s in sel[-1:]):
            I_.unsupported(node, "scalar stored into a record")
        getv = lambda *i: v
    coltype = None
    if struct and sel[-1][0] == "c":
        coltype = dt_cols(c.dtype)[sel[-1][1]]
    elif not struct:
        coltype = c.dtype
    if I_.complex_seen and not (coltype is not None and coltype[0] == "c"):
        not_complex(I_, st, [v], node)
    if coltype is not None and not isinstance(v, ArrRef):
        v0 = cast(v, coltype)
        getv = lambda *i: v0
        coltype = None
    I_.log_write(base, view_pattern(tv, c), st)
    old = c.fn
    shape = t.shape
    full = [False] * len(sel)
    if isinstance(c, ArrC):
        dims = list(c.shape)
    else:
        e = sel[0]
        dims = [None] + list(c.shapefn(c_elem(e)))
    for a, s in enumerate(sel):
        if s[0] == "v":
            if s[1] >= len(shape):
                full[a] = True
            elif a < len(dims) and isinstance(s[2], int) and s[2] == 0 and s[3] == 1:
                d, n = dims[a], shape[s[1]]
                full[a] = (isinstance(d, int) and isinstance(n, int) and d == n) or (d is not None and peq(d, n))
    nv = len(shape) + (1 if struct and any(s[0] == "v" and s[1] >= len(shape) for s in sel) else 0)
    cdt = c.dtype

    def fn(*idx):
        cond = []
        vi = [0] * nv
        for a, (s, i) in enumerate(zip(sel, idx)):
            if s[0] == "c":
                cond.append(cmp("==", i, s[1]))
            else:
                x = sub(i, s[2]) if s[3] == 1 else None
                if s[3] == 1:
                    vi[s[1]] = x
                    if not full[a]:
                        cond.append(cmp(">=", x, 0))
                        cond.append(cmp("<", x, shape[s[1]]))
                elif s[3] == -1:
                    x = sub(s[2], i)
                    vi[s[1]] = x
                    cond += [cmp(">=", x, 0), cmp("<", x, shape[s[1]])]
                else:
                    x = sub(i, s[2])
                    if isinstance(x, int):
                        cond.append(x % s[3] == 0)
                        x = x // s[3]
                    else:
                        cond.append(to_z(x) % s[3] == 0)
                        x = to_z(x) / s[3]
                    vi[s[1]] = x
                    cond += [cmp(">=", x, 0), cmp("<", x, shape[s[1]])]
        cnd = conj(*cond)
        if cnd is False:
            return old(*idx)
        val = getv(*vi)
        ct = coltype if not struct else (dt_cols(cdt)[idx[-1]] if coltype is None and isinstance(v, ArrRef) else coltype)
        if ct is not None:
            val = cast(val, ct)
        if cnd is True:
            return val
        return ite(cnd, val, old(*idx))

    if isinstance(c, ArrC):
        st.heap[base] = ArrC(c.shape, c.dtype, fn)
    else:
        st.heap[base] = FieldC(c.kind, c.shapefn, c.dtype, fn)


def c_elem(s):
    if s[0] != "c":
        raise Unsupported("view over several elements")
    return s[1]


def common_dtype(a, b):
    if a == b:
        return a
    rank = {"b": 0, "i": 1, "u": 1, "f": 2, "c": 3}
    if a is None:
        return b
    if b is None:
        return a
    if a[0] == "s" or b[0] == "s":
        if a[0] == b[0]:
            return a if len(a) == 1 or len(b) > 1 and int(a[1:]) >= int(b[1:] or 0) else b
        raise Unsupported("mixed array types")
    if rank[a[0]] != rank[b[0]]:
        return a if rank[a[0]] > rank[b[0]] else b
    return max(a, b)


def scalar_dtype(v):
    if isinstance(v, (Str, str)):
        return "s"
    if is_bool_t(v):
        return "b"
    if has_imag(v):
        return "c16"
    return "f8" if is_real_t(v) else "i8"


# Complex numbers: a + b*1j is the real term a + b*IMAG for an indeterminate IMAG.  Equal terms (for every IMAG) have
# equal parts; products of two complex numbers, comparisons and functions of complex numbers are not modelled.
IMAG = z3.Const("imaginary unit", R)
_imag = {}


def not_complex(I_, st, vs, node):
    """neither numbers nor arrays that may be complex"""
    for v in vs:
        if has_imag(v) or isinstance(v, Choice):
            I_.unsupported(node, "function or comparison of complex numbers")
        if isinstance(v, ArrRef) and not is_record(I_, st, v) and base_content(I_, st, v)[2].dtype[0] == "c":
            I_.unsupported(node, "function or comparison of complex numbers")
        if isinstance(v, (tuple, list)):
            not_complex(I_, st, v, node)
        if isinstance(v, Ref) and isinstance(st.heap[v.oid], ListC):
            not_complex(I_, st, st.heap[v.oid].items, node)


def has_imag(v):
    if not isz(v):
        return False
    k = v.get_id()
    if k not in _imag:
        _imag[k] = (v.eq(IMAG) or any(has_imag(c) for c in v.children()), v)
    return _imag[k][0]


def array_from_list(I_, st, items, dt, node):
    """np.array of a (nested) sequence of concrete length"""
    if not items:
        return new_array(I_, st, (0,), dt or "f8", zeros_fn(dt or "f8"))
    subs = []
    for x in items:
        if isinstance(x, Ref) and isinstance(st.heap[x.oid], ListC):
            x = st.heap[x.oid].items
        if isinstance(x, (tuple, list)):
            x = array_from_list(I_, st, list(x), dt, node)
        subs.append(x)
    if all(isinstance(x, ArrRef) and x.shape for x in subs):
        fs = [snapshot(I_, st, x) for x in subs]
        sh = subs[0].shape
        for x in subs[1:]:
            if len(x.shape) != len(sh) or not all(same_dim(I_, p, q, st) for p, q in zip(x.shape, sh)):
                I_.unsupported(node, "ragged sequence")
        d = dt
        if d is None:
            for f, t in fs:
                d = common_dtype(d, t)

        def fn(i, *r):
            return select(i, [cast(f(*r), d) for f, _ in fs])

        return new_array(I_, st, (len(items),) + tuple(sh), d, fn)
    d = dt
    for x in subs:
        if isinstance(x, ArrRef) and x.shape:
            I_.unsupported(node, "ragged sequence")
        if not is_scalar(x) and not isinstance(x, (str, Str)):
            I_.unsupported(node, f"array of {type(x).__name__}")
        if dt is None:
            d = common_dtype(d, scalar_dtype(x))
    vals = [cast(x, d) for x in subs]
    return new_array(I_, st, (len(items),), d, lambda i: select(i, vals))


def select(i, vals):
    if isinstance(i, int):
        return vals[i]
    r = vals[-1]
    for j in range(len(vals) - 2, -1, -1):
        r = ite(cmp("==", i, j), vals[j], r)
    return r


def as_arr(I_, st, v, node):
    if isinstance(v, Choice):
        v = v.as_array(I_, st)
    if isinstance(v, ArrRef):
        return v
    if isinstance(v, (tuple, list)):
        return array_from_list(I_, st, list(v), None, node)
    if isinstance(v, Ref):
        c = st.heap[v.oid]
        if isinstance(c, ListC):
            return array_from_list(I_, st, list(c.items), None, node)
        if isinstance(c, SListC):
            x = c.get(fresh("t"))
            return new_array(I_, st, (c.n,), scalar_dtype(x), c.get)
    if isinstance(v, SListC):
        return new_array(I_, st, (v.n,), scalar_dtype(v.get(fresh("t"))), v.get)
    I_.unsupported(node, f"{type(v).__name__} used as an array")


def immutable(x):
    return is_scalar(x) or isinstance(x, (str, Str, files.Text)) or isinstance(x, tuple) and all(immutable(y) for y in x)


def bshape(I_, st, a, b, node):
    n = max(len(a), len(b))
    a = (1,) * (n - len(a)) + tuple(a)
    b = (1,) * (n - len(b)) + tuple(b)
    out = []
    for x, y in zip(a, b):
        if isinstance(x, int) and x == 1:
            out.append(y)
        elif isinstance(y, int) and y == 1:
            out.append(x)
        else:
            r = same_dim(I_, x, y, st)
            if r is None:
                I_.oblige("shapes match: " + I_.loc(node), st, cmp("==", x, y))
            if r is False:
                I_.oblige("shapes match: " + I_.loc(node), st, False)
                I_.unsupported(node, "operands could not be broadcast together")
            out.append(x if isinstance(x, int) else y)
    return tuple(out)


def zipmap(I_, st, a, b, f, dt, node):
    """elementwise operation"""
    sa = None if (is_scalar(a) or isinstance(a, (str, Str))) else as_arr(I_, st, a, node)
    sb = None if (is_scalar(b) or isinstance(b, (str, Str))) else as_arr(I_, st, b, node)
    shape = bshape(I_, st, sa.shape if sa is not None else (), sb.shape if sb is not None else (), node)
    ga, da = broadcast_to(I_, st, sa, shape, node) if sa is not None else ((lambda *i: a), None)
    gb, db = broadcast_to(I_, st, sb, shape, node) if sb is not None else ((lambda *i: b), None)
    d = dt(da if da is not None else scalar_dtype(a), db if db is not None else scalar_dtype(b), da is None, db is None)
    if shape == ():
        return f(ga(), gb())
    return new_array(I_, st, shape, d, lambda *i: f(ga(*i), gb(*i)))


def arith_dtype(op):
    def d(a, b, sa, sb):
        if a[0] == "s" or dt_is_struct(a) or b[0] == "s":
            raise Unsupported("arithmetic on strings")
        if sa and not sb:
            r = b if RANK[a[0]] <= RANK[b[0]] else a
        elif sb and not sa:
            r = a if RANK[b[0]] <= RANK[a[0]] else b
        else:
            r = common_dtype(a, b)
        if isinstance(op, ast.Div) and r[0] not in "fc":
            r = "f8"
        if r[0] == "c" and not isinstance(op, (ast.Add, ast.Sub)):
            if a[0] == "c" and b[0] == "c" or not isinstance(op, (ast.Mult, ast.Div)) or isinstance(op, ast.Div) and b[0] == "c":
                raise Unsupported("complex arithmetic")
        return r

    return d


RANK = {"b": 0, "i": 1, "f": 2, "c": 3}


def binop(I_, st, op, a, b, node):
    quiet = {}

    def f(x, y):
        return I_.arith_np(op, x, y, st, node)

    return zipmap(I_, st, a, b, f, arith_dtype(op), node)


def compare_arrays(I_, st, o, a, b, node):
    return zipmap(I_, st, a, b, lambda x, y: cmp(o, x, y), lambda *k: "b", node)


def unary(I_, st, v, f, node, dt=None):
    if is_scalar(v):
        return f(v)
    x = as_arr(I_, st, v, node)
    g, d = snapshot(I_, st, x)
    if x.shape == ():
        return f(g())
    return new_array(I_, st, x.shape, dt or d, lambda *i: f(g(*i)))


def other_binop(I_, st, op, a, b, node):
    if isinstance(op, ast.Add):
        if isinstance(a, (str, bytes)) and type(a) is type(b):
            return a + b
        if isinstance(a, tuple) and isinstance(b, tuple):
            return a + b
        if isinstance(a, Ref) and isinstance(b, Ref):
            return list_concat(I_, st, a, b, node)
    if isinstance(op, ast.Mult):
        for x, y in ((a, b), (b, a)):
            if isinstance(x, str) and isinstance(y, int):
                return x * y
            if isinstance(x, tuple) and isinstance(y, int):
                return x * y
            if isinstance(x, Ref) and isinstance(st.heap[x.oid], ListC) and is_int_t(y):
                items = st.heap[x.oid].items
                if isinstance(y, int):
                    return Ref(I_.new(st, ListC(items * max(y, 0))))
                if len(items) == 1 and (is_scalar(items[0]) or isinstance(items[0], (str, Str))):
                    v = items[0]
                    n = y if I_.decide(cmp(">=", y, 0), st) is True else ite(cmp(">=", y, 0), y, 0)
                    return Ref(I_.new(st, SListC(n, Fn(lambda i: v))))
    if isinstance(op, ast.Mod) and isinstance(a, (str, bytes)):
        try:
            if isinstance(a, str):
                return files.percent(I_, st, a, b, node)
        except Unsupported:
            pass
        return Opaque("formatted text")
    if isinstance(op, ast.Mult):
        for x, y in ((a, b), (b, a)):
            if isinstance(x, str) and len(x) == 1 and is_int_t(y):
                return files.RepStr("", x, y)
    if isinstance(op, ast.Add) and isinstance(a, (str, Str)) and files.as_text(b) is not None:
        t = files.as_text(a)
        return t.binop(I_, st, op, b, node)
    if hasattr(b, "rbinop"):
        return b.rbinop(I_, st, op, a, node)
    if getattr(a, "binop", None) is not None:
        return a.binop(I_, st, op, b, node)
    I_.unsupported(node, f"operator on {type(a).__name__} and {type(b).__name__}")


def list_concat(I_, st, a, b, node):
    ca, cb = st.heap[a.oid], st.heap[b.oid]
    if isinstance(ca, ListC) and isinstance(cb, ListC):
        return Ref(I_.new(st, ListC(ca.items + cb.items)))
    if hasattr(ca, "concat"):
        return ca.concat(I_, st, b, node)
    if isinstance(ca, RListC) and isinstance(cb, RListC):
        if I_.marks and ca.rid <= I_.marks[-1] and cb.rid > I_.marks[-1]:
            import loops

            return Ref(I_.new(st, loops.AccListC(ca, (("r", cb),))))
        return Ref(I_.new(st, region_concat(I_, st, ca, cb, node)))
    sa, sb = as_slist(I_, st, ca, node), as_slist(I_, st, cb, node)
    n1 = sa.n
    return Ref(I_.new(st, SListC(add(sa.n, sb.n), Fn(lambda i: ite(cmp("<", i, n1), sa.get(i), sb.get(sub(i, n1)))))))


def as_slist(I_, st, c, node):
    if isinstance(c, SListC):
        return c
    if isinstance(c, ListC):
        items = c.items
        return SListC(len(items), Fn(lambda i: select(i, list(items)))) if items else SListC(0, Fn(lambda i: 0))
    I_.unsupported(node, "list concatenation")


def region_concat(I_, st, ca, cb, node):
    """new region holding the elements of both; the old ones are redirected to it"""
    ra, rb = st.heap[ca.rid], st.heap[cb.rid]
    if isinstance(ra, RedirectC) or isinstance(rb, RedirectC) or ca.rid == cb.rid:
        I_.unsupported(node, "concatenation of element lists that share elements")
    if ra.cls is not rb.cls or set(ra.fields) != set(rb.fields):
        I_.unsupported(node, "concatenation of different element types")
    for c, r in ((ca, ra), (cb, rb)):
        if not (isinstance(c.lo, int) and c.lo == 0) or r.n is None or not peq(r.n, c.n):
            I_.unsupported(node, "concatenation of partial element lists")
    n1, n = ca.n, add(ca.n, cb.n)
    rid = I_.new(st, RegionC(ra.cls, ra.fields, n))
    for f in ra.fields:
        x, y = st.heap[(ca.rid, f)], st.heap[(cb.rid, f)]
        if isinstance(x, Poison) or isinstance(y, Poison) or x.kind != y.kind or x.dtype != y.dtype:
            st.heap[(rid, f)] = Poison("different types in concatenated element lists")
            continue
        st.heap[(rid, f)] = FieldC(x.kind, (lambda e, x=x, y=y: tuple(ite(cmp("<", e, n1), p, q) for p, q in zip(x.shapefn(e), y.shapefn(sub(e, n1))))), x.dtype, (lambda e, *i, x=x, y=y: ite(cmp("<", e, n1), x.fn(e, *i), y.fn(sub(e, n1), *i))))
    st.heap[ca.rid] = RedirectC(rid, lambda i: i)
    st.heap[cb.rid] = RedirectC(rid, lambda i: add(i, n1))
    I_.log_alloc(ca.rid, st)
    I_.log_alloc(cb.rid, st)
    return RListC(n, rid, 0)


def list_extend(I_, st, a, b, node):
    ca = st.heap[a.oid]
    it = I_.iterable(b, st, node)
    if isinstance(ca, ListC) and isinstance(it, list):
        st.heap[a.oid] = ListC(ca.items + tuple(it))
        return
    I_.unsupported(node, "list extension")


# ------------------------------------------------------------------ fresh instances in a region
def list_comp(I_, n, st, fr):
    if len(n.generators) == 1:
        g = n.generators[0]
        it = I_.iterable(I_.eval(g.iter, st, fr), st, g.iter)
        c = st.heap[fr]
        if isinstance(it, list):
            out = []
            for x in it:
                f = I_.new(st, FrameC({}, fr, c.module, c.fn))
                I_.assign(g.target, x, st, f)
                ok = True
                for t in g.ifs:
                    v = I_.truth(I_.eval(t, st, f), st, t)
                    d = I_.decide(v, st)
                    if d is None:
                        I_.unsupported(n, "condition in a comprehension")
                    ok = ok and d
                if ok:
                    out.append(I_.eval(n.elt, st, f))
            return Ref(I_.new(st, ListC(out)))
        if g.ifs or it.guard is not None:
            I_.unsupported(n, "condition in a comprehension over a symbolic range")
        if len(it.axes) != 1:
            I_.unsupported(n, "comprehension over several symbolic axes")
        cnt = it.axes[0]
        k = I_.new_digit("k", cnt)
        before = dict(st.heap)
        hi = I_.counter
        f = I_.new(st, FrameC({}, fr, c.module, c.fn))
        I_.assign(g.target, it.get([k]), st, f)
        v = I_.eval(n.elt, st, f)
        for key, x in before.items():
            if st.heap.get(key) is not x and not isinstance(x, FrameC):
                I_.unsupported(n, "comprehension with side effects")
        if is_scalar(v) or isinstance(v, (Str, str)):
            return Ref(I_.new(st, SListC(cnt, Fn(lambda i: subst(v, [(k, to_z(i))])))))
        if isinstance(v, ElemRef) or getattr(v, "pure", False):
            ev = v
            return Ref(I_.new(st, SListC(cnt, Fn(lambda i: subst(ev, [(k, to_z(i))])))))
        if isinstance(v, Ref) and v.oid > hi and isinstance(st.heap[v.oid], InstC):
            return Ref(I_.new(st, RListC(cnt, region_of(I_, st, st.heap[v.oid], k, cnt, hi, n), 0)))
        I_.unsupported(n, f"comprehension of {type(v).__name__}")
    I_.unsupported(n, "nested comprehension")


def region_of(I_, st, inst, k, n, hi, node):
    rid = I_.new(st, RegionC(inst.cls, list(inst.attrs), n))
    for a, v in inst.attrs.items():
        st.heap[(rid, a)] = field_of(I_, st, v, k, hi, node)
    return rid


def field_of(I_, st, v, k, hi, node):
    S = lambda x, e: subst(x, [(k, to_z(e))])
    if isinstance(v, ArrRef) and v.base > hi:
        f, dt = snapshot(I_, st, v)
        sh = v.shape
        return FieldC("list" if v.aslist else "array", (lambda e: tuple(S(d, e) for d in sh)), dt, (lambda e, *i: S(f(*i), e)))
    if isinstance(v, Ref) and v.oid > hi and isinstance(st.heap[v.oid], ListC):
        items = st.heap[v.oid].items
        dt = "s" if all(isinstance(x, (str, Str)) for x in items) else "o"
        return FieldC("list", (lambda e: (len(items),)), dt, (lambda e, i: S(select(i, list(items)), e)))
    if is_scalar(v) or isinstance(v, (str, Str)):
        return FieldC("scalar", (lambda e: ()), scalar_dtype(v), (lambda e: S(v, e)))
    I_.unsupported(node, f"attribute of type {type(v).__name__} in a family of objects")


def set_elem_attr(I_, obj, name, v, st, node):
    r, c = I_.resolve_elem(st, obj)
    if name not in c.fields:
        I_.unsupported(node, f"new attribute {name}")
    key = (r.rid, name)
    fc = st.heap[key]
    e0 = r.idx
    if fc.kind == "scalar":
        I_.log_write(key, [("c", e0)], st)
        if not (is_scalar(v) or isinstance(v, (str, Str))):
            I_.unsupported(node, "attribute type")
        st.heap[key] = FieldC("scalar", fc.shapefn, fc.dtype, lambda e: ite(cmp("==", e, e0), v, fc.fn(e)))
        return
    if isinstance(v, Choice):
        v = v.as_array(I_, st)
    if not isinstance(v, ArrRef) or v.aslist != (fc.kind == "list"):
        I_.unsupported(node, f"assignment of {type(v).__name__} to attribute {name}")
    # the array object must be fresh and not otherwise used: it becomes the attribute
    base, sel, c0 = base_content(I_, st, v)
    if not (isinstance(base, int) and isinstance(c0, ArrC) and I_.is_fresh(base, st) and all(s[0] == "v" for s in sel)):
        I_.unsupported(node, f"attribute {name} set to an array that may be shared")
    if c0.dtype != fc.dtype:
        I_.unsupported(node, "attribute changes its type")
    fn, shape = c0.fn, c0.shape
    old = fc
    I_.log_write(key, [("c", e0)] + [("all",)] * (len(shape) + (1 if dt_is_struct(c0.dtype) else 0)), st, whole=True)
    I_.log_write(("#shape",) + key, [("c", e0)], st)
    nold = len(old.shapefn(e0))

    def sf(e):
        cnd = cmp("==", e, e0)
        if cnd is True:
            return tuple(shape)
        if cnd is False:
            return old.shapefn(e)
        return tuple(ite(cnd, a, b) for a, b in zip(shape, old.shapefn(e)))

    if nold != len(shape):
        I_.unsupported(node, "attribute changes its number of dimensions")
    st.heap[key] = FieldC(fc.kind, sf, fc.dtype, lambda e, *i: ite(cmp("==", e, e0), fn(*i), old.fn(e, *i)))
    st.heap[base] = AliasC(key, e0)


# ------------------------------------------------------------------ attributes of containers and arrays
def container_attr(I_, obj, c, name, st, node):
    if isinstance(c, SetC) and name in ("intersection", "isdisjoint", "issubset"):
        return Builtin(name, lambda I_, st, a, k, n: set_op(name)(I_, st, obj, a, n))
    if hasattr(c, "attr"):
        return c.attr(I_, st, obj, name, node)
    if isinstance(c, ListC):
        if name == "append":
            def app(I_, st, a, k, n):
                cc = st.heap[obj.oid]
                st.heap[obj.oid] = ListC(cc.items + (a[0],))
            return Builtin("append", app)
        if name == "extend":
            return Builtin("extend", lambda I_, st, a, k, n: list_extend(I_, st, obj, a[0], n))
        if name == "index":
            def index(I_, st, a, k, n):
                for j, x in enumerate(st.heap[obj.oid].items):
                    d = I_.decide(I_.compare(ast.Eq(), x, a[0], st, n), st)
                    if d is True:
                        return j
                    if d is None:
                        break
                I_.unsupported(n, "list.index")
            return Builtin("index", index)
    if isinstance(c, SListC):
        if name == "append":
            def app2(I_, st, a, k, n):
                cc = st.heap[obj.oid]
                v = a[0]
                m = cc.n
                I_.log_write(obj.oid, [("append",)], st)
                st.heap[obj.oid] = SListC(add(m, 1), Fn(lambda i: ite(cmp("==", i, m), v, cc.get(i))))
            return Builtin("append", app2)
    if isinstance(c, DictC):
        if name == "update":
            def update(I_, st, a, k, n):
                new = []
                if a:
                    if len(a) != 1 or not isinstance(a[0], Ref) or not isinstance(st.heap[a[0].oid], DictC):
                        I_.unsupported(n, "update")
                    new = list(st.heap[a[0].oid].items)
                new += list(k.items())
                if not all(isinstance(x, (str, int, dsmodel.SymItems)) for x, _ in new + list(st.heap[obj.oid].items)):
                    I_.unsupported(n, "update")
                I_.log_write(obj.oid, [("update",)], st)
                old = st.heap[obj.oid].items
                ks = [x for x, _ in new]
                st.heap[obj.oid] = DictC([(x, new[ks.index(x)][1] if x in ks else y) for x, y in old] + [(x, y) for x, y in new if x not in [z for z, _ in old]])
            return Builtin("update", update)
        if any(isinstance(x, dsmodel.SymItems) for x, _ in c.items):
            I_.unsupported(node, "dictionary of symbolic length")
        if name == "items":
            return Builtin("items", lambda I_, st, a, k, n: tuple(c.items))
        if name == "keys":
            return Builtin("keys", lambda I_, st, a, k, n: tuple(x for x, _ in c.items))
        if name == "values":
            return Builtin("values", lambda I_, st, a, k, n: tuple(x for _, x in c.items))
    if isinstance(c, SetC) and name == "intersection":
        def inter(I_, st, a, k, n):
            if hasattr(a[0], "intersect_any"):
                return a[0].intersect_any(I_, st, c.items)
            other = I_.iterable(a[0], st, n)
            return Ref(I_.new(st, SetC([x for x in c.items if any(I_.decide(I_.compare(ast.Eq(), x, y, st, n), st) is True for y in other)])))
        return Builtin("intersection", inter)
    I_.unsupported(node, f"attribute {name} of {type(c).__name__}")


def set_op(which):
    def f(I_, st, obj, a, n):
        items = st.heap[obj.oid].items
        if len(a) != 1:
            I_.unsupported(n, which)
        cs = [(x, I_.contains(a[0], x, st, n)) for x in items]
        if which == "intersection":
            return CondSet(cs)
        if which == "isdisjoint":
            return lnot(disj(*[c for _, c in cs]))
        if which == "issubset":
            return conj(*[c for _, c in cs])
    return f


class CondSet:
    """set of values each of which is present under a condition"""

    def __init__(self, items):
        self.items = items

    def truth(self, I_, st):
        return disj(*[c for _, c in self.items])

    def any_true(self, I_, st):
        return disj(*[c for x, c in self.items if x])


def flat_index(I_, st, shape, node):
    """function: flat index -> multi index (C order)"""
    from interp import idivmod

    def g(t):
        out = []
        for n in reversed(shape[1:]):
            q, r = idivmod(I_, t, n, I_.gstate())
            out.append(r)
            t = q
        out.append(t)
        return list(reversed(out))

    return g


def prod_terms(ts):
    r = 1
    for t in ts:
        r = mul(r, t)
    return r


def reshape_order(I_, st, ar, shape, order, node):
    if order in ("F", "A") and (order == "F" or len(ar.shape) == 1):
        if order == "A":
            return reshape(I_, st, ar, shape, node)
        # column-major: the same with all axes reversed
        if len(ar.shape) > 1:
            f, dt = snapshot(I_, st, ar)
            ar = new_array(I_, st, tuple(reversed(ar.shape)), dt, lambda *i: f(*reversed(i)))
        r = reshape(I_, st, ar, list(reversed(list(shape))), node)
        g, dt = snapshot(I_, st, r)
        out = new_array(I_, st, tuple(reversed(r.shape)), dt, lambda *i: g(*reversed(i)))
        st.heap[out.base].ro = True
        return out
    if order != "C":
        I_.unsupported(node, "reshape order")
    return reshape(I_, st, ar, shape, node)


def reshape(I_, st, ar, shape, node):
    f, dt = snapshot(I_, st, ar)
    if dt_is_struct(dt):
        I_.unsupported(node, "reshape of records")
    tot = prod_terms(ar.shape)
    shape = list(shape)
    if any(isinstance(d, int) and d == -1 for d in shape):
        k = shape.index(-1)
        rest = prod_terms(shape[:k] + shape[k + 1 :])
        if isinstance(tot, int) and isinstance(rest, int):
            shape[k] = tot // rest
        elif isinstance(rest, int) and rest == 1:
            shape[k] = tot
        else:
            I_.unsupported(node, "reshape with -1")
    new = prod_terms(shape)
    if not same_dim(I_, tot, new, st):
        I_.oblige("reshape keeps the size: " + I_.loc(node), st, cmp("==", tot, new))
    # same dimensions (up to ones)?
    a = [d for d in ar.shape if not (isinstance(d, int) and d == 1)]
    b = [d for d in shape if not (isinstance(d, int) and d == 1)]
    if len(a) == len(b) and all(peq(x, y) for x, y in zip(a, b)):
        def fn(*i):
            it = [x for x, d in zip(i, shape) if not (isinstance(d, int) and d == 1)]
            j = []
            for d in ar.shape:
                j.append(0 if isinstance(d, int) and d == 1 else it.pop(0))
            return f(*j)
    else:
        src = tuple(ar.shape)
        fl = flat_index(I_, st, src, node)

        def fn(*i):
            t = 0
            for x, d in zip(i, shape):
                t = add(mul(t, d), x)
            return f(*fl(t))

    r = new_array(I_, st, tuple(shape), dt, fn)
    st.heap[r.base].ro = True
    return r


def array_attr(I_, obj, name, st, node):
    if isinstance(obj, Choice):
        obj = obj.as_array(I_, st)
    if name == "shape":
        return tuple(obj.shape)
    if name == "size":
        return prod_terms(obj.shape)
    if name == "ndim":
        return len(obj.shape)
    if name == "dtype":
        return DType(dtype(I_, st, obj))
    if obj.aslist:
        if name == "copy":
            return Builtin("copy", lambda I_, st, a, k, n: copy_array(I_, st, obj))
        if name == "append":
            def app(I_, st, a, k, n):
                I_.unsupported(n, "append to an element's list")
            return Builtin("append", app)
        I_.unsupported(node, f"list attribute {name}")
    if name == "copy":
        return Builtin("copy", lambda I_, st, a, k, n: copy_array(I_, st, obj))
    if name in ("min", "max", "sum", "mean", "prod", "all", "any"):
        return Builtin(name, lambda I_, st, a, k, n: reduce_array(I_, st, obj, name, k.get("axis", a[0] if a else None), n))
    if name in ("ravel", "flatten"):
        return Builtin(name, lambda I_, st, a, k, n: reshape(I_, st, obj, [prod_terms(obj.shape)], n))
    if name == "reshape":
        return Builtin(name, lambda I_, st, a, k, n: reshape_order(I_, st, obj, a[0] if len(a) == 1 and isinstance(a[0], tuple) else (list(st.heap[a[0].oid].items) if len(a) == 1 and isinstance(a[0], Ref) else a), k.get("order", "C"), n))
    if name == "T":
        f, dt = snapshot(I_, st, obj)
        return new_array(I_, st, tuple(reversed(obj.shape)), dt, lambda *i: f(*reversed(i)))
    if name == "astype":
        def astype(I_, st, a, k, n):
            d = dtype_of(I_, a[0])
            f, _ = snapshot(I_, st, obj)
            return new_array(I_, st, obj.shape, d, lambda *i: cast(f(*i), d))
        return Builtin("astype", astype)
    if name == "tolist":
        def tolist(I_, st, a, k, n):
            if len(obj.shape) != 1:
                I_.unsupported(n, "tolist")
            f, _ = snapshot(I_, st, obj)
            if isinstance(obj.shape[0], int):
                return Ref(I_.new(st, ListC([f(i) for i in range(obj.shape[0])])))
            return Ref(I_.new(st, SListC(obj.shape[0], Fn(f))))
        return Builtin("tolist", tolist)
    if name == "fill":
        return Builtin("fill", lambda I_, st, a, k, n: assign_array(I_, st, obj, a[0], n))
    if name == "sort":
        def sort_(I_, st, a, k, n):
            if a or k:
                I_.unsupported(n, "sort with arguments")
            f, dt = snapshot(I_, st, obj)
            g = sorted_form(f, obj.shape)
            if g is None:
                I_.unsupported(n, "sort")
            assign_array(I_, st, obj, new_array(I_, st, obj.shape, dt, g), n)
        return Builtin("sort", sort_)
    r = files.array_io(I_, obj, name, st, node)
    if r is not None:
        return r
    I_.unsupported(node, f"array attribute {name}")


def sorted_form(f, shape):
    """entries in ascending order, for an array that is a known permutation of an increasing sequence"""
    if len(shape) != 1:
        return None
    t = fresh("t")
    v = f(t)
    if not isz(v) or not z3.is_app(v) or v.num_args() != 1:
        return None
    x = v.arg(0)
    if v.decl().name() in MONO and x.eq(t) and peq(MONO[v.decl().name()][2], shape[0]):
        return f
    if z3.is_app(x) and x.decl().name() in PERM and x.arg(0).eq(t):
        S, P, n = PERM[x.decl().name()]
        if v.decl().eq(S) and peq(n, shape[0]):
            return lambda i: S(to_z(i))
    return None  # not a known permutation


def copy_array(I_, st, ar):
    f, dt = snapshot(I_, st, ar)
    return new_array(I_, st, ar.shape, dt, f, ar.aslist)


def min2(a, b):
    return ite(cmp("<=", a, b), a, b)


def max2(a, b):
    return ite(cmp(">=", a, b), a, b)


_red = {}


def red_fun(name, nd):
    if (name, nd) not in _red:
        _red[(name, nd)] = z3.Function(f"red_{name}{nd}", z3.ArraySort(*([I] * nd), R), *([I] * nd), R)
    return _red[(name, nd)]


def reduction(I_, name, f, dims):
    """min/max/sum/mean of f over dims (a symbolic box): a canonical term"""
    vs = [z3.Int(f"red!{i}") for i in range(len(dims))]
    body = to_z(to_real(f(*vs)))
    lam = z3.Lambda(vs, body)
    t = red_fun(name, len(dims))(lam, *[to_z(d) for d in dims])
    I_.reductions[t.get_id()] = (name, f, dims, t)
    return t


def reduce_array(I_, st, ar, name, axis, node):
    f, dt = snapshot(I_, st, ar)
    nd = len(ar.shape)
    if axis is None:
        axes = list(range(nd))
    else:
        axes = list(axis) if isinstance(axis, tuple) else [axis]
        axes = [a % nd for a in axes]
    keep = [d for d in range(nd) if d not in axes]

    def at(*k):
        def g(*i):
            idx = [None] * nd
            for d, x in zip(keep, k):
                idx[d] = x
            for d, x in zip(axes, i):
                idx[d] = x
            return f(*idx)

        dims = [ar.shape[d] for d in axes]
        if all(isinstance(d, int) for d in dims):
            vals = [g(*i) for i in itertools.product(*[range(d) for d in dims])]
            if not vals:
                I_.unsupported(node, "reduction of an empty array")
            if len(vals) <= 64:
                r = vals[0]
                for v in vals[1:]:
                    r = {"min": min2, "max": max2, "sum": add, "mean": add, "prod": mul, "all": conj, "any": disj}[name](r, v)
                if name == "mean":
                    r = mul(to_real(r), Fraction(1, len(vals)))
                return r
        if name in ("all", "any", "prod"):
            I_.unsupported(node, "symbolic reduction")
        return reduction(I_, name, g, dims)

    rdt = "b" if name in ("all", "any") else ("f8" if name == "mean" and dt[0] != "f" else dt)
    if not keep:
        return at()
    return new_array(I_, st, [ar.shape[d] for d in keep], rdt, at)


class StrMethods:
    pass


def scalar_attr(I_, obj, name, st, node):
    if hasattr(obj, "attr"):
        return obj.attr(I_, st, name, node)
    if isinstance(obj, tuple) and name == "index":
        return Builtin("index", lambda I_, st, a, k, n: obj.index(a[0]))
    if isinstance(obj, Str):
        if name == "encode":
            return Builtin(name, lambda I_, st, a, k, n: files.ByteStr(obj))
        if name == "rstrip":
            def rstrip(I_, st, a, k, n):
                if a or k:
                    I_.unsupported(n, "rstrip of characters")
                return files.str_fn(files.STRIP, obj)
            return Builtin(name, rstrip)
    if is_scalar(obj):
        if name == "astype":
            return Builtin("astype", lambda I_, st, a, k, n: cast(obj, dtype_of(I_, a[0])))
        if name in ("copy", "item"):
            return Builtin(name, lambda I_, st, a, k, n: obj)
        if name in ("tofile", "byteswap", "tobytes") and isz(obj) and z3.is_app(obj) and obj.decl().eq(ROUND4):
            return files.Scal(obj, "f4").attr(I_, st, name, node)
    if isinstance(obj, (str, bytes)) and name in ("strip", "upper", "lower", "split", "join", "format", "ljust", "rjust", "encode", "decode", "index", "startswith", "endswith", "replace"):
        def m(I_, st, a, k, n):
            if name == "join":
                it = I_.iterable(a[0], st, n)
                if not isinstance(it, list):
                    return Opaque("joined text")
                if all(isinstance(x, str) for x in it):
                    return obj.join(it)
                if isinstance(obj, str) and all(files.as_text(x) is not None for x in it):
                    ps = []
                    for x in it:
                        ps += ([(True, obj)] if ps else []) + list(files.as_text(x).pieces)
                    return files.Text(ps)
                return Opaque("joined text")
            if name == "format":
                return format_text(I_, st, obj, a, k)
            if not all(isinstance(x, (str, int, bytes)) for x in a):
                return Opaque("formatted text")
            r = getattr(obj, name)(*a)
            return Ref(I_.new(st, ListC(r))) if isinstance(r, list) else r
        return Builtin(name, m)
    if isinstance(obj, Opaque):
        return Builtin(name, lambda I_, st, a, k, n: Opaque())
    if isinstance(obj, (FuncVal, Builtin)) and name == "__name__":
        return obj.name if isinstance(obj, Builtin) else obj.node.name
    return None


def slice_concrete(I_, seq, s, st, node):
    if all(x is None or isinstance(x, int) for x in (s.lo, s.hi, s.step)):
        return seq[slice(s.lo, s.hi, s.step)]
    I_.unsupported(node, "symbolic slice")


def slice_slist(I_, c, s, st, node):
    lo, step, cnt = slice_range(I_, st, s, c.n, node)
    return Ref(I_.new(st, SListC(cnt, Fn(lambda i: c.get(add(lo, mul(step, i)))))))


def pow2(I_, b, st, n):
    I_.unsupported(n, "power")


def format_text(I_, st, obj, a, k):
    """str.format with plain fields"""
    import string

    out, auto = [], 0
    for text, name, spec, conv in string.Formatter().parse(obj):
        if text:
            out.append((True, text))
        if name is None:
            continue
        if name == "":
            name, auto = str(auto), auto + 1
        x = a[int(name)] if name.isdigit() and int(name) < len(a) else k.get(name)
        if x is None or conv or "{" in spec:
            return Opaque("formatted text")
        if isinstance(x, (str, int)) and not isinstance(x, bool):
            out.append((True, format(x, spec)))
            continue
        try:
            p = files.format_piece(x, spec)
        except Unsupported:
            p = None
        if p is None:
            return Opaque("formatted text")
        out += p
    if all(c is True and isinstance(x, str) for c, x in out):
        return "".join(x for _, x in out)
    return files.Text(out)


def fstring(I_, n, st, fr):
    out = []
    for v in n.values:
        if isinstance(v, ast.Constant):
            out.append((True, v.value))
            continue
        try:
            x = I_.eval(v.value, st, fr)
        except Unsupported:
            return Opaque("text")
        spec = ""
        if v.format_spec is not None:
            if not all(isinstance(p, ast.Constant) for p in v.format_spec.values):
                return Opaque("text")
            spec = "".join(p.value for p in v.format_spec.values)
        if isinstance(x, (str, int)) and not isinstance(x, bool) and v.conversion == -1:
            out.append((True, format(x, spec)))
        elif isinstance(x, DType) and v.format_spec is None:
            out.append((True, {"f8": "float64", "f4": "float32"}.get(x.d, x.d)))
        else:
            m = re.fullmatch(r"<?([1-9]\d*)s?", spec)
            if m and isinstance(x, files.Text) and v.conversion == -1 and not out and len(n.values) == 1:
                return x.pad(I_, st, int(m.group(1)), n)
            try:
                p = files.format_piece(x, spec) if v.conversion == -1 else None
            except Unsupported:
                p = None
            if p is None:
                return Opaque("text")
            out += p
    t = files.Text(out)
    l = t.lit()
    return l if l is not None else t


def attrs_init(I_, cls, self_, args, kwargs, st, node):
    """class decorated with attrs.define"""
    names, conv_, fact = [], {}, {}
    for s in cls.node.body:
        if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
            nm = s.target.id
            names.append(nm)
            if isinstance(s.value, ast.Call):
                for k in s.value.keywords:
                    if k.arg == "converter":
                        conv_[nm] = k.value
                    elif k.arg == "factory":
                        fact[nm] = k.value
                    else:
                        I_.unsupported(node, "attrs field option")
            elif s.value is not None:
                I_.unsupported(node, "attrs default")
    if len(args) > len(names):
        I_.unsupported(node, "too many arguments")
    vals = dict(zip(names, args))
    for k, v in kwargs.items():
        if k in vals or k not in names:
            I_.unsupported(node, "attrs argument")
        vals[k] = v
    fr = I_.new(st, FrameC({}, None, cls.module, cls.name))
    d = {}
    for nm in names:
        if nm not in vals:
            if nm not in fact:
                I_.unsupported(node, f"missing argument {nm}")
            vals[nm] = I_.call(I_.eval(fact[nm], st, fr), [], {}, st, node)
        v = vals[nm]
        if nm in conv_:
            v = I_.call(I_.eval(conv_[nm], st, fr), [v], {}, st, node)
        d[nm] = v
    st.heap[self_.oid] = InstC(cls, d)
    if "__attrs_post_init__" in cls.members:
        fv = FuncVal(cls.members["__attrs_post_init__"], cls.module, None, cls.name + ".__attrs_post_init__", cls)
        I_.call_function(fv, [self_], {}, st, node)


# ------------------------------------------------------------------ builtins
def conv(I_, st, nm, a, k, n):
    if nm == "super":
        return SuperVal()
    if not a:
        return {"float": Fraction(0), "int": 0, "str": "", "bool": False, "tuple": (), "list": None, "dict": None, "bytes": b"", "object": None, "set": None}[nm] if nm not in ("list", "dict", "set") else Ref(I_.new(st, {"list": ListC, "dict": DictC, "set": SetC}[nm](())))
    v = a[0]
    if nm in ("float", "int"):
        if isinstance(v, (ArrRef, Choice)):
            v = as_arr(I_, st, v, n)
            if prod_terms(v.shape) != 1 and v.shape != ():
                I_.unsupported(n, "conversion of an array")
            f, _ = snapshot(I_, st, v)
            v = f(*[0] * len(v.shape))
        if isinstance(v, (str, bytes)):
            try:
                return int(v) if nm == "int" else frac(float(v))
            except ValueError:
                raise_exc(I_, st, "ValueError")
        if hasattr(v, "to_number"):
            return v.to_number(I_, st, nm, n)
        if not is_scalar(v):
            I_.unsupported(n, f"{nm}() of {type(v).__name__}")
        if nm == "int" and isz(v) and is_bool_t(v):
            d = I_.decide(v, st)
            v = v if d is None else d
        return to_real(v) if nm == "float" else to_int(v if not is_bool_t(v) else coerce2(v, 0)[0])
    if nm == "bool":
        return I_.truth(v, st, n)
    if nm == "str" and hasattr(v, "as_str"):
        return v.as_str()
    if nm == "str":
        return v if isinstance(v, (str, Str)) else (str(v) if isinstance(v, int) else Opaque("text"))
    if nm in ("tuple", "list", "set"):
        if nm == "list" and isinstance(v, Ref) and isinstance(st.heap[v.oid], (RListC, SListC)):
            return Ref(I_.new(st, st.heap[v.oid]))
        it = I_.iterable(v, st, n)
        if isinstance(it, list):
            return tuple(it) if nm == "tuple" else Ref(I_.new(st, (ListC if nm == "list" else SetC)(it)))
        if len(it.axes) == 1 and it.guard is None:
            k = I_.new_digit("k", it.axes[0])
            pc = st.pc
            st.pc = pc + [k >= 0, to_z(cmp("<", k, it.axes[0]))]
            x = it.get([k])
            st.pc = pc
            if immutable(x):
                return Ref(I_.new(st, SListC(it.axes[0], Fn(lambda i: subst(x, [(k, to_z(i))])))))
        I_.unsupported(n, f"{nm}() of a symbolic sequence")
    if nm == "type":
        return Opaque("type")
    I_.unsupported(n, f"{nm}()")


class SuperVal:
    def attr(self, I_, st, name, node):
        if name == "__setattr__":
            def sa(I_, st, a, k, n):
                # called from a __setattr__ method: the receiver is the method's first parameter
                fr = None
                for oid in sorted((o for o in st.heap if isinstance(o, int)), reverse=True):
                    c = st.heap[oid]
                    if isinstance(c, FrameC) and c.fn.endswith("__setattr__"):
                        fr = c
                        break
                self_ = fr.vars["self"]
                I_._in_setattr = True
                try:
                    I_.setattr(self_, a[0], a[1], st, n)
                finally:
                    I_._in_setattr = False
            return Builtin("object.__setattr__", sa)
        I_.unsupported(node, f"super().{name}")


def raise_exc(I_, st, kind):
    I_.sink[-1].extend(st.raises)
    st.raises = []
    I_.sink[-1].append((list(st.pc), ExcVal(kind), st))
    raise PathEnds()


@mod("numpy.arccos", "math.acos")
def _(I_, st, a, k, n):
    if isnum(a[0]) and a[0] == -1:
        return PI
    I_.unsupported(n, "arccos")


@mod("numpy.fft.irfft2")
def _(I_, st, a, k, n):
    h = getattr(I_, "fft_hook", None)
    if h is None:
        I_.unsupported(n, "irfft2")
    for x, nm in zip(a[1:], ("s", "axes")):
        k = {**k, nm: x}
    if not a or not set(k) <= {"s", "axes"}:
        I_.unsupported(n, "arguments of irfft2")
    return h(I_, st, a[0], k.get("s"), k.get("axes", (-2, -1)), n)


@native("range")
def _(I_, st, a, k, n):
    if len(a) == 1:
        lo, hi, step = 0, a[0], 1
    else:
        lo, hi = a[0], a[1]
        step = a[2] if len(a) > 2 else 1
    for x in (lo, hi):
        if not is_int_t(x):
            if is_real_t(x):
                I_.oblige("range of integers: " + I_.loc(n), st, False)
            I_.unsupported(n, "range bound")
    if I_.pins:  # bounds that the path condition determines (optional: costs solver calls)
        lo, hi = I_.pinned(lo, st), I_.pinned(hi, st)
    if isinstance(lo, int) and isinstance(hi, int) and isinstance(step, int):
        r = range(lo, hi, step)
        return IterV([len(r)], (lambda d: r[d[0]] if isinstance(d[0], int) else add(lo, mul(step, d[0]))), "range")
    if step == 1:
        cnt = sub(hi, lo)
        if isinstance(lo, int) and lo == 0:
            c = hi
        else:
            c = cnt
        if I_.decide(cmp(">=", c, 0), st) is not True:
            c = ite(cmp(">=", c, 0), c, 0)
        return IterV([c], lambda d: add(lo, d[0]), "range")
    if step == -1:
        cnt = sub(lo, hi)
        if I_.decide(cmp(">=", cnt, 0), st) is not True:
            cnt = ite(cmp(">=", cnt, 0), cnt, 0)
        return IterV([cnt], lambda d: sub(lo, d[0]), "range")
    I_.unsupported(n, "range step")


@native("len")
def _(I_, st, a, k, n):
    v = a[0]
    if isinstance(v, (tuple, str, bytes)):
        return len(v)
    if isinstance(v, (ArrRef, Choice)):
        return as_arr(I_, st, v, n).shape[0]
    if isinstance(v, Ref):
        c = st.heap[v.oid]
        if isinstance(c, (ListC, DictC, SetC)):
            return len(c.items)
        if isinstance(c, (SListC, RListC)):
            return c.n
        if hasattr(c, "length"):
            return c.length(I_, st)
    if hasattr(v, "length"):
        return v.length(I_, st)
    if isinstance(v, (files.Text, files.BytesVal)):
        return v.len()
    I_.unsupported(n, f"len of {type(v).__name__}")


@native("enumerate")
def _(I_, st, a, k, n):
    off = a[1] if len(a) > 1 else k.get("start", 0)
    it = I_.iterable(a[0], st, n)
    if isinstance(it, list):
        return tuple((add(off, i), x) for i, x in enumerate(it))

    def idx(d):
        t = 0
        for x, m in zip(d, it.axes):
            t = add(mul(t, m), x)
        return t

    if it.guard is not None:
        I_.unsupported(n, "enumerate of a filtered sequence")
    return IterV(it.axes, lambda d: (add(off, idx(d)), it.get(d)))


@native("zip")
def _(I_, st, a, k, n):
    its = [I_.iterable(x, st, n) for x in a]
    if all(isinstance(i, list) for i in its):
        return tuple(tuple(t) for t in zip(*its))
    axes = []
    for i in its:
        if isinstance(i, list):
            axes.append(len(i))
        elif len(i.axes) == 1 and i.guard is None:
            axes.append(i.axes[0])
        else:
            I_.unsupported(n, "zip")
    cnt = axes[0]
    for x in axes[1:]:
        if same_dim(I_, cnt, x, st) is True:
            if isinstance(x, int):
                cnt = x
        else:
            cnt = min2(cnt, x)

    def get(d):
        return tuple(select_val(I_, i, d[0]) if isinstance(i, list) else i.get([d[0]]) for i in its)

    return IterV([cnt], get)


def select_val(I_, items, i):
    if isinstance(i, int):
        return items[i]
    r = items[-1]
    for j in range(len(items) - 2, -1, -1):
        r = I_.merge_val(cmp("==", i, j), items[j], r)
    return r


@mod("itertools.product")
def _(I_, st, a, k, n):
    its = [I_.iterable(x, st, n) for x in a]
    if "repeat" in k:
        its = its * k["repeat"]
    if all(isinstance(i, list) for i in its):
        return tuple(itertools.product(*its))
    axes, parts = [], []
    for i in its:
        if isinstance(i, list):
            if i and all(type(x) is int for x in i) and i == list(range(i[0], i[0] + len(i))):
                parts.append((len(axes), 1, (lambda d, i=i: add(i[0], d[0])), None))
            else:
                parts.append((len(axes), 1, (lambda d, i=i: select_val(I_, i, d[0])), None))
            axes.append(len(i))
        else:
            if i.guard is not None:
                I_.unsupported(n, "product of a filtered sequence")
            parts.append((len(axes), len(i.axes), i.get, None))
            axes += i.axes
    return IterV(axes, lambda d: tuple(g(d[p : p + m]) for p, m, g, _ in parts), "product")


@mod("itertools.repeat")
def _(I_, st, a, k, n):
    cnt = a[1] if len(a) > 1 else k.get("times")
    if cnt is None:
        I_.unsupported(n, "infinite repeat")
    if not isinstance(cnt, int) and I_.decide(cmp(">=", cnt, 0), st) is not True:
        cnt = ite(cmp(">=", cnt, 0), cnt, 0)
    return IterV([cnt], lambda d: a[0])


@mod("functools.partial")
def _(I_, st, a, k, n):
    if k:
        I_.unsupported(n, "partial with keywords")
    return PartialVal(a[0], a[1:])


class MapV:
    def __init__(self, f, it):
        self.f, self.it = f, it


@native("map")
def _(I_, st, a, k, n):
    if len(a) != 2:
        I_.unsupported(n, "map")
    it = I_.iterable(a[1], st, n)
    if isinstance(it, list):
        return tuple(I_.call(a[0], [x], {}, st, n) for x in it)
    return IterV(it.axes, lambda d: I_.call(a[0], [it.get(d)], {}, st, n), guard=it.guard)


@mod("functools.reduce")
def _(I_, st, a, k, n):
    it = I_.iterable(a[1], st, n)
    if isinstance(it, list):
        if len(a) > 2:
            acc = a[2]
        else:
            if not it:
                I_.unsupported(n, "reduce of an empty sequence")
            acc, it = it[0], it[1:]
        for x in it:
            acc = I_.call(a[0], [acc, x], {}, st, n)
        return acc
    import loops

    return loops.symbolic_reduce(I_, a[0], it, a[2] if len(a) > 2 else None, st, n)


def minmax(which):
    def f(I_, st, a, k, n):
        if k:
            I_.unsupported(n, "min/max with keywords")
        if len(a) == 1:
            it = I_.iterable(a[0], st, n)
            if not isinstance(it, list):
                if isinstance(a[0], ArrRef) and len(a[0].shape) == 1:
                    return reduce_array(I_, st, a[0], which, None, n)
                if isinstance(a[0], ArrRef) and isinstance(a[0].shape[0], int):
                    it = [it.get([i]) for i in range(a[0].shape[0])]
                else:
                    I_.unsupported(n, which + " of a symbolic sequence")
            a = it
        vs = []
        for x in a:
            if isinstance(x, (ArrRef, Choice)):
                x = as_arr(I_, st, x, n)
                if not all(isinstance(d, int) and d == 1 for d in x.shape):
                    I_.unsupported(n, which + " of arrays")
                f_, _ = snapshot(I_, st, x)
                x = f_(*[0] * len(x.shape))
            vs.append(x)
        r = vs[0]
        for v in vs[1:]:
            if not is_scalar(v) or not is_scalar(r):
                I_.unsupported(n, which)
            r = min2(r, v) if which == "min" else max2(r, v)
        return r

    return f


BUILTINS["min"] = minmax("min")
BUILTINS["max"] = minmax("max")


def absv(v):
    if isnum(v):
        return abs(v)
    return ite(cmp(">=", v, 0), v, neg(v))


@native("abs")
def _(I_, st, a, k, n):
    return unary(I_, st, a[0], absv, n)


@native("sum")
def _(I_, st, a, k, n):
    it = I_.iterable(a[0], st, n)
    r = a[1] if len(a) > 1 else 0
    if isinstance(it, list):
        for x in it:
            r = I_.binop(ast.Add(), r, x, st, n)
        return r
    if len(it.axes) == 1 and it.guard is None:
        j = z3.Int("red!0")
        v = it.get([j])
        if is_bool_t(v):
            v = coerce2(v, 0)[0]
        return add(r, sum_term(v, j, it.axes[0]))
    I_.unsupported(n, "sum of a symbolic sequence")


def sum_term(v, j, n):
    """sum over j in [0, n) of v (a term in j)"""
    v = to_z(v)
    if v.sort() == I:
        j0 = z3.Int("red!0")
        return SUMI(z3.Lambda([j0], z3.substitute(v, (j, j0))), to_z(n))
    j0 = z3.Int("red!0")
    return SUMR(z3.Lambda([j0], z3.substitute(v, (j, j0))), to_z(n))


def allany(isall):
    def f(I_, st, a, k, n):
        v = a[0]
        if isinstance(v, Opaque):
            return v
        if hasattr(v, "any_true") and not isall:
            return v.any_true(I_, st)
        if isinstance(v, GenV) and not v.node.generators[0].ifs and len(v.node.generators) == 1:
            it = I_.gen_iter(v, st, n)
        else:
            it = I_.iterable(v, st, n)
        if not isinstance(it, list):
            if it.guard is not None:
                I_.unsupported(n, "all/any of a symbolic sequence")
            ks = [I_.new_digit("k", x) for x in it.axes]
            rng = [f for q in ks for f in I_.digits[q.get_id()][1]]
            pc = st.pc
            st.pc = pc + rng
            x = I_.truth(it.get(ks), st, n)
            st.pc = pc
            from loops import exists

            return lnot(exists(I_, ks, rng, lnot(x), 0)) if isall else exists(I_, ks, rng, x, 0)
        vs = [I_.truth(x, st, n) for x in it]
        return conj(*vs) if isall else disj(*vs)

    return f


BUILTINS["all"] = allany(True)
BUILTINS["any"] = allany(False)


@native("isinstance")
def _(I_, st, a, k, n):
    v, t = a
    ts = list(t) if isinstance(t, tuple) else [t]
    for x in ts:
        if isinstance(x, Builtin):
            nm = x.name
            if nm in ("str", "bytes", "int", "float", "dict", "list", "tuple", "type", "bool"):
                if isinstance(v, DType):
                    if nm == "type":
                        I_.unsupported(n, "isinstance of a dtype")
                    continue
                if isinstance(v, Ref):
                    c = st.heap[v.oid]
                    if {"dict": DictC, "list": (ListC, SListC, RListC)}.get(nm) and isinstance(c, {"dict": DictC, "list": (ListC, SListC, RListC)}[nm]):
                        return True
                    continue
                if nm == "str" and (isinstance(v, (str, Str)) or isinstance(v, files.Text) and not v.isbytes):
                    return True
                if nm == "bytes" and (isinstance(v, bytes) or getattr(v, "isbytes", False)):
                    return True
                if nm == "tuple" and isinstance(v, tuple):
                    return True
                if nm == "int" and is_int_t(v):
                    return True
                if nm == "float" and is_real_t(v):
                    return True
                continue
        if isinstance(x, ClassVal):
            if isinstance(v, Ref) and isinstance(st.heap[v.oid], InstC) and st.heap[v.oid].cls is x:
                return True
            if isinstance(v, ElemRef):
                return I_.resolve_elem(st, v)[1].cls is x
            continue
        h = getattr(v, "isinstance", None)
        if h is not None:
            r = h(x)
            if r:
                return True
            continue
        if isinstance(x, (Opaque, ModVal)) and (isinstance(v, (str, tuple)) or is_scalar(v)):
            continue
        if isinstance(x, (Opaque, ModVal)) and isinstance(v, Ref) and isinstance(st.heap[v.oid], InstC):
            c = st.heap[v.oid]
            nm = x.name if isinstance(x, ModVal) else x.what
            if nm in ("os.PathLike", "pathlib.Path"):
                continue
            if nm == "io.BufferedReader" and c.cls is files.FILE:
                if c.attrs["%mode"] == "rb":
                    return True
                continue
        I_.unsupported(n, "isinstance")
    return False


@native("print")
def _(I_, st, a, k, n):
    return None


@native("sorted")
def _(I_, st, a, k, n):
    it = I_.iterable(a[0], st, n)
    if isinstance(it, list) and all(isinstance(x, (int, str)) for x in it) and not k:
        return Ref(I_.new(st, ListC(sorted(it))))
    if not isinstance(it, list) and len(it.axes) == 1 and it.guard is None and not k:
        saved, I_.collect = I_.collect, False
        try:
            g = sorted_form(snapshot(I_, st, a[0])[0] if isinstance(a[0], ArrRef) else lambda i: it.get([i]), (it.axes[0],))
        finally:
            I_.collect = saved
        if g is not None:
            return Ref(I_.new(st, SListC(it.axes[0], Fn(g))))
    I_.unsupported(n, "sorted")


@mod("numpy.sort", "numpy.unique")
def _(I_, st, a, k, n):
    ar = as_arr(I_, st, a[0], n)
    f, dt = snapshot(I_, st, ar)
    g = sorted_form(f, ar.shape)
    if k or len(a) > 1 or g is None:
        I_.unsupported(n, "sort")
    return new_array(I_, st, ar.shape, dt, g)


@native("reversed")
def _(I_, st, a, k, n):
    it = I_.iterable(a[0], st, n)
    if isinstance(it, list):
        return tuple(reversed(it))
    if len(it.axes) == 1 and it.guard is None:
        m = it.axes[0]
        return IterV([m], lambda d: it.get([sub(sub(m, 1), d[0])]))
    I_.unsupported(n, "reversed")


@native("hasattr")
def _(I_, st, a, k, n):
    o = a[0]
    if isinstance(o, Ref) and isinstance(st.heap[o.oid], InstC):
        c = st.heap[o.oid]
        if a[1] in c.attrs:
            return not isinstance(c.attrs[a[1]], Poison) or I_.unsupported(n, "hasattr")
        return a[1] in c.cls.members
    I_.unsupported(n, "hasattr")


@native("getattr")
def _(I_, st, a, k, n):
    if isinstance(a[1], str):
        return I_.getattr(a[0], a[1], st, n)
    I_.unsupported(n, "getattr")


@native("setattr")
def _(I_, st, a, k, n):
    if isinstance(a[1], str):
        return I_.setattr(a[0], a[1], a[2], st, n)
    I_.unsupported(n, "setattr")


@native("slice")
def _(I_, st, a, k, n):
    if len(a) == 1:
        return SliceV(None, a[0], None)
    return SliceV(a[0], a[1], a[2] if len(a) > 2 else None)


@native("round")
def _(I_, st, a, k, n):
    if len(a) == 1 and is_int_t(a[0]):
        return a[0]
    I_.unsupported(n, "round")


@native("pow")
def _(I_, st, a, k, n):
    return I_.power(a[0], a[1], st, n)


@native("divmod")
def _(I_, st, a, k, n):
    from interp import idivmod

    if I_.decide(cmp(">", a[1], 0), st) is not True:
        I_.unsupported(n, "divmod")
    return idivmod(I_, a[0], a[1], st)


# ------------------------------------------------------------------ copy
@mod("copy.deepcopy")
def _(I_, st, a, k, n):
    memo = {}
    return deepcopy(I_, st, a[0], memo, n)


def deepcopy(I_, st, v, memo, n):
    if isinstance(v, (Ref,)):
        if v.oid in memo:
            return memo[v.oid]
        c = st.heap[v.oid]
        if isinstance(c, InstC):
            r = Ref(I_.new(st, InstC(c.cls, {})))
            memo[v.oid] = r
            st.heap[r.oid] = InstC(c.cls, {x: deepcopy(I_, st, y, memo, n) for x, y in c.attrs.items()})
            return r
        if isinstance(c, (ListC, SetC)):
            r = Ref(I_.new(st, type(c)([deepcopy(I_, st, x, memo, n) for x in c.items])))
        elif isinstance(c, DictC):
            r = Ref(I_.new(st, DictC([(x, deepcopy(I_, st, y, memo, n)) for x, y in c.items])))
        elif isinstance(c, SListC):
            I_.log_read(v.oid, [("all",)], st)
            r = Ref(I_.new(st, c))
        elif isinstance(c, RListC):
            r = Ref(I_.new(st, copy_region(I_, st, c, n)))
        else:
            I_.unsupported(n, f"deepcopy of {type(c).__name__}")
        memo[v.oid] = r
        return r
    if isinstance(v, ArrRef):
        key = (v.base, v.sel, v.shape)
        if isinstance(v.base, int) and ("a", v.base) in memo:
            return ArrRef(memo[("a", v.base)], v.sel, v.shape, v.aslist)
        r = copy_array(I_, st, v)
        if all(s[0] == "v" for s in v.sel):
            memo[("a", v.base)] = r.base
        return r
    if isinstance(v, tuple):
        return tuple(deepcopy(I_, st, x, memo, n) for x in v)
    if isinstance(v, Choice):
        return v.as_array(I_, st)
    if isinstance(v, ElemRef):
        I_.unsupported(n, "deepcopy of one element")
    return v


def copy_region(I_, st, c, n):
    """region with the same contents; c: RListC.  Logs reads of all fields."""
    rid, f = c.rid, None
    r = st.heap[rid]
    off = c.lo
    chain = []
    while isinstance(r, RedirectC):
        chain.append(r.f)
        rid = r.rid
        r = st.heap[rid]
    new = I_.new(st, RegionC(r.cls, r.fields, c.n))

    def tr(e):
        x = add(e, off)
        for g in chain:
            x = g(x)
        return x

    for a in r.fields:
        fc = st.heap[(rid, a)]
        if isinstance(fc, Poison):
            st.heap[(new, a)] = fc
            continue
        I_.log_read((rid, a), [("all",)], st)
        if not chain and isinstance(off, int) and off == 0:
            st.heap[(new, a)] = fc
        else:
            st.heap[(new, a)] = FieldC(fc.kind, (lambda e, fc=fc: fc.shapefn(tr(e))), fc.dtype, (lambda e, *i, fc=fc: fc.fn(tr(e), *i)))
    return RListC(c.n, new, 0)


# ------------------------------------------------------------------ numpy functions
def shape_arg(I_, st, v, n):
    if is_int_t(v):
        return (v,)
    it = I_.iterable(v, st, n)
    if not isinstance(it, list):
        I_.unsupported(n, "shape")
    for d in it:
        if not is_int_t(d):
            I_.unsupported(n, "shape")
    return tuple(it)


@mod("numpy.empty")
def _(I_, st, a, k, n):
    sh = shape_arg(I_, st, a[0] if a else k["shape"], n)
    dt = dtype_of(I_, k.get("dtype", a[1] if len(a) > 1 else None))
    if dt_is_struct(dt):
        return new_array(I_, st, sh, dt, zeros_fn(dt))
    # arbitrary contents
    F = z3.Function(f"empty!{I_.counter}", *([I] * len(sh)), R if dt[0] == "f" else I)
    if not sh:
        I_.unsupported(n, "empty scalar array")
    return new_array(I_, st, sh, dt, (lambda *i: F(*[to_z(x) for x in i])) if dt[0] != "s" else (lambda *i: Str(F(*[to_z(x) for x in i]))))


@mod("numpy.zeros")
def _(I_, st, a, k, n):
    sh = shape_arg(I_, st, a[0] if a else k["shape"], n)
    dt = dtype_of(I_, k.get("dtype", a[1] if len(a) > 1 else None))
    return new_array(I_, st, sh, dt, zeros_fn(dt))


@mod("numpy.ones")
def _(I_, st, a, k, n):
    sh = shape_arg(I_, st, a[0], n)
    dt = dtype_of(I_, k.get("dtype", a[1] if len(a) > 1 else None))
    return new_array(I_, st, sh, dt, lambda *i: cast(1, dt))


@mod("numpy.full")
def _(I_, st, a, k, n):
    sh = shape_arg(I_, st, a[0], n)
    v = a[1] if len(a) > 1 else k["fill_value"]
    d = k.get("dtype", a[2] if len(a) > 2 else None)
    dt = dtype_of(I_, d) if d is not None else scalar_dtype(v)
    return new_array(I_, st, sh, dt, lambda *i: cast(v, dt))


@mod("numpy.zeros_like")
def _(I_, st, a, k, n):
    x = as_arr(I_, st, a[0], n)
    dt = dtype(I_, st, x)
    return new_array(I_, st, x.shape, dt, zeros_fn(dt))


@mod("numpy.arange")
def _(I_, st, a, k, n):
    dt = dtype_of(I_, k["dtype"]) if "dtype" in k else "i8"
    lo, hi = (0, a[0]) if len(a) == 1 else a[:2]
    if len(a) > 2 or not (is_int_t(lo) and is_int_t(hi)):
        I_.unsupported(n, "arange")
    c = sub(hi, lo)
    if I_.decide(cmp(">=", c, 0), st) is not True:
        c = ite(cmp(">=", c, 0), c, 0)
    return new_array(I_, st, (c,), dt, lambda i: cast(add(lo, i), dt))


@mod("numpy.linspace")
def _(I_, st, a, k, n):
    lo, hi = a[0], a[1]
    num = a[2] if len(a) > 2 else k.get("num", 50)
    d = k.get("dtype")
    dt = dtype_of(I_, d) if d is not None else "f8"
    if set(k) - {"dtype", "num"}:
        I_.unsupported(n, "linspace options")
    if is_int_t(lo) and is_int_t(hi) and is_int_t(num) and peq(sub(hi, lo), sub(num, 1)):
        if I_.decide(cmp(">=", num, 0), st) is not True:
            I_.oblige("linspace count is not negative: " + I_.loc(n), st, cmp(">=", num, 0))
        return new_array(I_, st, (num,), dt, lambda i: cast(add(lo, i), dt))
    if dt[0] == "f" and is_int_t(num):
        lo_, hi_ = to_real(lo), to_real(hi)

        def fn(i):
            return ite(cmp("==", num, 1), lo_, add(lo_, mul(to_real(i), I_.quot(sub(hi_, lo_), to_real(sub(num, 1))))))

        return new_array(I_, st, (num,), dt, fn)
    I_.unsupported(n, "linspace")


@mod("numpy.array", "numpy.asarray")
def _(I_, st, a, k, n):
    v = a[0]
    d = k.get("dtype", a[1] if len(a) > 1 else None)
    dt = dtype_of(I_, d) if d is not None else None
    if isinstance(v, IterV) or (isinstance(v, Ref) and isinstance(st.heap[v.oid], ListC)) or isinstance(v, tuple):
        it = I_.iterable(v, st, n)
        if isinstance(it, list):
            return array_from_list(I_, st, it, dt, n)
    x = as_arr(I_, st, v, n)
    f, d0 = snapshot(I_, st, x)
    dd = dt or d0
    r = new_array(I_, st, x.shape, dd, (lambda *i: cast(f(*i), dd)) if dd != d0 else f)
    I_.copy_facts(st, x, r)
    return r


@mod("numpy.concatenate")
def _(I_, st, a, k, n):
    if k.get("axis", 0) != 0 or len(a) > 1:
        I_.unsupported(n, "concatenate axis")
    it = I_.iterable(a[0], st, n)
    if not isinstance(it, list):
        I_.unsupported(n, "concatenate of a symbolic sequence")
    arrs = [as_arr(I_, st, x, n) for x in it]
    fs = [snapshot(I_, st, x) for x in arrs]
    d = None
    for _, t in fs:
        d = common_dtype(d, t)
    tot, starts = 0, []
    for x in arrs:
        starts.append(tot)
        tot = add(tot, x.shape[0])

    def fn(i, *r):
        v = fs[-1][0](sub(i, starts[-1]), *r)
        for j in range(len(fs) - 2, -1, -1):
            v = ite(cmp("<", i, starts[j + 1]), fs[j][0](sub(i, starts[j]), *r), v)
        return v

    return new_array(I_, st, (tot,) + tuple(arrs[0].shape[1:]), d, fn)


def real_fun(F):
    def f(I_, st, a, k, n):
        return unary(I_, st, a[0], lambda x: F(I_, st, x, n), n, "f8" if not isinstance(a[0], ArrRef) else None)

    return f


def trig(fun, at0):
    def F(I_, st, x, n):
        r = to_real(x)
        if isinstance(r, Fraction) and r == 0:
            return Fraction(at0)
        return fun(to_z(r))

    return F


MODS["math.sin"] = MODS["numpy.sin"] = real_fun(trig(SIN, 0))
MODS["math.cos"] = MODS["numpy.cos"] = real_fun(trig(COS, 1))
MODS["math.atan"] = MODS["numpy.arctan"] = real_fun(trig(ATAN, 0))
MODS["math.sqrt"] = MODS["numpy.sqrt"] = real_fun(lambda I_, st, x, n: I_.sqrt(x, st, n))
MODS["numpy.abs"] = MODS["numpy.absolute"] = MODS["numpy.fabs"] = real_fun(lambda I_, st, x, n: absv(x))
MODS["math.fabs"] = MODS["numpy.abs"]


@mod("math.hypot", "numpy.hypot")
def _(I_, st, a, k, n):
    s = 0
    for x in a:
        s = I_.binop(ast.Add(), s, I_.binop(ast.Mult(), x, x, st, n), st, n)
    return unary(I_, st, s, lambda x: I_.sqrt(x, st, n), n)


def reduce_fun(name):
    def f(I_, st, a, k, n):
        v = a[0]
        if is_scalar(v):
            return v
        if name == "prod" and isinstance(v, tuple):
            return prod_terms(v)
        return reduce_array(I_, st, as_arr(I_, st, v, n), name, k.get("axis", a[1] if len(a) > 1 else None), n)

    return f


for _nm, _r in (("min", "min"), ("max", "max"), ("amin", "min"), ("amax", "max"), ("sum", "sum"), ("mean", "mean"), ("prod", "prod"), ("all", "all"), ("any", "any")):
    MODS["numpy." + _nm] = reduce_fun(_r)


def dt_minmax(a, b, sa, sb):
    return arith_dtype(None)(a, b, sa, sb)


@mod("numpy.minimum")
def _(I_, st, a, k, n):
    return zipmap(I_, st, a[0], a[1], min2, dt_minmax, n)


@mod("numpy.maximum")
def _(I_, st, a, k, n):
    return zipmap(I_, st, a[0], a[1], max2, dt_minmax, n)


@mod("numpy.linalg.norm")
def _(I_, st, a, k, n):
    x = as_arr(I_, st, a[0], n)
    if k or len(a) > 1 or len(x.shape) != 1:
        I_.unsupported(n, "norm")
    f, _ = snapshot(I_, st, x)
    y = new_array(I_, st, x.shape, "f8", lambda i: mul(f(i), f(i)))
    return I_.sqrt(reduce_array(I_, st, y, "sum", None, n), st, n)


@mod("numpy.dot")
def _(I_, st, a, k, n):
    x = zipmap(I_, st, a[0], a[1], mul, arith_dtype(ast.Mult()), n)
    return reduce_array(I_, st, x, "sum", None, n)


@mod("numpy.reshape")
def _(I_, st, a, k, n):
    order = k.get("order", a[2] if len(a) > 2 else "C")
    return reshape_order(I_, st, as_arr(I_, st, a[0], n), shape_arg(I_, st, a[1] if len(a) > 1 else k.get("shape", k.get("newshape")), n), order, n)


@mod("numpy.size")
def _(I_, st, a, k, n):
    if k or len(a) != 1:
        I_.unsupported(n, "size options")
    return prod_terms(as_arr(I_, st, a[0], n).shape)


@mod("numpy.copyto")
def _(I_, st, a, k, n):
    if k:
        I_.unsupported(n, "copyto options")
    assign_array(I_, st, a[0], a[1], n)


@mod("numpy.where")
def _(I_, st, a, k, n):
    if len(a) != 3:
        I_.unsupported(n, "where")
    I_.unsupported(n, "where")


@mod("numpy.array_equal")
def _(I_, st, a, k, n):
    I_.unsupported(n, "array_equal")


MODS["numpy.copy"] = lambda I_, st, a, k, n: copy_array(I_, st, as_arr(I_, st, a[0], n))


import files  # noqa: E402
import dsmodel  # noqa: E402
import lines  # noqa: E402
