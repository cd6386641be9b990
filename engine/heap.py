"""Symbolic heap: immutable contents, references, views."""
from terms import *


class Fn:
    """memoised closure index tuple -> value"""

    __slots__ = ("f", "memo")

    def __init__(self, f):
        self.f = f
        self.memo = {}

    def __call__(self, *idx):
        key = tuple(("z", i.get_id()) if isz(i) else i for i in idx)
        hit = self.memo.get(key)
        if hit is None:
            hit = (self.f(*idx), idx)
            self.memo[key] = hit
        return hit[0]


class Poison:
    def __init__(self, why):
        self.why = why


class Opaque:
    """a value of which nothing is known (log messages, formatted text)"""

    def __init__(self, what="opaque"):
        self.what = what

    def subst(self, pairs):
        return self


class Ref:
    __slots__ = ("oid",)

    def __init__(self, oid):
        self.oid = oid

    def __eq__(self, o):
        return isinstance(o, Ref) and o.oid == self.oid

    def __hash__(self):
        return hash(("ref", self.oid))

    def subst(self, pairs):
        return self


class ElemRef:
    __slots__ = ("rid", "idx")

    def __init__(self, rid, idx):
        self.rid, self.idx = rid, idx

    def subst(self, pairs):
        return ElemRef(self.rid, subst(self.idx, pairs))


class ArrRef:
    """view of an array: sel has one entry per axis of the base: ('c', index) or ('v', dim, start, step)"""

    __slots__ = ("base", "sel", "shape", "aslist", "ro")

    def __init__(self, base, sel, shape, aslist=False):
        self.base, self.sel, self.shape, self.aslist = base, tuple(sel), tuple(shape), aslist

    def subst(self, pairs):
        return ArrRef(self.base, [(s[0], subst(s[1], pairs)) if s[0] == "c" else (s[0], s[1], subst(s[2], pairs), s[3]) for s in self.sel], [subst(d, pairs) for d in self.shape], self.aslist)

    def index(self, idx):
        out = []
        for s in self.sel:
            if s[0] == "c":
                out.append(s[1])
            else:
                out.append(add(s[2], mul(s[3], idx[s[1]])))
        return out


# ---- contents
class InstC:
    def __init__(self, cls, attrs):
        self.cls, self.attrs = cls, attrs


class ListC:
    def __init__(self, items):
        self.items = tuple(items)


class SListC:
    """symbolic-length list; get: index -> value"""

    def __init__(self, n, get, what=""):
        self.n, self.get, self.what = n, get, what


class RListC:
    """elements lo..lo+n-1 of a region, each once"""

    def __init__(self, n, rid, lo=0):
        self.n, self.rid, self.lo = n, rid, lo


class DictC:
    def __init__(self, items):
        self.items = tuple(items)


class SetC:
    def __init__(self, items):
        self.items = tuple(items)


class ArrC:
    def __init__(self, shape, dtype, fn, order=None):
        self.shape, self.dtype, self.fn = tuple(shape), dtype, fn if isinstance(fn, Fn) else Fn(fn)


class FieldC:
    """one attribute of all elements of a region: shapefn(e) -> shape; fn(e, *idx)"""

    def __init__(self, kind, shapefn, dtype, fn):
        self.kind, self.dtype = kind, dtype
        self.shapefn = shapefn if isinstance(shapefn, Fn) else Fn(shapefn)
        self.fn = fn if isinstance(fn, Fn) else Fn(fn)


class RegionC:
    def __init__(self, cls, fields, n=None):
        self.cls, self.fields, self.n = cls, tuple(fields), n


class RedirectC:
    """region whose elements are elements of another region"""

    def __init__(self, rid, f):
        self.rid, self.f = rid, f


class AliasC:
    """array object that is the field of an element"""

    def __init__(self, key, e):
        self.key, self.e = key, e


class FrameC:
    def __init__(self, vars, parent, module, fn):
        self.vars, self.parent, self.module, self.fn = vars, parent, module, fn


# ---- dtype helpers.  'f8','f4','i4','i8','b','s3',... or ('struct', cols)
def dt_is_struct(d):
    return isinstance(d, tuple) and d[0] == "struct"


def dt_cols(d):
    return d[1]


def cast(v, dt):
    """value stored into a cell of dtype dt"""
    if dt is None or dt == "o":
        return v
    if dt[0] == "c":
        return to_real(v)
    if dt[0] == "f":
        if isinstance(v, (str, Str)):
            raise Unsupported("string stored into float array")
        r = to_real(v)
        if dt == "f4":
            r = round4(r)
        return r
    if dt[0] in "iu":
        if isinstance(v, bool):
            return int(v)
        if is_real_t(v):
            return to_int(v)
        if isz(v) and v.sort() == z3.BoolSort():
            return z3.If(v, z3.IntVal(1), z3.IntVal(0))
        if is_int_t(v):
            return v
        raise Unsupported("cast to int of %r" % (v,))
    if dt[0] == "b":
        return to_bool(v)
    if dt[0] == "s":
        if isinstance(v, str):
            return v[: int(dt[1:])] if dt[1:] else v
        if isinstance(v, Str):
            return v
        if hasattr(v, "cell"):
            return v.cell(dt[1:])
        raise Unsupported("cast to string of %r" % (v,))
    raise Unsupported("dtype %r" % (dt,))


def round4(r):
    if isinstance(r, Fraction):
        if abs(r) <= 2**24 and r.denominator == 1:
            return r
        r = to_z(r)
    if r.decl().eq(ROUND4):
        return r
    return ROUND4(r)


def to_int(v):
    """python int() of a real: truncation"""
    if isnum(v):
        return int(v)
    if is_int_t(v):
        return v
    p = poly(v)
    # a sum of ToReal(int) monomials with integer coefficients is an integer
    if all(c.denominator == 1 for c in p.values()) and all(z3.is_to_real(_a(a)) for m in p for a in m):
        q = {}
        for m, c in p.items():
            ids = tuple(sorted(_ids(_a(x).arg(0)) for x in m))
            q[ids] = q.get(ids, 0) + c
        return from_poly(q)
    if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_ITE:
        return z3.If(v.arg(0), to_z(to_int(unval(v.arg(1)))), to_z(to_int(unval(v.arg(2)))))
    v = to_z(v)
    return z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))


def _a(i):
    from terms import _atoms

    return _atoms[i]


def _ids(t):
    from terms import _atom

    return next(iter(_atom(t)))[0]
