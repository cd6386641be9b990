"""Paths as z3 strings, regular expressions as z3 regular languages, and recorders for the calls into xarray (used by C23)."""
import re
import re._constants as rc
import re._parser as rp
import sys

import z3

import npmodel as N
from heap import *
from interp import Builtin, ModVal
from npmodel import MODS
from terms import *

CH = z3.ReSort(z3.StringSort())
ANYCHAR = z3.AllChar(CH)
ALL = z3.Full(CH)


def lit(s):
    return z3.Re(z3.StringVal(s))


def cat(xs):
    xs = list(xs)
    return lit("") if not xs else xs[0] if len(xs) == 1 else z3.Concat(*xs)


def alt(xs):
    xs = list(xs)
    return xs[0] if len(xs) == 1 else z3.Union(*xs)


def rng(a, b):
    return z3.Range(z3.StringVal(chr(a)), z3.StringVal(chr(b)))


def unicode_digits():
    """the decimal digits; those that are not ASCII are represented by the Arabic-Indic ones (no pattern that is
    accepted here tells them apart)"""
    return [(48, 57), (0x660, 0x669)]


def category(c, flags):
    if c in (rc.CATEGORY_DIGIT, rc.CATEGORY_NOT_DIGIT):
        r = rng(48, 57) if flags & re.ASCII else alt(rng(a, b) for a, b in unicode_digits())
        return r if c == rc.CATEGORY_DIGIT else z3.Intersect(ANYCHAR, z3.Complement(r))
    raise Unsupported("character class in a regular expression")


def tr(items, flags):
    return cat(tr1(o, a, flags) for o, a in items)


def tr1(op, av, flags):
    if op in (rc.LITERAL, rc.NOT_LITERAL) and av >= 128:
        raise Unsupported("character that is not ASCII in a regular expression")
    if op is rc.LITERAL:
        return lit(chr(av))
    if op is rc.NOT_LITERAL:
        return z3.Intersect(ANYCHAR, z3.Complement(lit(chr(av))))
    if op is rc.ANY:
        return ANYCHAR if flags & re.DOTALL else z3.Intersect(ANYCHAR, z3.Complement(lit("\n")))
    if op is rc.IN:
        neg = bool(av) and av[0][0] is rc.NEGATE
        parts = []
        for o, a in av[1:] if neg else av:
            if (o is rc.LITERAL and a >= 128) or (o is rc.RANGE and a[1] >= 128):
                raise Unsupported("character that is not ASCII in a regular expression")
            if o is rc.LITERAL:
                parts.append(lit(chr(a)))
            elif o is rc.RANGE:
                parts.append(rng(*a))
            elif o is rc.CATEGORY:
                parts.append(category(a, flags))
            else:
                raise Unsupported("regular expression")
        r = alt(parts)
        return z3.Intersect(ANYCHAR, z3.Complement(r)) if neg else r
    if op in (rc.MAX_REPEAT, rc.MIN_REPEAT):
        lo, hi, sub_ = av
        r = tr(sub_, flags)
        if hi is rc.MAXREPEAT:
            return z3.Concat(*([r] * lo + [z3.Star(r)])) if lo else z3.Star(r)
        return z3.Loop(r, lo, int(hi))
    if op is rc.SUBPATTERN:
        g, add_, del_, p = av
        return tr(p, (flags | add_) & ~del_)
    if op is rc.BRANCH:
        return alt(tr(p, flags) for p in av[1])
    raise Unsupported(f"regular expression: {op}")


def language(pattern, flags, how):
    """the strings that pattern.match / fullmatch / search accepts; anchors at the ends only"""
    p = rp.parse(pattern, flags)
    flags |= p.state.flags
    if flags & (re.IGNORECASE | re.MULTILINE | re.LOCALE):
        raise Unsupported("flags of a regular expression")
    items = list(p)
    front = ALL if how == "search" else lit("")
    back = lit("") if how == "fullmatch" else ALL
    while items and items[0][0] is rc.AT and items[0][1] in (rc.AT_BEGINNING, rc.AT_BEGINNING_STRING):
        items.pop(0)
        front = lit("")
    if items and items[-1][0] is rc.AT:
        a = items.pop()[1]
        if a is rc.AT_END_STRING:
            back = lit("")
        elif a is rc.AT_END:
            back = lit("") if how == "fullmatch" else alt([lit(""), lit("\n")])
        else:
            raise Unsupported("anchor in a regular expression")
    return cat([front, tr(items, flags), back])


class RegexV:
    def __init__(self, pattern, flags):
        self.pattern, self.flags = pattern, flags

    def subst(self, pairs):
        return self

    def accept(self, v, how):
        if isinstance(v, str):
            return getattr(re.compile(self.pattern, self.flags), how)(v) is not None
        if not isinstance(v, ZStr):
            raise Unsupported("regular expression on an unknown text")
        return z3.InRe(v.t, language(self.pattern, self.flags, how))

    def attr(self, I_, st, name, node):
        if name not in ("match", "fullmatch", "search"):
            I_.unsupported(node, f"{name} of a regular expression")

        def f(I_, st, a, k, n):
            if len(a) != 1 or k:
                I_.unsupported(n, "arguments of " + name)
            return MatchV(self.accept(a[0], name))

        return Builtin(name, f)


class MatchV:
    """a match object or None"""

    def __init__(self, cond):
        self.cond = cond

    def subst(self, pairs):
        return MatchV(subst(self.cond, pairs))

    def truth(self, I_, st):
        return self.cond

    def is_none(self):
        return lnot(self.cond)


class ZStr:
    """an arbitrary text, a z3 string"""

    def __init__(self, t):
        self.t = t

    def subst(self, pairs):
        return self

    def truth(self, I_, st):
        return z3.Length(self.t) > 0

    def attr(self, I_, st, name, node):
        def ends(I_, st, a, k, n):
            xs = a[0] if isinstance(a[0], tuple) else (a[0],)
            if k or len(a) != 1 or not all(isinstance(x, str) for x in xs):
                I_.unsupported(n, name)
            op = z3.SuffixOf if name == "endswith" else z3.PrefixOf
            return z3.Or([op(z3.StringVal(x), self.t) for x in xs])

        if name in ("endswith", "startswith"):
            return Builtin(name, ends)
        I_.unsupported(node, f"{name} of a path")


class PathArg:
    """a path given as a string or as a path object; str() gives the text"""

    def __init__(self, t):
        self.t = t

    def subst(self, pairs):
        return self

    def as_str(self):
        return ZStr(self.t)


def re_flags(I_, x, n):
    if not isinstance(x, int):
        I_.unsupported(n, "flags of a regular expression")
    return int(x)


@N.mod("re.compile")
def _(I_, st, a, k, n):
    fl = re_flags(I_, k.get("flags", a[1] if len(a) > 1 else 0), n)
    if not isinstance(a[0], str):
        I_.unsupported(n, "regular expression")
    return RegexV(a[0], fl)


def re_fun(how):
    def f(I_, st, a, k, n):
        fl = re_flags(I_, k.get("flags", a[2] if len(a) > 2 else 0), n)
        x = a[0] if isinstance(a[0], RegexV) else RegexV(a[0], fl)
        return MatchV(x.accept(a[1], how))

    return f


for _h in ("match", "fullmatch", "search"):
    MODS["re." + _h] = re_fun(_h)
N.MODCONSTS.update({"re." + x: int(getattr(re, x)) for x in ("VERBOSE", "X", "DOTALL", "S", "ASCII", "A", "IGNORECASE", "I", "MULTILINE", "M")})


# ------------------------------------------------------------------ xarray
class VarV:
    """xarray.Variable(dims, data)"""

    pure = True

    def __init__(self, dims, data):
        self.dims, self.data = dims, data

    def subst(self, pairs):
        return VarV(self.dims, subst(self.data, pairs))


class StoreV:
    """data store of an element"""

    pure = True

    def __init__(self, elem, axes):
        self.elem, self.axes = elem, axes

    def subst(self, pairs):
        return StoreV(subst(self.elem, pairs), self.axes)

    def attr(self, I_, st, name, node):
        if name == "axes":
            return self.axes
        if name == "elem":
            return self.elem
        I_.unsupported(node, f"{name} of the data store")


class DsV:
    """a dataset: how it was made"""

    pure = True

    def __init__(self, how, *args):
        self.how, self.args = how, args

    def subst(self, pairs):
        return DsV(self.how, *[subst(x, pairs) if hasattr(x, "subst") else x for x in self.args])

    def attr(self, I_, st, name, node):
        if name in ("set_coords", "drop_vars"):
            def f(I_, st, a, k, n):
                if len(a) != 1 or k:
                    I_.unsupported(n, "arguments of " + name)
                return DsV(name, self, a[0])

            return Builtin(name, f)
        if name == "coords":
            return CoordsV(self)
        if name == "assign_coords":
            def g(I_, st, a, k, n):
                if a:
                    I_.unsupported(n, "arguments of assign_coords")
                return DsV("coords", self, tuple(k.items()))

            return Builtin(name, g)
        I_.unsupported(node, f"{name} of a dataset")


class CoordsV:
    """coordinates of a dataset; an update changes the dataset itself"""

    def __init__(self, ds):
        self.ds = ds

    def subst(self, pairs):
        raise Unsupported("coordinates escape")

    def set(self, I_, st, items, n):
        if st.pc:
            I_.unsupported(n, "conditional change of a dataset")
        I_.ds_log.append((self.ds, tuple(items)))

    def attr(self, I_, st, name, node):
        if name == "update":
            def f(I_, st, a, k, n):
                if k or len(a) != 1 or not isinstance(a[0], Ref) or not isinstance(st.heap[a[0].oid], DictC):
                    I_.unsupported(n, "arguments of update")
                self.set(I_, st, st.heap[a[0].oid].items, n)

            return Builtin(name, f)
        I_.unsupported(node, f"{name} of coordinates")


@N.mod("xarray.Variable")
def _(I_, st, a, k, n):
    b = {**dict(zip(("dims", "data"), a)), **k}
    if set(b) != {"dims", "data"}:
        I_.unsupported(n, "arguments of Variable")
    return VarV(b["dims"], b["data"])


@N.mod("xarray.Dataset.load_store")
def _(I_, st, a, k, n):
    if len(a) != 1 or k:
        I_.unsupported(n, "arguments of load_store")
    return DsV("store", a[0])


@N.mod("xarray.combine_by_coords")
def _(I_, st, a, k, n):
    if len(a) != 1 or set(k) - {"combine_attrs"}:
        I_.unsupported(n, "arguments of combine_by_coords")
    return DsV("combine", a[0])


@N.mod("xarray.core.utils.Frozen")
def _(I_, st, a, k, n):
    return a[0]


# ------------------------------------------------------------------ numpy
@N.mod("numpy.round", "numpy.around")
def _(I_, st, a, k, n):
    dec = k.get("decimals", a[1] if len(a) > 1 else 0)
    if type(dec) is not int:
        I_.unsupported(n, "decimals")
    F = z3.Function(f"round.{dec}", R, R)
    return N.unary(I_, st, a[0], lambda x: F(to_z(to_real(x))), n, "f8" if not isinstance(a[0], ArrRef) else None)


@N.mod("numpy.meshgrid")
def _(I_, st, a, k, n):
    ix = k.get("indexing", "xy")
    if set(k) - {"indexing"} or ix not in ("xy", "ij") or len(a) < 2:
        I_.unsupported(n, "arguments of meshgrid")
    arrs = [N.as_arr(I_, st, x, n) for x in a]
    if any(len(x.shape) != 1 for x in arrs):
        I_.unsupported(n, "meshgrid")
    order = list(range(len(arrs)))
    if ix == "xy":
        order[0], order[1] = 1, 0
    shape = tuple(arrs[o].shape[0] for o in order)
    out = []
    for d, x in enumerate(arrs):
        f, dt = N.snapshot(I_, st, x)
        out.append(N.new_array(I_, st, shape, dt, lambda *i, f=f, p=order.index(d): f(i[p])))
    return tuple(out)


@N.mod("numpy.array_equal")
def _(I_, st, a, k, n):
    if k or len(a) != 2:
        I_.unsupported(n, "array_equal")
    x, y = (N.as_arr(I_, st, v, n) for v in a)
    if len(x.shape) != len(y.shape):
        return False
    f, g = N.snapshot(I_, st, x)[0], N.snapshot(I_, st, y)[0]
    q = [z3.Int(f"eq!{d}") for d in range(len(x.shape))]
    inside = z3.And([z3.And(i >= 0, i < to_z(s)) for i, s in zip(q, x.shape)])
    same = z3.And([to_z(cmp("==", p, r)) for p, r in zip(x.shape, y.shape)])
    v = to_z(cmp("==", f(*q), g(*q)))
    return z3.And(same, z3.ForAll(q, z3.Implies(inside, v)))


def unique(I_, st, a, k, n):
    hook = getattr(I_, "unique_hook", None)
    if hook is None or len(a) != 1 or set(k) != {"return_index"} or k["return_index"] is not True:
        return NotImplemented
    return Opaque("sorted values"), hook(I_, st, N.as_arr(I_, st, a[0], n), n)


_old = MODS["numpy.unique"]


@N.mod("numpy.unique")
def _(I_, st, a, k, n):
    r = unique(I_, st, a, k, n)
    return _old(I_, st, a, k, n) if r is NotImplemented else r


class SymItems:
    """keys of a dictionary for a symbolic range: key, where the constant k runs over 0..n-1 (the value refers to k too)"""

    def __init__(self, n, k, key):
        self.n, self.k, self.key = n, k, key

    def subst(self, pairs):
        raise Unsupported("dictionary of symbolic length escapes")
