"""Terms: z3 expressions over Int (integers), Real (floats, treated as mathematical reals), Bool, interned strings."""
from fractions import Fraction
import time

import z3

z3.set_param("smt.random_seed", 0)


class Unsupported(Exception):
    """the engine does not model this construct: the function is undecided (never an alarm)"""


# ------------------------------------------------------------------ strings
_intern = {}
_rintern = {}


def intern_str(s):
    if s not in _intern:
        n = 0 if s == "" else len(_intern) + 1
        while n in _rintern:
            n += 1
        _intern[s] = n
        _rintern[n] = s
    return _intern[s]


intern_str("")


class Str:
    """symbolic string (an integer code; codes of literal strings are interned)"""

    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return f"Str({self.t})"


def str_term(s):
    if isinstance(s, Str):
        return s.t
    if isinstance(s, str):
        return z3.IntVal(intern_str(s))
    raise Unsupported(f"not a string: {s!r}")


# ------------------------------------------------------------------ helpers
def isz(x):
    return isinstance(x, z3.ExprRef)


def isnum(x):
    return isinstance(x, (int, float, Fraction)) and not isinstance(x, bool)


def is_int_t(x):
    return (isinstance(x, int)) or (isz(x) and x.sort() == z3.IntSort())


def is_real_t(x):
    return isinstance(x, (float, Fraction)) or (isz(x) and x.sort() == z3.RealSort())


def is_bool_t(x):
    return isinstance(x, bool) or (isz(x) and x.sort() == z3.BoolSort())


def is_scalar(x):
    return isinstance(x, (bool, int, float, Fraction)) or isz(x)


def frac(x):
    if isinstance(x, float):
        if x != x or x in (float("inf"), float("-inf")):
            raise Unsupported("non-finite float literal")
        return Fraction(repr(x))
    return Fraction(x)


def unval(t):
    """z3 numeral -> python number"""
    if isz(t):
        if z3.is_int_value(t):
            return t.as_long()
        if z3.is_rational_value(t):
            return Fraction(t.numerator_as_long(), t.denominator_as_long())
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
    return t


def to_z(x):
    if isz(x):
        return x
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, (float, Fraction)):
        f = frac(x)
        return z3.RealVal(f"{f.numerator}/{f.denominator}")
    if isinstance(x, Str):
        return x.t
    if isinstance(x, str):
        return z3.IntVal(intern_str(x))
    raise Unsupported(f"not a scalar: {type(x).__name__}")


def to_real(x):
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, (int, float, Fraction)):
        return frac(x)
    if isz(x):
        if x.sort() == z3.RealSort():
            return x
        if x.sort() == z3.IntSort():
            return z3.ToReal(x)
        if x.sort() == z3.BoolSort():
            return z3.If(x, z3.RealVal(1), z3.RealVal(0))
    raise Unsupported("to_real of %r" % (x,))


def to_bool(x):
    if isinstance(x, bool):
        return x
    if isinstance(x, (int, float, Fraction)):
        return x != 0
    if x is None:
        return False
    if isinstance(x, str):
        return x != ""
    if isinstance(x, (tuple, list)):
        return len(x) > 0
    if isinstance(x, Str):
        return x.t != 0
    if isz(x):
        if x.sort() == z3.BoolSort():
            return unval(x)
        return unval(z3.simplify(x != 0))
    raise Unsupported("truth value of %r" % (type(x).__name__,))


def coerce2(a, b):
    if isinstance(a, bool):
        a = int(a)
    if isinstance(b, bool):
        b = int(b)
    if isz(a) and a.sort() == z3.BoolSort():
        a = z3.If(a, z3.IntVal(1), z3.IntVal(0))
    if isz(b) and b.sort() == z3.BoolSort():
        b = z3.If(b, z3.IntVal(1), z3.IntVal(0))
    if is_real_t(a) or is_real_t(b):
        return to_z(to_real(a)), to_z(to_real(b))
    return to_z(a), to_z(b)


# ------------------------------------------------------------------ polynomials (integer and real terms)
_poly_cache = {}


def poly(t):
    """normal form {monomial (sorted tuple of atom ids): coefficient}"""
    return _poly(to_z(t))[0]


_atoms = {}


def _atom(t):
    i = t.get_id()
    _atoms[i] = t
    return {(i,): Fraction(1)}


def _poly(t):
    key = t.get_id()
    hit = _poly_cache.get(key)
    if hit is not None:
        return hit
    r = _poly0(t)
    r = ({m: c for m, c in r.items() if c != 0}, t)
    _poly_cache[key] = r
    return r


def _padd(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        r[m] = r.get(m, 0) + s * c
    return r


def pmul(a, b):
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = tuple(sorted(m + n))
            r[k] = r.get(k, 0) + c * d
    return {m: c for m, c in r.items() if c != 0}


def _poly0(t):
    if z3.is_int_value(t) or z3.is_rational_value(t):
        return {(): Fraction(unval(t))}
    k = t.decl().kind()
    ch = t.children()
    if k == z3.Z3_OP_ADD:
        r = {}
        for c in ch:
            r = _padd(r, _poly(c)[0])
        return r
    if k == z3.Z3_OP_SUB:
        r = _poly(ch[0])[0]
        for c in ch[1:]:
            r = _padd(r, _poly(c)[0], -1)
        return r
    if k == z3.Z3_OP_UMINUS:
        return _padd({}, _poly(ch[0])[0], -1)
    if k == z3.Z3_OP_MUL:
        r = {(): Fraction(1)}
        for c in ch:
            r = pmul(r, _poly(c)[0])
        return r
    if k == z3.Z3_OP_TO_REAL:
        # keep integer structure: ToReal distributes over + and *
        p = _poly(ch[0])[0]
        r = {}
        for m, c in p.items():
            mm = tuple(sorted(_treal(a) for a in m))
            r[mm] = r.get(mm, 0) + c
        return r
    if k == z3.Z3_OP_DIV and z3.is_rational_value(ch[1]) and unval(ch[1]) != 0:
        return {m: c / Fraction(unval(ch[1])) for m, c in _poly(ch[0])[0].items()}
    return _atom(t)


_treals = {}


def _treal(a):
    if a not in _treals:
        t = z3.ToReal(_atoms[a])
        _treals[a] = t
        _atoms[t.get_id()] = t
    return _treals[a].get_id()


def peq(a, b):
    """polynomial identity"""
    return not {m: c for m, c in _padd(poly(a), poly(b), -1).items() if c != 0}


def from_poly(p, real=False):
    if not p:
        return Fraction(0) if real else 0
    ts = []
    for m, c in sorted(p.items()):
        f = [_atoms[a] for a in m]
        if real or c.denominator != 1:
            cv = z3.RealVal(f"{c.numerator}/{c.denominator}")
            f = [x if x.sort() == z3.RealSort() else z3.ToReal(x) for x in f]
        else:
            cv = z3.IntVal(c.numerator)
        if not f:
            ts.append(cv)
        else:
            x = f[0]
            for y in f[1:]:
                x = x * y
            ts.append(x if c == 1 else cv * x)
    r = ts[0]
    for x in ts[1:]:
        r = r + x
    return unval(r)


def pnorm(t):
    """normalised integer term (or python int)"""
    if isinstance(t, (int, Fraction, float)):
        return t
    if t.sort() == z3.IntSort():
        return from_poly(poly(t))
    return unval(t)


# ------------------------------------------------------------------ arithmetic
def add(a, b):
    if isinstance(a, (int, Fraction)) and isinstance(b, (int, Fraction)) and not isinstance(a, bool) and not isinstance(b, bool):
        return a + b
    if isinstance(a, (int, Fraction)) and a == 0 and isinstance(a, int) and isz(b):
        return b if b.sort() != z3.BoolSort() else coerce2(b, 0)[0]
    if isinstance(b, int) and b == 0 and isz(a):
        return a if a.sort() != z3.BoolSort() else coerce2(a, 0)[0]
    if isnum(a) and isnum(b):
        return frac(a) + frac(b)
    a, b = coerce2(a, b)
    return unval(a + b) if a.sort() == z3.RealSort() else pnorm(a + b)


def sub(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a - b
    if isnum(a) and isnum(b):
        return frac(a) - frac(b)
    if isinstance(b, int) and not isinstance(b, bool) and b == 0 and isz(a) and a.sort() != z3.BoolSort():
        return a
    a, b = coerce2(a, b)
    return unval(a - b) if a.sort() == z3.RealSort() else pnorm(a - b)


def mul(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a * b
    if isnum(a) and isnum(b):
        return frac(a) * frac(b)
    a, b = coerce2(a, b)
    return unval(z3.simplify(a * b)) if a.sort() == z3.RealSort() and (z3.is_rational_value(a) and z3.is_rational_value(b)) else (unval(a * b) if a.sort() == z3.RealSort() else pnorm(a * b))


def neg(a):
    if isnum(a):
        return -a if isinstance(a, int) else -frac(a)
    a, _ = coerce2(a, 0) if not is_real_t(a) else (a, 0)
    return unval(-a) if a.sort() == z3.RealSort() else pnorm(-a)


def ite(c, a, b):
    c = unval(c) if isz(c) else c
    if c is True:
        return a
    if c is False:
        return b
    if a is b:
        return a
    if isinstance(a, (Str, str)) or isinstance(b, (Str, str)):
        x, y = str_term(a), str_term(b)
        return a if x.eq(y) else Str(z3.If(c, x, y))
    if isinstance(a, bool) and isinstance(b, bool) and a == b:
        return a
    if is_bool_t(a) and is_bool_t(b):
        if a is True:
            return z3.Or(c, to_z(b)) if b is not False else c
        if a is False:
            return z3.And(z3.Not(c), to_z(b)) if b is not True else z3.Not(c)
        if b is True:
            return z3.Or(z3.Not(c), a)
        if b is False:
            return z3.And(c, a)
        return a if a.eq(b) else z3.If(c, a, b)
    if is_scalar(a) and is_scalar(b):
        if isnum(a) and isnum(b) and type(a) is type(b) and a == b:
            return a
        x, y = coerce2(a, b)
        return a if x.eq(y) else z3.If(c, x, y)
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(ite(c, x, y) for x, y in zip(a, b))
    if a is None and b is None:
        return None
    raise Unsupported(f"merge of {type(a).__name__} and {type(b).__name__}")


def conj(*cs):
    out = []
    for c in cs:
        c = unval(c) if isz(c) else c
        if c is True:
            continue
        if c is False:
            return False
        out.append(c)
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(*out)


def disj(*cs):
    out = []
    for c in cs:
        c = unval(c) if isz(c) else c
        if c is False:
            continue
        if c is True:
            return True
        out.append(c)
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(*out)


def lnot(c):
    c = unval(c) if isz(c) else c
    if isinstance(c, bool):
        return not c
    if z3.is_not(c):
        return c.arg(0)
    return z3.Not(c)


def cmp(op, a, b):
    """comparison with cheap decision by polynomial identity"""
    if isinstance(a, (Str, str)) and isinstance(b, (Str, str)):
        if isinstance(a, str) and isinstance(b, str):
            return {"==": a == b, "!=": a != b, "<": a < b}[op]
        if op not in ("==", "!="):
            raise Unsupported("ordering of strings")
        x, y = str_term(a), str_term(b)
        if x.eq(y):
            return op == "=="
        return (x == y) if op == "==" else (x != y)
    if isinstance(a, (Str, str)) or isinstance(b, (Str, str)):
        if op in ("==", "!="):
            return op == "!="
        raise Unsupported("comparison of string and number")
    if isnum(a) and isnum(b):
        a, b = frac(a), frac(b)
        return {"==": a == b, "!=": a != b, "<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[op]
    if is_bool_t(a) and is_bool_t(b) and op in ("==", "!="):
        x, y = to_z(a), to_z(b)
        r = unval(z3.simplify(x == y))
        return r if op == "==" else lnot(r)
    x, y = coerce2(a, b)
    d = {m: c for m, c in _padd(_poly(x)[0], _poly(y)[0], -1).items() if c != 0}
    if not d:
        return op in ("==", "<=", ">=")
    if set(d) == {()}:
        v = d[()]
        return {"==": False, "!=": True, "<": v < 0, "<=": v <= 0, ">": v > 0, ">=": v >= 0}[op]
    return {"==": x == y, "!=": x != y, "<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y}[op]


# ------------------------------------------------------------------ uninterpreted functions with axioms
I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()
DIVF = z3.Function("div!", I, I, I)
MODF = z3.Function("mod!", I, I, I)
SQRT = z3.Function("sqrt", R, R)
SIN = z3.Function("sin", R, R)
COS = z3.Function("cos", R, R)
ATAN = z3.Function("atan", R, R)
PI = z3.Const("pi", R)
ROUND4 = z3.Function("round_to_single", R, R)


def has_if(t):
    return any(z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE for x in subterms(t))


def subterms(t):
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        yield x
        if z3.is_quantifier(x):
            st.append(x.body())
        else:
            st.extend(x.children())


def has_var(t):
    return any(z3.is_var(x) for x in subterms(t))


_consts = {}


def consts_of(t):
    """ids of the uninterpreted constants in t"""
    if not isz(t):
        return frozenset()
    i = t.get_id()
    hit = _consts.get(i)
    if hit is None:
        r = set()
        for x in subterms(t):
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                r.add(x.get_id())
        hit = (frozenset(r), t)
        _consts[i] = hit
    return hit[0]


def axioms_for(ts):
    """instances of the axioms of DIVF/MODF/SQRT/SIN/COS for the applications in ts (ground ones)"""
    out = []
    mono = {}
    seen = set()
    work = list(ts)
    while work:
        t = work.pop()
        for x in subterms(t):
            if x.get_id() in seen or not z3.is_app(x):
                continue
            seen.add(x.get_id())
            d = x.decl()
            if d.eq(DIVF) or d.eq(MODF):
                if has_var(x):
                    continue
                a, n = x.arg(0), x.arg(1)
                ax = z3.Implies(n > 0, z3.And(a == n * DIVF(a, n) + MODF(a, n), MODF(a, n) >= 0, MODF(a, n) < n, z3.Implies(z3.And(a >= 0), DIVF(a, n) >= 0), z3.Implies(a < n, DIVF(a, n) <= 0), z3.Implies(a >= n, DIVF(a, n) >= 1)))
                out.append(ax)
            elif d.eq(SQRT):
                if has_var(x):
                    continue
                a = x.arg(0)
                out.append(z3.And(x >= 0, z3.Implies(a >= 0, x * x == a), z3.Implies(a == 0, x == 0), z3.Implies(a > 0, x > 0)))
            elif d.name() in MONO:
                mono.setdefault(d.name(), {})[x.get_id()] = x
            elif d.eq(SIN) or d.eq(COS):
                if has_var(x):
                    continue
                a = x.arg(0)
                out.append(SIN(a) * SIN(a) + COS(a) * COS(a) == 1)
                if d.eq(COS):
                    out.append(z3.Implies(z3.And(2 * a < PI, -2 * a < PI), x > 0))
                if z3.is_app(a) and a.decl().eq(ATAN):
                    out.append(z3.And(SIN(a) == a.arg(0) * COS(a), COS(a) > 0))
    for nm, apps in mono.items():
        S, Sinv, n = MONO[nm]
        xs = [x for x in apps.values() if not has_var(x)][:10]
        for i, x in enumerate(xs):
            a = x.arg(0)
            out.append(z3.Implies(z3.And(a >= 0, a < n), z3.And(x >= a, Sinv(x) == a)))
            for y in xs[i + 1:]:
                b = y.arg(0)
                out.append(z3.Implies(z3.And(a >= 0, a < b, b < n), y - x >= b - a))
                out.append(z3.Implies(z3.And(b >= 0, b < a, a < n), x - y >= a - b))
    return out


# strictly increasing sequences of non-negative integers: name -> (S, its inverse, length)
MONO = {}
# permutations: name -> (S, length): S(P(i)) runs over the entries of S in some order
PERM = {}


# ------------------------------------------------------------------ solver front end
class Stats:
    def __init__(self):
        self.checks = 0
        self.t = 0.0


STATS = Stats()
_decide_cache = {}


def z3_check(assumptions, timeout_ms, extra_axioms=True):
    s = z3.Solver()
    s.set("timeout", timeout_ms)
    fs = [a for a in assumptions if a is not True]
    if any(a is False for a in fs):
        return z3.unsat, None
    for a in fs:
        s.add(a)
    if extra_axioms:
        for a in axioms_for(fs):
            s.add(a)
    t0 = time.time()
    r = s.check()
    STATS.checks += 1
    STATS.t += time.time() - t0
    return r, (s.model() if r == z3.sat else None)


def decide(c, facts, timeout_ms=1500):
    """True / False if c (or its negation) follows from facts, else None"""
    c = unval(c) if isz(c) else c
    if isinstance(c, bool):
        return c
    key = (c.get_id(), tuple(sorted(f.get_id() for f in facts if isz(f))))
    if key in _decide_cache:
        return _decide_cache[key][0]
    r = None
    if z3_check(list(facts) + [z3.Not(c)], timeout_ms)[0] == z3.unsat:
        r = True
    elif z3_check(list(facts) + [c], timeout_ms)[0] == z3.unsat:
        r = False
    _decide_cache[key] = (r, c, list(facts))
    return r


def subst(v, pairs):
    """substitute constants in a value"""
    if isz(v):
        return unval(z3.simplify(z3.substitute(v, *pairs))) if False else unval(z3.substitute(v, *pairs))
    if isinstance(v, Str):
        return Str(z3.substitute(v.t, *pairs))
    if isinstance(v, tuple):
        return tuple(subst(x, pairs) for x in v)
    if isinstance(v, (bool, int, float, Fraction, str, bytes)) or v is None:
        return v
    if hasattr(v, "subst"):
        return v.subst(pairs)
    raise Unsupported(f"substitution in {type(v).__name__}")


_fresh = [0]


def fresh(name, sort=I):
    _fresh[0] += 1
    return z3.Const(f"{name}!{_fresh[0]}", sort)
