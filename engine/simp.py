"""Query preprocessing (all steps are sound: equal rewriting, instances of axioms, generalisation)."""
import itertools

import z3

from terms import *

_canon = {}
REL = (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT, z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT)


def canon(t):
    """arguments of uninterpreted functions in polynomial normal form"""
    key = t.get_id()
    hit = _canon.get(key)
    if hit is not None:
        return hit[0]
    r = t
    if z3.is_app(t) and t.num_args():
        ch = [canon(c) for c in t.children()]
        if t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            ch = [to_z(from_poly(poly(c), c.sort() == R)) if c.sort() == I or c.sort() == R else c for c in ch]
            ch = [z3.ToReal(c) if c.sort() == I and t.decl().domain(i) == R else c for i, c in enumerate(ch)]
        if any(not a.eq(b) for a, b in zip(ch, t.children())):
            r = t.decl()(*ch)
    _canon[key] = (r, t)
    return r


def divisions(fs):
    """replace a/b with non-constant b by a fresh q, with b != 0 -> q*b == a"""
    subs, facts, memo = {}, [], {}
    keep = []

    def go(t):
        key = t.get_id()
        if key in memo:
            return memo[key]
        r = t
        if z3.is_app(t) and t.num_args():
            ch = [go(c) for c in t.children()]
            if t.decl().kind() == z3.Z3_OP_DIV and not z3.is_rational_value(ch[1]):
                pk = (tuple(sorted(poly(ch[0]).items())), tuple(sorted(poly(ch[1]).items())))
                q = subs.get(pk)
                if q is None:
                    q = z3.Real(f"quot!{len(subs)}")
                    subs[pk] = q
                    facts.append(z3.Implies(ch[1] != 0, q * ch[1] == ch[0]))
                r = q
            elif any(not a.eq(b) for a, b in zip(ch, t.children())):
                r = t.decl()(*ch)
        memo[key] = r
        keep.append(t)
        return r

    out = [go(f) for f in fs]
    return out + facts, bool(facts)


def is_pure(t):
    if not z3.is_app(t):
        return False
    k = t.decl().kind()
    if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS):
        return all(is_pure(c) for c in t.children())
    if k == z3.Z3_OP_DIV:
        return z3.is_rational_value(t.arg(1)) and is_pure(t.arg(0))
    return k != z3.Z3_OP_ITE


def unit_abstraction(fs):
    """replace every maximal non-linear polynomial by a variable of its own (a generalisation)"""
    units, memo, keep = {}, {}, []

    def go(t):
        key = t.get_id()
        if key in memo:
            return memo[key]
        keep.append(t)
        r = t
        if z3.is_app(t) and t.sort() == R and t.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS) and is_pure(t):
            p = poly(t)
            if any(len(m) > 1 for m in p):
                pk = tuple(sorted(p.items()))
                if pk not in units:
                    units[pk] = (z3.Real(f"unit!{len(units)}"), t)
                memo[key] = units[pk][0]
                return units[pk][0]
        if z3.is_app(t) and t.num_args():
            ch = [go(c) for c in t.children()]
            if any(not a.eq(b) for a, b in zip(ch, t.children())):
                r = t.decl()(*ch)
        memo[key] = r
        return r

    out = [go(f) for f in fs]
    if len(units) <= 40:
        for pk, (v, t) in units.items():
            s = z3.Solver()
            s.set("timeout", 400)
            s.add(t < 0)
            if s.check() == z3.unsat:
                out.append(v >= 0)
    return out, bool(units)


def square_abstraction(fs):
    """u - v style differences whose squares are summed: replace x by variables where only products of differences occur"""
    return fs


def nonlinear(fs):
    for f in fs:
        for x in subterms(f):
            if z3.is_app(x):
                k = x.decl().kind()
                if k == z3.Z3_OP_MUL and sum(not (z3.is_rational_value(c) or z3.is_int_value(c)) for c in x.children()) > 1:
                    return True
                if k == z3.Z3_OP_DIV and not z3.is_rational_value(x.arg(1)):
                    return True
    return False


def quantified(fs):
    return any(z3.is_quantifier(x) and not x.is_lambda() for f in fs for x in subterms(f))


def ground(fs, limit=60):
    """every quantified subformula Q gets a boolean name; Q's witness (or counterexample) is a tuple of fresh constants,
    and the universal side of Q is weakened to its instances at the witness tuples and index constants of the query"""
    names, memo, keep, facts, univ, tuples = {}, {}, [], [], [], []
    pool = {}

    def go(t, depth):
        key = t.get_id()
        if key in memo:
            return memo[key]
        keep.append(t)
        r = t
        if z3.is_quantifier(t):
            if t.is_lambda() or any(t.var_sort(i) != I for i in range(t.num_vars())) or has_free(t):
                return t
            n = t.num_vars()
            pq = z3.Bool(f"named!{len(names)}")
            names[key] = pq
            memo[key] = pq
            sk = [z3.Int(f"sk!{len(names)}!{i}") for i in range(n)]
            tuples.append(tuple(sk))
            b = go(z3.substitute_vars(t.body(), *reversed(sk)), depth + 1)
            facts.append(z3.Implies(z3.Not(pq), z3.Not(b)) if t.is_forall() else z3.Implies(pq, b))
            univ.append((pq, t, depth))
            return pq
        if z3.is_app(t) and t.num_args() and t.sort() == B:
            ch = [go(c, depth) for c in t.children()]
            if any(not a.eq(b) for a, b in zip(ch, t.children())):
                r = t.decl()(*ch)
        memo[key] = r
        return r

    out = [go(f, 0) for f in fs]
    consts = {}
    for f in fs[-1:]:
        for x in subterms(f):
            if z3.is_const(x) and x.sort() == I and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and "!" in x.decl().name():
                consts[x.get_id()] = x
    consts = list(consts.values())
    done = 0
    while done < len(univ):
        pq, t, depth = univ[done]
        done += 1
        if depth > 2:
            continue
        n = t.num_vars()
        cands = [c for c in tuples if len(c) == n]
        if 1 < n <= 3:
            cands = [p for c in cands for p in itertools.permutations(c)]
        cands += list(itertools.product(consts, repeat=n))[:limit] if len(consts) ** n <= limit else []
        if n == 1:
            cands += [(x,) for c in tuples if len(c) > 1 for x in c]
        for c in cands[:limit]:
            b = go(z3.substitute_vars(t.body(), *reversed(c)), depth + 1)
            facts.append(z3.Implies(pq, b) if t.is_forall() else z3.Implies(z3.Not(pq), z3.Not(b)))
    return out + facts


def has_free(t, depth=0):
    """free de Bruijn variables"""
    st, seen = [(t, 0)], set()
    while st:
        x, d = st.pop()
        if (x.get_id(), d) in seen:
            continue
        seen.add((x.get_id(), d))
        if z3.is_var(x):
            if z3.get_var_index(x) >= d:
                return True
        elif z3.is_quantifier(x):
            st.append((x.body(), d + x.num_vars()))
        else:
            st += [(c, d) for c in x.children()]
    return False
