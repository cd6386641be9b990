"""Ground instances of axioms of injective sequences, reductions, ... for the terms of a query."""
import itertools

from terms import *


def instances(fs):
    out = []
    for h in HOOKS:
        out += h(fs)
    return out


HOOKS = []


def is_red(d):
    return d.name() in ("sum_int", "sum_real") or d.name().startswith("red_")


def closed_subterms(t):
    seen, st = set(), [t]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        yield x
        if not z3.is_quantifier(x):
            st.extend(x.children())


def extensionality(fs):
    """reductions over the same box differ only if their integrands differ somewhere in it"""
    apps, out = {}, []
    for f in fs:
        for x in closed_subterms(f):
            if z3.is_app(x) and x.num_args() >= 2 and is_red(x.decl()):
                apps.setdefault(x.decl().name(), {})[x.get_id()] = x
    for xs in apps.values():
        xs = list(xs.values())[:12]
        for i, a in enumerate(xs):
            for b in xs[i + 1:]:
                if not (z3.is_quantifier(a.arg(0)) and z3.is_quantifier(b.arg(0))):
                    continue
                dims = [a.arg(j) for j in range(1, a.num_args())]
                same = [a.arg(j) == b.arg(j) for j in range(1, a.num_args())]
                sk = [z3.Int(f"ext!{a.get_id()}!{b.get_id()}!{j}") for j in range(len(dims))]
                fa = z3.substitute_vars(a.arg(0).body(), *reversed(sk))
                fb = z3.substitute_vars(b.arg(0).body(), *reversed(sk))
                inr = z3.And([z3.And(s >= 0, s < d) for s, d in zip(sk, dims)])
                out.append(z3.Implies(z3.And(same), z3.Or(a == b, z3.And(inr, fa != fb))))
    return out


HOOKS.append(extensionality)


def extrema(fs):
    """min/max over a box: a bound for every candidate index in the query, and an index where it is attained"""
    out, done = [], set()
    work = [(x, 0) for f in fs for x in closed_subterms(f) if z3.is_app(x) and is_ext(x.decl())]
    if not work:
        return out
    dims = {d.get_id() for x, _ in work for d in x.children()[1:]}
    cand = {}
    for f in fs[-1:]:
        for x in closed_subterms(f):
            if z3.is_const(x) and x.sort() == I and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.get_id() not in dims and "!" in x.decl().name():
                cand[x.get_id()] = x
    cand = list(cand.values())[:6]
    while work and len(out) < 3000:
        x, depth = work.pop()
        if x.get_id() in done or depth > 2 or not z3.is_quantifier(x.arg(0)):
            continue
        done.add(x.get_id())
        ds = x.children()[1:]
        body = x.arg(0).body()
        new = []

        def at(ix):
            b = z3.substitute_vars(body, *reversed(ix))
            new.append(b)
            return b

        inr = lambda ix: z3.And([z3.And(i >= 0, i < d) for i, d in zip(ix, ds)])
        lo = x.decl().name().startswith("red_min")
        w = [z3.Int(f"wit!{x.get_id()}!{j}") for j in range(len(ds))]
        out.append(z3.Implies(z3.And([d >= 1 for d in ds]), z3.And(inr(w), at(w) == x)))
        for ix in itertools.product(cand, repeat=len(ds)):
            if len(ds) > 1 and len(set(i.get_id() for i in ix)) < len(ds):
                continue
            b = at(list(ix))
            out.append(z3.Implies(inr(ix), x <= b if lo else x >= b))
        for b in new:
            work += [(y, depth + 1) for y in closed_subterms(b) if z3.is_app(y) and is_ext(y.decl())]
    return out


def is_ext(d):
    return d.name().startswith(("red_min", "red_max"))


HOOKS.append(extrema)
