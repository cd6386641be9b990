"""Loops over symbolic ranges.  The loop is summarised by the invariant

    after the iterations before k, every cell written by an earlier iteration has the value that iteration's body
    gives it, every other cell has its value from before the loop,

which is inductive because an obligation is discharged for every pair (read or write of iteration k, write of an
earlier iteration): they are different cells.  Scalars carried around the loop must follow one of the recurrences
below (flag, sum, last value)."""
import itertools

from heap import *
from interp import Choice, FrameC, IterV, LoopCarried, Out, PathEnds, Poison, State, idivmod
from terms import *


class AccListC:
    """a list that is only appended to inside a loop"""

    def __init__(self, entry, parts=()):
        self.entry, self.parts = entry, tuple(parts)

    def attr(self, I_, st, obj, name, node):
        from interp import Builtin

        if name == "append":
            def app(I_, st, a, k, n):
                c = st.heap[obj.oid]
                st.heap[obj.oid] = AccListC(c.entry, c.parts + (("v", a[0]),))
            return Builtin("append", app)
        if name == "extend":
            def ext(I_, st, a, k, n):
                c = st.heap[obj.oid]
                if not (isinstance(a[0], Ref) and isinstance(st.heap[a[0].oid], RListC)):
                    I_.unsupported(n, "extend")
                st.heap[obj.oid] = AccListC(c.entry, c.parts + (("r", st.heap[a[0].oid]),))
            return Builtin("extend", ext)
        raise LoopCarried("list that grows in a loop is used there")

    def concat(self, I_, st, b, node):
        cb = st.heap[b.oid]
        if isinstance(cb, RListC):
            return Ref(I_.new(st, AccListC(self.entry, self.parts + (("r", cb),))))
        if isinstance(cb, ListC):
            return Ref(I_.new(st, AccListC(self.entry, self.parts + tuple(("v", x) for x in cb.items))))
        raise LoopCarried("list that grows in a loop is used there")

    def merge(self, I_, c, o):
        n = 0
        while n < min(len(self.parts), len(o.parts)) and self.parts[n] is o.parts[n]:
            n += 1
        ps, x, y = list(self.parts[:n]), self.parts[n:], o.parts[n:]
        if len(x) == len(y) and all(p[0] == q[0] == "v" for p, q in zip(x, y)):
            return AccListC(self.entry, ps + [("v", I_.merge_val(c, p[1], q[1])) for p, q in zip(x, y)])
        for cond, part in ((c, x), (lnot(c), y)):
            for p in part:
                if p[0] == "r":
                    return Poison("list grows differently on different paths")
                # appended on some paths only
                ps.append(("c", conj(cond, p[1] if p[0] == "c" else True), p[-1]))
        return AccListC(self.entry, ps)


LIM = 150


def symbolic_for(I_, node, it, st, fr):
    if node.orelse:
        I_.unsupported(node, "else of a loop")

    def body(x, s):
        I_.assign(node.target, x, s, fr)
        return I_.block(node.body, s, fr)

    o = Out()
    o.normal = summarise(I_, node, it, st, fr, body)
    return o


def split_axes(it):
    """leading (symbolic) axes and trailing concrete axes that are unrolled inside the body"""
    axes = list(it.axes)
    p = len(axes)
    tot = 1
    while p > 0 and isinstance(axes[p - 1], int) and tot * max(axes[p - 1], 1) <= LIM:
        p -= 1
        tot *= max(axes[p], 1)
    return axes[:p], axes[p:]


class TouchConflict(Unsupported):
    base = None
    writes = ()


def summarise(I_, node, it, st, fr, body):
    scratch = {}
    for _ in range(4):
        nob, nlo = len(I_.obligations), len(I_.loop_oblig_list)
        try:
            return summarise_(I_, node, it, st, fr, body, scratch)
        except TouchConflict as ex:
            b = ex.base
            if b in scratch or not isinstance(b, int) or not isinstance(st.heap.get(b), ArrC) or dt_is_struct(st.heap[b].dtype) or st.heap[b].dtype[0] not in "fi":
                raise
            pats = [w[1] for w in ex.writes]
            if any(a[0] == "c" and isz(a[1]) or a[0] not in ("c", "all") for p in pats for a in p):
                raise
            # an array that every iteration fills again
            scratch[b] = pats
            del I_.obligations[nob:]
            del I_.loop_oblig_list[nlo:]
    I_.unsupported(node, "scratch arrays of a loop")


def in_pattern(pats, idx):
    return disj(*[conj(*[cmp("==", a[1], i) for a, i in zip(p, idx) if a[0] == "c"]) for p in pats])


def mentions(t, decls):
    if not isz(t):
        return False
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            todo.append(x.body())
            continue
        if z3.is_app(x):
            if x.num_args() and x.decl().name() in decls:
                return True
            todo += x.children()
    return False


def summarise_(I_, node, it, st, fr, body, scratch):
    lead, trail = split_axes(it)
    if not lead:
        # everything is concrete
        o = I_.unrolled(None, [it.get(list(d)) for d in itertools.product(*[range(a) for a in it.axes])], st, fr, body)
        if o.rets or o.brk is not None:
            I_.unsupported(node, "return or break in a comprehension")
        return o.normal
    for a in lead:
        if I_.decide(cmp("<=", a, 0), st) is True:
            return st
    digits = [I_.new_digit("k", a) for a in lead]
    rng = []
    for k, a in zip(digits, lead):
        rng += [k >= 0, to_z(cmp("<", k, a))]
    if it.guard is not None:
        rng.append(to_z(it.guard(digits)))
    entry = dict(st.heap)
    mark = I_.counter

    def run(s0):
        """one iteration from state s0 -> (state, sunk raises)"""
        s = s0.fork()
        s.pc = s.pc + rng
        I_.sink.append([])
        I_.marks.append(mark)
        try:
            if trail:
                o = I_.unrolled(None, [it.get(digits + list(d)) for d in itertools.product(*[range(a) for a in trail])], s, fr, body)
            else:
                try:
                    o = body(it.get(digits), s)
                except PathEnds:
                    I_.dead_raises(s)
                    o = Out()
        finally:
            sunk = I_.sink.pop()
            I_.marks.pop()
        if o.rets:
            I_.unsupported(node, "return inside a symbolic loop")
        if o.brk is not None:
            I_.unsupported(node, "break inside a symbolic loop")
        e = o.normal
        if o.cont is not None:
            e = o.cont if e is None else I_.merge_states(e, o.cont)[0]
        if e is not None:
            sunk = sunk + e.raises
            e.raises = []
        return e, sunk

    def changed(e):
        """carried variables and written bases"""
        vars_, lists, cells = {}, set(), set()
        for key, c in entry.items():
            d = e.heap.get(key)
            if d is c:
                continue
            if isinstance(c, FrameC):
                for v in d.vars:
                    if v not in c.vars or c.vars[v] is not d.vars[v]:
                        vars_[("f", key, v)] = (c.vars.get(v), d.vars[v])
            elif isinstance(c, InstC):
                if isinstance(d, Poison):
                    I_.unsupported(node, d.why)
                for v in d.attrs:
                    if v not in c.attrs or c.attrs[v] is not d.attrs[v]:
                        vars_[("a", key, v)] = (c.attrs.get(v), d.attrs[v])
            elif isinstance(c, (ListC, SListC, AccListC)) and (isinstance(d, AccListC) or (isinstance(d, ListC) and isinstance(c, ListC) and len(d.items) != len(c.items))):
                lists.add(key)
            elif isinstance(c, ListC):
                cells.add(key)
            elif isinstance(c, (ArrC, FieldC, SListC)):
                cells.add(key)
            elif isinstance(c, (RegionC, RedirectC)):
                I_.unsupported(node, "element list restructured in a loop")
            elif isinstance(d, Poison):
                I_.unsupported(node, d.why)
            elif hasattr(c, "loop_changed"):
                cells.add(key)
            else:
                I_.unsupported(node, f"{type(c).__name__} changed in a loop")
        return vars_, lists, cells

    # -------- discovery
    saved = (I_.collect, len(I_.obligations))
    I_.collect = False
    I_.reads.append([])
    I_.writes.append([])
    try:
        e, _ = run(st)
    finally:
        I_.reads.pop()
        I_.writes.pop()
        I_.collect = saved[0]
    if e is None:
        # every iteration raises: keep the raising outcomes
        vars_, lists, cells = {}, set(), set()
    else:
        vars_, lists, cells = changed(e)

    special = {k for k in cells if hasattr(entry[k], "loop_changed")}
    first = e
    for attempt in range(4):
        s0 = st.fork()
        ph = {}
        accs = {}
        for key, (a, b) in vars_.items():
            p = placeholder(I_, st, key, a, b)
            if isinstance(p, tuple) and p[0] == "acc":
                r = Ref(I_.new(s0, AccListC(p[1])))
                accs[key] = r
                p = r
            elif isz(p) or isinstance(p, Str):
                ph[key] = p
            setslot(s0, key, p)
        for key in lists:
            s0.heap[key] = AccListC(entry[key])
        tokens = {}
        for key in special:
            if hasattr(entry[key], "loop_guess"):
                s0.heap[key], tokens[key] = entry[key].loop_guess(I_, node, (first or e).heap[key], digits, lead)
            else:
                s0.heap[key], tokens[key] = entry[key].loop_enter(I_, s0, digits, lead)
        old_values = set()
        for b, pats in scratch.items():
            c0 = entry[b]
            H = z3.Function(fresh("left").decl().name(), *([I] * (len(c0.shape) + len(digits))), R if c0.dtype[0] == "f" else I)
            old_values.add(H.name())
            s0.heap[b] = ArrC(c0.shape, c0.dtype, lambda *i, c0=c0, H=H, pats=pats: I_.merge_val(in_pattern(pats, i), H(*[to_z(x) for x in i], *digits), c0.fn(*i)))
        base_heap = dict(s0.heap)
        I_.reads.append([])
        I_.writes.append([])
        nob = len(I_.obligations)
        try:
            e, sunk = run(s0)
        finally:
            reads, writes = I_.reads.pop(), I_.writes.pop()
        if e is None:
            break
        v2, l2, c2 = changed_from(I_, node, entry, base_heap, e, changed)
        new = {k: v for k, v in v2.items() if k not in vars_}
        if not new and l2 <= lists and c2 <= cells:
            break
        for k, v in new.items():
            vars_[k] = v
        lists |= l2
        cells |= c2
        special = {k for k in cells if hasattr(entry[k], "loop_changed")}
        del I_.obligations[nob:]
    else:
        I_.unsupported(node, "loop-carried variables do not stabilise")

    # -------- raises
    raises = []
    pre = len(st.pc)
    for pc, ex, s_ in sunk:
        raises.append((pc, ex, s_))
    if e is None:
        if len(sunk) == 0:
            raise PathEnds()
        post_ph = {}
    # -------- recurrences of carried scalars
    I_._loop_mark = mark
    closed = []  # substitutions placeholder -> closed form at the start of iteration k
    finals = {}
    if e is not None:
        closed, finals = recurrences(I_, node, vars_, ph, accs, e, st, digits, lead, rng)
        if closed:
            ends = {a.get_id() for a, _ in closed}
            put = lambda t: unval(z3.substitute(z3.substitute(t, *closed), *closed)) if isz(t) and consts_of(t) & ends else t
            for o in I_.obligations[nob:]:
                if any(isz(t) and consts_of(t) & ends for t in [o.goal, *o.facts]):
                    o.goal, o.facts = put(o.goal), [put(t) for t in o.facts]

    def close(v):
        for _ in range(3):
            v = subst_deep(v, closed)
        if old_values and mentions(v.t if isinstance(v, Str) else v, old_values):
            I_.unsupported(node, "an array keeps values from one iteration to a later one")
        return v

    ids = set()
    for p in ph.values():
        ids |= consts_of(p.t if isinstance(p, Str) else p)
    closed_ids = {c.get_id() for c, _ in closed}
    open_ids = ids - closed_ids

    def check_closed(t, what):
        if isz(t) and consts_of(t) & open_ids:
            I_.unsupported(node, f"{what} depends on a loop-carried variable")
        return t

    def closez(t):
        if not isz(t):
            return t
        for _ in range(3):
            t = z3.substitute(t, *closed) if closed else t
        if old_values and mentions(t, old_values):
            I_.unsupported(node, "an array keeps values from one iteration to a later one")
        return check_closed(unval(t), "a condition")

    reads = [(b, tuple(close_pat(p, closez)), [closez(x) for x in pc[pre:]]) for b, p, pc in reads]
    writes = [(b, tuple(close_pat(p, closez)), [closez(x) for x in pc[pre:]]) for b, p, pc in writes]
    # only bases that exist before the loop matter
    pre_ = lambda b: b in entry or (isinstance(b, tuple) and len(b) == 3 and b[1:] in entry)
    reads = [r for r in reads if pre_(r[0])]
    writes = [w for w in writes if pre_(w[0])]
    I_._loop_mark = mark

    out = st.fork()
    out.raises = list(st.raises)
    # exists-quantified raise conditions
    neg = []
    for pc, ex, s_ in raises:
        c = conj(*[closez(x) for x in pc[pre:]])
        q = exists(I_, digits, rng, c, mark)
        out.raises.append((list(st.pc) + ([q] if isz(q) else []), ex, s_))
        neg.append(lnot(q))
    if e is None:
        # no iteration continues: the loop continues only when it has no iterations
        none = disj(*[cmp("<=", a, 0) for a in lead])
        d = I_.decide(none, st)
        if d is False:
            I_.sink[-1].extend(out.raises)
            st.raises = []
            raise PathEnds()
        out.pc.append(to_z(none))
        return out
    for q in neg:
        if isz(q):
            out.pc.append(q)

    wb = {}
    for w in writes:
        wb.setdefault(w[0], []).append(w)
    rb = {}
    for r in reads:
        rb.setdefault(r[0], []).append(r)
    facts_pc = list(st.pc)
    for b, ws in wb.items():
        if b in scratch:
            continue
        independence(I_, node, b, ws, rb.get(b, []), digits, rng, st, mark)
    # -------- written cells
    for b in cells:
        if b in special:
            continue
        if b in accs:
            continue
        c0, c1 = entry[b], e.heap[b]
        if isinstance(c1, Poison):
            I_.unsupported(node, c1.why)
        if b in scratch:
            last = [(dg, to_z(sub(a, 1))) for dg, a in zip(digits, lead)]
            some = conj(*[cmp(">", a, 0) for a in lead])

            def left(*i, c0=c0, c1=c1, pats=scratch[b]):
                return I_.merge_val(conj(some, in_pattern(pats, i)), subst_deep(close(c1.fn(*i)), last), c0.fn(*i))

            out.heap[b] = ArrC(c0.shape, c0.dtype, left)
            continue
        if b not in wb:
            I_.unsupported(node, f"{type(c0).__name__} changes in a loop without a recorded write")
        if isinstance(c0, ListC):
            # concrete list, symbolic index
            n = len(c0.items)
            items = []
            for j in range(n):
                items.append(merged_value(I_, node, [j], wb[b], digits, lead, rng, (lambda i: c1.items[i]), (lambda i: c0.items[i]), close, st, mark))
            out.heap[b] = ListC(items)
            continue
        if isinstance(c0, SListC):
            out.heap[b] = SListC(c0.n, Fn(merged_fn(I_, node, wb[b], digits, lead, rng, c1.get, c0.get, close, st, mark)))
            continue
        fn = merged_fn(I_, node, wb[b], digits, lead, rng, c1.fn, c0.fn, close, st, mark)
        if isinstance(c0, ArrC):
            out.heap[b] = ArrC(c0.shape, c0.dtype, fn)
        else:
            sf = c0.shapefn
            if c1.shapefn is not c0.shapefn:
                ews = [(x, (p[0],), pc) for x, p, pc in wb[b]]
                g = merged_fn(I_, node, ews, digits, lead, rng, c1.shapefn, c0.shapefn, close, st, mark)
                sf = lambda e_, g=g: g(e_)
            out.heap[b] = FieldC(c0.kind, sf, c0.dtype, fn)
    # -------- scalars
    for key in vars_:
        if key in accs:
            v = getslot(e, key)
            if not (isinstance(v, Ref) and isinstance(e.heap[v.oid], AccListC)):
                I_.unsupported(node, "list variable changes its kind")
            setslot(out, key, Ref(I_.new(out, finish_list(I_, node, out, e, e.heap[v.oid], digits, lead, close, mark))))
        else:
            setslot(out, key, finals[key])
    for key in lists:
        c = e.heap[key]
        if isinstance(c, Poison):
            I_.unsupported(node, c.why)
        out.heap[key] = finish_list(I_, node, out, e, c, digits, lead, close, mark)
    for key in special:
        out.heap[key] = entry[key].loop_exit(I_, node, out, e, e.heap[key], tokens[key], digits, lead, rng, close, mark)
    # -------- logs for the enclosing loop
    if I_.reads:
        I_.reads[-1].extend((b, p, facts_pc + rng + pc) for b, p, pc in reads)
    if I_.writes:
        I_.writes[-1].extend((b, p, facts_pc + rng + pc) for b, p, pc in writes)
    for b in cells:
        pass
    return out


def changed_from(I_, node, entry, base, e, changed):
    """like changed(), but relative to the havocked state"""
    import types

    class E:
        pass

    x = E()
    x.heap = {}
    for key in entry:
        d = e.heap.get(key)
        # unchanged relative to the havocked state means unchanged
        x.heap[key] = entry[key] if d is base[key] else d
    v, l, c = changed(x)
    v = {k: p for k, p in v.items() if not same_slot(base, e, k)}
    return v, l, c


def same_slot(base, e, key):
    kind, oid, nm = key
    a, b = base[oid], e.heap[oid]
    if kind == "f":
        return a.vars.get(nm) is b.vars.get(nm)
    return a.attrs.get(nm) is b.attrs.get(nm)


def close_pat(p, f):
    out = []
    for a in p:
        if a[0] == "c":
            out.append(("c", f(a[1])))
        elif a[0] == "r":
            out.append(("r", f(a[1]), a[2], f(a[3])))
        else:
            out.append(a)
    return out


def subst_deep(v, pairs):
    if not pairs:
        return v
    if isinstance(v, (Ref, Poison)):
        return v
    return subst(v, pairs)


def getslot(s, key):
    kind, oid, nm = key
    c = s.heap[oid]
    return (c.vars if kind == "f" else c.attrs).get(nm)


def setslot(s, key, v):
    kind, oid, nm = key
    c = s.heap[oid]
    if kind == "f":
        d = dict(c.vars)
        d[nm] = v
        s.heap[oid] = FrameC(d, c.parent, c.module, c.fn)
    else:
        d = dict(c.attrs)
        d[nm] = v
        s.heap[oid] = InstC(c.cls, d)


def placeholder(I_, st, key, a, b):
    nm = key[2]
    if isinstance(a, Ref) and isinstance(st.heap.get(a.oid), (ListC, RListC, SListC)) and isinstance(b, Ref):
        return ("acc", st.heap[a.oid])
    if isinstance(a, (str, Str)) and isinstance(b, (str, Str)):
        return Str(fresh("carried_" + nm))
    if a is not None and is_scalar(a) and is_scalar(b):
        if is_bool_t(a) and is_bool_t(b):
            return fresh("carried_" + nm, B)
        if is_real_t(a) or is_real_t(b):
            return fresh("carried_" + nm, R)
        return fresh("carried_" + nm, I)
    return Poison(f"variable {nm} is carried around a loop")


def exists(I_, digits, rng, c, mark):
    """Exists digits (and inner bound constants) . range and c"""
    c = conj(*rng, c)
    if c is False:
        return False
    c = to_z(c)
    inner = inner_digits(I_, [c], digits, mark)
    fs = []
    for k in inner:
        fs += I_.digits[k.get_id()][1]
    bound = list(digits) + inner
    q = z3.Exists(bound, z3.And(*fs, c) if fs else c)
    I_.flags[q.get_id()] = (q, bound, conj(*fs, c))
    return q


def inner_digits(I_, ts, digits, mark):
    own = {d.get_id() for d in digits}
    first = min((int(d.decl().name().split("!")[1]) for d in digits), default=0)
    out, seen = [], set(own)
    todo = list(ts)
    while todo:
        t = todo.pop()
        for i in consts_of(t):
            if i in I_.digits and i not in seen:
                k, fs, n = I_.digits[i]
                if int(k.decl().name().split("!")[1]) > first:
                    seen.add(i)
                    out.append(k)
                    todo += fs
    return sorted(out, key=lambda k: int(k.decl().name().split("!")[1]))


# ------------------------------------------------------------------ independence
def pat_terms(p):
    out = []
    for a in p:
        if a[0] == "c":
            out.append(a[1])
        elif a[0] == "r":
            out += [a[1], a[3]]
    return [x for x in out if isz(x)]


def overlap(p, q):
    if any(a[0] == "append" for a in p + q):
        return True
    cs = []
    for a, b in zip(p, q):
        if a[0] == "all" or b[0] == "all":
            continue
        if a[0] == "c" and b[0] == "c":
            cs.append(cmp("==", a[1], b[1]))
        elif a[0] == "c" or b[0] == "c":
            c, r = (a, b) if a[0] == "c" else (b, a)
            if r[2] == -1:
                continue
            hi = add(r[1], mul(r[2], r[3]))
            cs += [cmp(">=", c[1], r[1]), cmp("<", c[1], hi)]
        else:
            if a[2] == -1 or b[2] == -1:
                continue
            cs += [cmp("<", a[1], add(b[1], mul(b[2], b[3]))), cmp("<", b[1], add(a[1], mul(a[2], a[3])))]
    return conj(*cs)


def lex_lt(a, b):
    if len(a) == 1:
        return a[0] < b[0]
    return z3.Or(a[0] < b[0], z3.And(a[0] == b[0], lex_lt(a[1:], b[1:])))


def independence(I_, node, base, ws, rs, digits, rng, st, mark):
    done = set()
    items = [("w", w) for w in ws] + [("r", r) for r in rs]
    for wi, w in enumerate(ws):
        _, wp, wpc = w
        wterms = pat_terms(wp) + [x for x in wpc if isz(x)]
        inner = inner_digits(I_, wterms + rng, digits, mark)
        ren = [(k, fresh("j")) for k in list(digits) + inner]
        primes = [b for _, b in ren[: len(digits)]]
        rfacts = []
        for k in list(digits) + inner:
            rfacts += [z3.substitute(f, *ren) for f in I_.digits[k.get_id()][1]]
        rfacts += [z3.substitute(f, *ren) for f in rng]
        wp2 = tuple((a[0], *[z3.substitute(x, *ren) if isz(x) else x for x in a[1:]]) for a in wp)
        wpc2 = [z3.substitute(x, *ren) for x in wpc if isz(x)]
        for kind, (b_, p, pc) in items:
            ov = overlap(p, wp2)
            if ov is False:
                continue
            key = (kind, wi, str(p), str(pc))
            if key in done:
                continue
            done.add(key)
            lt = lex_lt(primes, digits)
            hyp = [x for x in pc if isz(x)] + wpc2 + rfacts + list(rng)
            s = st.fork()
            s.pc = s.pc + hyp + [lt]
            g = lnot(ov)
            d = I_.decide(g, s, 4000)
            if d is not True:
                # for two writes the order matters only if k' > k is possible as well
                ex = TouchConflict(f"{I_.loc(node)}: iterations may touch the same cells ({'write' if kind == 'w' else 'read'} of {base if not isinstance(base, tuple) else base[1]})")
                ex.base, ex.writes = base, ws
                raise ex
            I_.loop_obligations += 1
            I_.loop_oblig_list.append((I_.loc(node), "distinct cells: " + ("write/write " if kind == "w" else "read/write ") + (str(base[1]) if isinstance(base, tuple) else f"array {base}")))


# ------------------------------------------------------------------ inversion of write patterns
def linear(t, unknowns):
    """t = c0 + sum coeff_u * u, or None"""
    p = poly(t)
    ids = {u.get_id(): u for u in unknowns}
    c0, co = {}, {}
    for m, c in p.items():
        us = [a for a in m if a in ids]
        if len(us) == 0:
            for a in m:
                if consts_of(_at(a)) & set(ids):
                    return None
            c0[m] = c
        elif len(us) == 1:
            rest = list(m)
            rest.remove(us[0])
            if any(consts_of(_at(a)) & set(ids) for a in rest):
                return None
            co.setdefault(us[0], {})[tuple(rest)] = c
        else:
            return None
    return c0, co


def _at(i):
    import terms

    return terms._atoms[i]


def solve(I_, pattern, unknowns, ranges, idx, node):
    """values of the unknowns given that the pattern's cell is idx: (assignment, condition) or None"""
    sol = {}
    conds = []
    eqs = [(a[1], i) for a, i in zip(pattern, idx) if a[0] == "c"]
    todo = []
    for t, i in eqs:
        if not isz(t) or not (consts_of(t) & {u.get_id() for u in unknowns}):
            c = cmp("==", t, i)
            if c is False:
                return None, False
            conds.append(c)
        else:
            todo.append((t, i))
    if len(todo) > 1 and MULTI:
        r = solve_multi(todo, unknowns)
        if r is not None:
            u, v, cs, used = r
            sol[u.get_id()] = (u, v)
            conds += cs
            todo = [e for e in todo if not any(e is x for x in used)]
    progress = True
    while todo and progress:
        progress = False
        for eq in list(todo):
            t, i = eq
            t = pnorm(z3.substitute(t, *[(u, to_z(v)) for u, v in sol.values()])) if sol else t
            left = [u for u in unknowns if u.get_id() not in sol and isz(t) and u.get_id() in consts_of(t)]
            if not left:
                conds.append(cmp("==", t, i))
                todo.remove(eq)
                progress = True
                continue
            r = solve_one(I_, t, i, left, ranges)
            if r is None:
                continue
            asg, cs = r
            for u, v in asg:
                sol[u.get_id()] = (u, v)
            conds += cs
            todo.remove(eq)
            progress = True
    if todo:
        return None, None
    return sol, conj(*conds)


def solve_one(I_, t, i, left, ranges):
    # inverse of an injective sequence
    for u in left:
        r = solve_inverse(I_, t, i, u)
        if r is not None and len(left) == 1:
            return r
    l = linear(t, left)
    if l is None:
        return None
    c0, co = l
    c0t = from_poly(c0)
    rest = sub(i, c0t)
    us = {u.get_id(): u for u in left}
    if len(co) == 1:
        (uid, cf), = co.items()
        ct = from_poly(cf)
        if isinstance(ct, int) and ct in (1, -1):
            return [(us[uid], rest if ct == 1 else neg(rest))], []
        # positive coefficient
        if I_.decide(cmp(">", ct, 0), I_.gstate()) is True:
            q, r = idivmod(I_, rest, ct, I_.gstate())
            return [(us[uid], q)], [cmp("==", r, 0)]
        return None
    # mixed radix: coefficients 1, n1, n1*n2, ...
    rem = dict(co)
    order = []
    cur = {(): Fraction(1)}
    while rem:
        hit = None
        for uid, cf in rem.items():
            if not _pdiff(cf, cur):
                hit = uid
                break
        if hit is None:
            return None
        order.append(hit)
        n = ranges[hit]
        del rem[hit]
        cur = pmul(cur, poly(n))
    asg = []
    conds = [cmp(">=", rest, 0)]
    x = rest
    for j, uid in enumerate(order):
        n = ranges[uid]
        if j == len(order) - 1:
            asg.append((us[uid], x))
            break
        q, r = idivmod(I_, x, n, I_.gstate())
        asg.append((us[uid], r))
        x = q
    return asg, conds


def _pdiff(a, b):
    r = dict(a)
    for m, c in b.items():
        r[m] = r.get(m, 0) - c
    return {m: c for m, c in r.items() if c != 0}


INVERSES = {}  # function name -> (f, finv)


def solve_inverse(I_, t, i, u):
    """t = f(u) + c with f registered as injective"""
    p = poly(t)
    hit = None
    for m, c in p.items():
        for a in m:
            x = _at(a)
            if u.get_id() in consts_of(x):
                if len(m) == 1 and c == 1 and z3.is_app(x) and x.decl().name() in INVERSES and x.arg(0).eq(u) and hit is None:
                    hit = (m, x)
                else:
                    return None
    if hit is None:
        return None
    m, x = hit
    rest = {k: c for k, c in p.items() if k != m}
    f, finv = INVERSES[x.decl().name()]
    y = sub(i, from_poly(rest))
    # finv(f(s)) = s
    yz = to_z(y)
    if z3.is_app(yz) and yz.decl().eq(f):
        return [(u, yz.arg(0))], []
    v = finv(yz)
    return [(u, v)], [cmp("==", f(v), y)]


def merged_value(I_, node, idx, ws, digits, lead, rng, new, old, close, st, mark):
    r = old(*idx)
    done = []
    for b, p, pc in reversed(ws):
        inner = inner_digits(I_, pat_terms(p), digits, mark)
        un = list(digits) + inner
        ranges = {u.get_id(): I_.digits[u.get_id()][2] for u in un}
        sol, cond = solve(I_, p, un, ranges, idx, node)
        if cond is False:
            continue
        if sol is None:
            I_.unsupported(node, f"cannot tell which iteration writes the cell {p}")
        missing = [d for d in digits if d.get_id() not in sol]
        if missing:
            I_.unsupported(node, "a cell is written by several iterations")
        pairs = [(u, to_z(v)) for u, v in sol.values()]
        cs = [cond]
        for u, v in sol.values():
            n = ranges[u.get_id()]
            nz = subst(n, pairs) if isz(n) else n
            cs += [cmp(">=", v, 0), cmp("<", v, nz)]
        rest = [x for x in inner if x.get_id() not in sol]
        # guards of this write (needed only when several patterns could match)
        key = tuple((u.get_id(), to_z(v).get_id()) for u, v in sorted(sol.values(), key=lambda z: z[0].get_id()) if any(u.eq(d) for d in digits))
        done.append((key, conj(*cs), [(d, to_z(sol[d.get_id()][1])) for d in digits], pc, pairs, rest, p))
    if not done:
        return r
    # group by solution
    groups = {}
    for key, c, pairs, pc, allp, rest, p in done:
        groups.setdefault(key, []).append((c, pairs, pc, allp, rest))
    multi = len(groups) > 1
    out = r
    for key, g in groups.items():
        cs = []
        for c, pairs, pc, allp, rest in g:
            if multi and not rest:
                gd = [subst(x, allp) for x in pc if isz(x)]
                # guards that mention constants of inner loops that were not solved cannot be used
                c = conj(c, *gd)
            cs.append(c)
        cond = simp_cond(I_, disj(*uniq(cs)))
        if cond is False:
            continue
        pairs = g[0][1]
        val = subst_deep(close(new(*idx)), pairs)
        val = val if not isz(val) else unval(val)
        if cond is True:
            out = val
        else:
            out = I_.merge_val(cond, val, out)
            if isinstance(out, Poison):
                I_.unsupported(node, out.why)
    return out


def uniq(cs):
    out, seen = [], set()
    for c in cs:
        k = c.get_id() if isz(c) else c
        if k not in seen:
            seen.add(k)
            out.append(c)
    return out


def simp_cond(I_, c):
    """decide the membership condition with the global facts"""
    if isz(c):
        d = I_.decide(c, I_.gstate(), 800)
        if d is not None:
            return d
    return c


def merged_fn(I_, node, ws, digits, lead, rng, new, old, close, st, mark):
    def fn(*idx):
        return merged_value(I_, node, list(idx), ws, digits, lead, rng, new, old, close, st, mark)

    # fail now, not later, if the patterns cannot be inverted
    if ws and not any(a[0] == "append" for a in ws[0][1]):
        probe = [fresh("probe") if a[0] != "c" or isz(a[1]) else a[1] for a in ws[0][1]]
        for b, p, pc in ws:
            inner = inner_digits(I_, pat_terms(p), digits, mark)
            un = list(digits) + inner
            ranges = {u.get_id(): I_.digits[u.get_id()][2] for u in un}
            pr = [a[1] if a[0] == "c" and not isz(a[1]) else fresh("probe") for a in p]
            sol, cond = solve(I_, p, un, ranges, pr, node)
            if sol is None and cond is not False:
                I_.unsupported(node, f"cannot tell which iteration writes a cell of {b if not isinstance(b, tuple) else b[1]}: {p}")
            if sol is not None and any(d.get_id() not in sol for d in digits):
                I_.unsupported(node, f"a cell of {b if not isinstance(b, tuple) else b[1]} is written by several iterations")
    return fn


# ------------------------------------------------------------------ recurrences
def total(lead):
    r = 1
    for a in lead:
        r = mul(r, a)
    return r


def flat(digits, lead):
    t = 0
    for d, a in zip(digits, lead):
        t = add(mul(t, a), d)
    return t


def last_value(I_, node, v, entry, digits, lead, st, mark):
    """value after the loop of a variable whose last value is v(k)"""
    pairs = [(d, to_z(sub(a, 1))) for d, a in zip(digits, lead)]
    if has_new_ref(v, mark):
        return Poison("value from the last iteration of a loop")
    try:
        lv = subst_deep(v, pairs)
    except Unsupported as ex:
        return Poison(str(ex))
    nonempty = conj(*[cmp(">", a, 0) for a in lead])
    d = I_.decide(nonempty, st)
    if d is True:
        return lv
    if entry is None:
        return Poison("variable is set only if a loop has iterations")
    r = I_.merge_val(nonempty, lv, entry) if isz(nonempty) else entry
    return r


def has_new_ref(v, mark):
    if isinstance(v, Ref):
        return v.oid > mark
    if isinstance(v, ArrRef):
        return isinstance(v.base, int) and v.base > mark or isinstance(v.base, tuple) and v.base[0] > mark
    if isinstance(v, ElemRef):
        return v.rid > mark
    if isinstance(v, tuple):
        return any(has_new_ref(x, mark) for x in v)
    if isinstance(v, Choice):
        return True
    return False


def recurrences(I_, node, vars_, ph, accs, e, st, digits, lead, rng):
    closed, finals = [], {}
    mark = I_.marks[-1] if I_.marks else 0
    allph = {}
    for key, p in ph.items():
        t = p.t if isinstance(p, Str) else p
        allph[t.get_id()] = (key, t)
    pend = []
    for key, (a, b) in vars_.items():
        if key in accs:
            continue
        v = getslot(e, key)
        entry = getslot(st, key)
        if key not in ph:
            # placeholder was Poison
            if isinstance(v, Poison):
                finals[key] = v
            else:
                finals[key] = last_value(I_, node, v, entry, digits, lead, st, I_counter_mark(I_))
            continue
        pend.append((key, v, entry))
    # variables whose value at the end of an iteration does not depend on its value at the start
    simple = {}
    for key, v, entry in list(pend):
        p = ph[key].t if isinstance(ph[key], Str) else ph[key]
        if isinstance(v, Poison):
            finals[key] = v
            pend.remove((key, v, entry))
            continue
        vz = v.t if isinstance(v, Str) else (to_z(v) if is_scalar(v) or isinstance(v, str) else None)
        if vz is None:
            finals[key] = Poison("loop-carried value")
            pend.remove((key, v, entry))
            continue
        if vz.eq(p):
            finals[key] = entry
            closed.append((p, to_z(entry if not is_real_sort(p) else to_real(entry))))
            pend.remove((key, v, entry))
            continue
        if not (consts_of(vz) & set(allph)):
            simple[p.get_id()] = (key, p, vz, entry)
            finals[key] = last_value(I_, node, v, entry, digits, lead, st, I_counter_mark(I_))
            if len(digits) == 1:
                k = digits[0]
                prev = z3.substitute(vz, (k, k - 1))
                e0 = to_z(to_real(entry)) if is_real_sort(p) else to_z(entry)
                pv = z3.If(k == 0, e0, z3.ToReal(prev) if is_real_sort(p) and prev.sort() == I else prev)
                closed.append((p, pv))
            pend.remove((key, v, entry))
    for key, v, entry in pend:
        p = ph[key].t if isinstance(ph[key], Str) else ph[key]
        vz = v.t if isinstance(v, Str) else to_z(v)
        if p.sort() == B:
            vt = I_.decide(z3.substitute(vz, (p, z3.BoolVal(True))), with_rng(st, rng))
            vf = z3.substitute(vz, (p, z3.BoolVal(False)))
            vff = I_.decide(vf, with_rng(st, rng))
            if vt is True:
                c = z3.simplify(vf)
                if not (consts_of(c) & set(allph)):
                    finals[key] = disj(entry, exists(I_, digits, rng, unval(c), 0))
                    continue
            if vff is False:
                c = z3.simplify(z3.Not(z3.substitute(vz, (p, z3.BoolVal(True)))))
                if not (consts_of(c) & set(allph)):
                    q = exists(I_, digits, rng, unval(c), 0)
                    finals[key] = conj(entry, lnot(q))
                    continue
            finals[key] = Poison(f"flag {key[2]} follows no supported recurrence")
            continue
        if p.sort() in (I, R) and not isinstance(v, Str):
            if vz.sort() != p.sort():
                vz = z3.ToReal(vz) if p.sort() == R and vz.sort() == I else vz
            d = increment(vz, p)
            if d is not None:
                dz = to_z(d)
                dp = consts_of(dz) & set(allph)
                e0 = to_real(entry) if p.sort() == R else entry
                if not dp:
                    dd = {x.get_id() for x in digits}
                    if not (consts_of(dz) & dd):
                        closed.append((p, to_z(add(e0, mul(flat(digits, lead), d)))))
                        finals[key] = add(e0, mul(total(lead), d))
                        continue
                    s_ = d
                    for dg, n in reversed(list(zip(digits, lead))):
                        s_ = I_.np.sum_term(s_, dg, n)
                    finals[key] = add(e0, s_)
                    if len(digits) == 1:
                        closed.append((p, to_z(add(e0, I_.np.sum_term(d, digits[0], digits[0])))))
                    continue
                if len(dp) == 1 and len(digits) == 1:
                    (q,) = dp
                    if q in simple:
                        key2, q0, w, qentry = simple[q]
                        # d = c + alpha * (w - q)
                        P = poly(dz)
                        al = -P.get((q,), 0) if all(q not in m or m == (q,) for m in P) else None
                        if al:
                            wr = w if w.sort() == q0.sort() else z3.ToReal(w)
                            r_ = poly(dz - (to_z(al) if dz.sort() == R else z3.IntVal(int(al))) * ((z3.ToReal(w) if dz.sort() == R and w.sort() == I else w) - (z3.ToReal(q0) if dz.sort() == R and q0.sort() == I else q0)))
                            if all(m == () for m in r_):
                                c = r_.get((), Fraction(0))
                                k = digits[0]
                                qe = to_real(qentry) if dz.sort() == R else qentry
                                qk = to_real(q0) if dz.sort() == R else q0
                                cc = c if dz.sort() == R else int(c)
                                aa = al if dz.sort() == R else int(al)
                                closed.insert(0, (p, to_z(add(add(e0, mul(cc, to_real(k) if dz.sort() == R else k)), mul(aa, sub(qk, qe))))))
                                wf = finals[key2]
                                finals[key] = Poison("telescoping sum") if isinstance(wf, Poison) else add(add(e0, mul(cc, lead[0])), mul(aa, sub(to_real(wf) if dz.sort() == R else wf, qe)))
                                continue
            mm = minmax_rec(I_, vz, p, digits, lead, entry)
            if mm is not None:
                finals[key] = mm
                continue
        finals[key] = Poison(f"variable {key[2]} follows no supported recurrence")
    return closed, finals


def minmax_rec(I_, vz, p, digits, lead, entry):
    return None


def I_counter_mark(I_):
    return I_.counter if False else I_._loop_mark


def is_real_sort(p):
    return p.sort() == R


def with_rng(st, rng):
    s = st.fork()
    s.pc = s.pc + list(rng)
    return s


def increment(v, p):
    """v = p + d: d (p-free), looking through if-then-else"""
    if v.eq(p):
        return 0
    if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_ITE:
        if p.get_id() in consts_of(v.arg(0)):
            return None
        a, b = increment(v.arg(1), p), increment(v.arg(2), p)
        if a is None or b is None:
            return None
        return ite(unval(v.arg(0)), a, b)
    P = poly(v)
    pid = p.get_id()
    if P.get((pid,)) == 1:
        rest = {m: c for m, c in P.items() if m != (pid,)}
        r = from_poly(rest, p.sort() == R)
        if not isz(r) or pid not in consts_of(r):
            return r
    # sum with an ite inside: p + If(...) is handled by poly (the ite is an atom); nested ite containing p:
    ch = v.children()
    if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_ADD:
        hits = [c for c in ch if pid in consts_of(c)]
        if len(hits) == 1:
            d = increment(hits[0], p)
            if d is not None:
                r = d
                for c in ch:
                    if c is not hits[0] and not c.eq(hits[0]):
                        r = add(r, c)
                return r
    return None


def finish_list(I_, node, out, e, c, digits, lead, close, mark):
    """contents of a list that grew by the same entries in every iteration"""
    N = total(lead)
    entry = c.entry
    if not c.parts:
        return entry
    if all(p[0] == "v" for p in c.parts):
        m = len(c.parts)
        vals = [p[1] for p in c.parts]
        for v in vals:
            if has_new_ref(v, I_._loop_mark) or isinstance(v, Poison):
                I_.unsupported(node, "list of objects created in a loop")
        if isinstance(entry, ListC):
            items, n0 = list(entry.items), len(entry.items)
            eget = lambda i: I_.np.select_val(I_, items, i)
        elif isinstance(entry, SListC):
            n0, eget = entry.n, entry.get
        else:
            I_.unsupported(node, "append to an element list in a loop")

        def get(i):
            t = sub(i, n0)
            if isinstance(t, int) and t < 0:
                return eget(i)
            q, r = idivmod(I_, t, m, I_.gstate())
            x = q
            sol = []
            for d, a in reversed(list(zip(digits, lead))):
                if d is digits[0]:
                    sol.append((d, to_z(x)))
                else:
                    x, rr = idivmod(I_, x, a, I_.gstate())
                    sol.append((d, to_z(rr)))
            v = [subst_deep(close(y), sol) for y in vals]
            w = I_.np.select_val(I_, v, r)
            if isinstance(n0, int) and n0 == 0:
                return w
            return I_.merge_val(cmp("<", i, n0), eget(i), w)

        return SListC(add(n0, mul(N, m)), Fn(get))
    if all(p[0] in "vc" for p in c.parts):
        return filtered_list(I_, node, out, c, digits, lead, close)
    if len(c.parts) == 1 and c.parts[0][0] == "r":
        part = c.parts[0][1]
        n1 = close(part.n)
        if isz(n1) and consts_of(n1) & {d.get_id() for d in digits}:
            I_.unsupported(node, "lists of varying length appended in a loop")
        if not isinstance(entry, RListC):
            if isinstance(entry, ListC) and not entry.items:
                n0, er = 0, None
            else:
                I_.unsupported(node, "element lists appended in a loop")
        else:
            n0, er = entry.n, entry.rid
            if not (isinstance(entry.lo, int) and entry.lo == 0):
                I_.unsupported(node, "partial element list")
        prid = part.rid
        rp = e.heap[prid]
        if isinstance(rp, RedirectC) or prid <= I_._loop_mark:
            I_.unsupported(node, "appended elements are not new")
        if not (isinstance(part.lo, int) and part.lo == 0):
            I_.unsupported(node, "partial element list")
        tot = add(n0, mul(N, n1))
        rid = I_.new(out, RegionC(rp.cls, rp.fields, tot))
        if er is not None:
            ra = out.heap[er]
            if isinstance(ra, RedirectC) or ra.n is None or not peq(ra.n, n0):
                I_.unsupported(node, "element list shares its elements")

        def split(x):
            t = sub(x, n0)
            q, r = idivmod(I_, t, n1, I_.gstate())
            sol = []
            for d, a in reversed(list(zip(digits, lead))):
                if d is digits[0]:
                    sol.append((d, to_z(q)))
                else:
                    q, rr = idivmod(I_, q, a, I_.gstate())
                    sol.append((d, to_z(rr)))
            return r, sol

        for f in rp.fields:
            y = e.heap[(prid, f)]
            x = out.heap[(er, f)] if er is not None else None
            if isinstance(y, Poison) or isinstance(x, Poison):
                out.heap[(rid, f)] = y if isinstance(y, Poison) else x
                continue
            if x is not None and (x.kind != y.kind or x.dtype != y.dtype):
                I_.unsupported(node, "element lists of different types")

            def sf(i, x=x, y=y):
                return pick(i, (lambda: x.shapefn(i)) if x is not None else None, lambda: shp(i, y))

            def shp(i, y):
                r, sol = split(i)
                return subst_deep(close(tuple(y.shapefn(r))), sol)

            def val(i, j, y):
                r, sol = split(i)
                return subst_deep(close(y.fn(r, *j)), sol)

            def pick(i, a, b):
                if a is None:
                    return b()
                c_ = cmp("<", i, n0)
                d = I_.decide(c_, I_.gstate(), 800) if isz(c_) else c_
                if d is True:
                    return a()
                if d is False:
                    return b()
                return I_.merge_val(c_, a(), b())

            def fn(i, *j, x=x, y=y):
                return pick(i, (lambda: x.fn(i, *j)) if x is not None else None, lambda: val(i, j, y))

            out.heap[(rid, f)] = FieldC(y.kind, sf, y.dtype, fn)
        if er is not None:
            out.heap[er] = RedirectC(rid, lambda i: i)
        return RListC(tot, rid, 0)
    I_.unsupported(node, "list growth in a loop")


def filtered_list(I_, node, out, c, digits, lead, close):
    """a list that grew by entries under conditions: it enumerates the index tuples (iteration, entry) that satisfy their
    condition, each once: position k <-> tuple pos(k), rank its inverse (trusted lemma on enumerations of finite sets)"""
    entry = c.entry
    if not (isinstance(entry, ListC) and not entry.items):
        I_.unsupported(node, "conditional append to a list that is not empty")
    if len(digits) != 1:
        I_.unsupported(node, "conditional append in a multidimensional loop")
    m = len(c.parts)
    d, n = digits[0], lead[0]
    conds = [p[1] if p[0] == "c" else True for p in c.parts]
    vals = [p[-1] for p in c.parts]
    for v in vals:
        if has_new_ref(v, I_._loop_mark) or isinstance(v, Poison):
            I_.unsupported(node, "list of objects created in a loop")
    conds = [close(x) if isz(x) else x for x in conds]
    u = fresh("enum").decl().name()
    P, S = z3.Function(u + ".pos", I, I), z3.Function(u + ".sel", I, I)
    RK = z3.Function(u + ".rank", *([I] * (3 if m > 1 else 2)))
    N = z3.Int(u + ".count")
    k, x, s_ = z3.Int(u + "!k"), z3.Int(u + "!x"), z3.Int(u + "!s")
    at = lambda x, s: to_z(disj(*[conj(cmp("==", s, j) if m > 1 else True, z3.substitute(to_z(q), (d, x))) for j, q in enumerate(conds)]))
    pk, sk = P(k), S(k)
    rk = lambda x, s: RK(x, s) if m > 1 else RK(x)
    nz = to_z(n)
    out.pc.append(N >= 0)
    one = [ite(z3.substitute(to_z(q), (d, x)) if isz(q) else q, 1, 0) for q in conds]
    tot = one[0]
    for q in one[1:]:
        tot = add(tot, q)
    out.pc.append(N == I_.np.sum_term(tot, x, nz))
    inr = [pk >= 0, pk < nz, rk(pk, sk) == k, at(pk, sk)] + ([sk >= 0, sk < m] if m > 1 else [])
    out.pc.append(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < N), z3.And(*inr)), patterns=[pk] + ([sk] if m > 1 else [])))
    r = rk(x, s_)
    back = [r >= 0, r < N, P(r) == x] + ([S(r) == s_] if m > 1 else [])
    rng = [x >= 0, x < nz] + ([s_ >= 0, s_ < m] if m > 1 else [])
    out.pc.append(z3.ForAll([x, s_] if m > 1 else [x], z3.Implies(z3.And(*rng, at(x, s_)), z3.And(*back)), patterns=[r]))
    if m > 1:
        MULTI.append(((P, S), RK))
    else:
        INVERSES[P.name()] = (P, RK)

    def unify(vs, i):
        if all(isinstance(v, tuple) and len(v) == len(vs[0]) for v in vs):
            return tuple(unify([v[j] for v in vs], i) for j in range(len(vs[0])))
        vs = [close(v) for v in vs]
        vs = [subst_deep(v, [(d, to_z(P(to_z(i))))]) for v in vs]
        if all(isinstance(v, int) and not isinstance(v, bool) for v in vs):
            if all(v == vs[0] + j for j, v in enumerate(vs)) and m > 1:
                return add(S(to_z(i)), vs[0])
        if all(isz(v) and v.eq(vs[0]) for v in vs) or all(not isz(v) and type(v) is type(vs[0]) and isinstance(v, (int, str, Fraction)) and v == vs[0] for v in vs):
            return vs[0]
        return I_.np.select_val(I_, vs, S(to_z(i))) if m > 1 else vs[0]

    return SListC(N, Fn(lambda i: unify(vals, i)))


MULTI = []  # ((pos, sel), rank)


def solve_multi(eqs, unknowns):
    """equations pos(u) + a = i, sel(u) + b = j of one enumeration: u = rank(i - a, j - b)"""
    for fs, rk in MULTI:
        hit = {}
        for t, i in eqs:
            p = poly(t)
            for mono, c in p.items():
                if len(mono) == 1 and c == 1:
                    x = _at(mono[0])
                    if z3.is_app(x) and any(x.decl().eq(f) for f in fs) and any(x.arg(0).eq(u) for u in unknowns):
                        rest = from_poly({q: w for q, w in p.items() if q != mono})
                        if not isz(rest) or x.arg(0).get_id() not in consts_of(rest):
                            hit[(x.arg(0).get_id(), x.decl().name())] = (x.arg(0), sub(i, rest), (t, i))
        for u in unknowns:
            g = [hit.get((u.get_id(), f.name())) for f in fs]
            if all(g):
                ys = [to_z(y[1]) for y in g]
                # rank(pos(s), sel(s)) = s
                if all(z3.is_app(y) and y.decl().eq(f) for y, f in zip(ys, fs)) and all(y.arg(0).eq(ys[0].arg(0)) for y in ys):
                    return u, ys[0].arg(0), [], [y[2] for y in g]
                v = rk(*ys)
                return u, v, [cmp("==", f(v), y) for f, y in zip(fs, ys)], [y[2] for y in g]
    return None


def symbolic_reduce(I_, f, it, init, st, node):
    """functools.reduce over a symbolic sequence: f must combine every cell of its arguments by min, max or +
    (shown with an arbitrary accumulator); the result is the reduction of that cell over the sequence"""
    N = I_.np
    if init is not None or len(it.axes) != 1 or it.guard is not None:
        I_.unsupported(node, "reduce over a symbolic sequence")
    n = it.axes[0]
    I_.oblige("reduce of a non-empty sequence" + I_.loc(node), st, cmp(">=", n, 1), "reduce")
    k = I_.new_digit("k", n)
    before = dict(st.heap)
    nr = len(st.raises)
    pc = list(st.pc)
    st.pc = pc + [k >= 0, to_z(cmp("<", k, n))]
    acc_cells = []

    def leaves(v, path=()):
        """(path, shape, cell function, dtype) of a nested value, arrays at the leaves"""
        if isinstance(v, tuple):
            return [x for i, a in enumerate(v) for x in leaves(a, path + (("t", i, len(v)),))]
        if isinstance(v, Ref):
            c = st.heap[v.oid]
            if isinstance(c, DictC):
                return [x for key, a in c.items for x in leaves(a, path + (("d", key, len(c.items)),))]
            if isinstance(c, ListC):
                return [x for i, a in enumerate(c.items) for x in leaves(a, path + (("l", i, len(c.items)),))]
        if isinstance(v, Choice):
            v = v.as_array(I_, st)
        if isinstance(v, ArrRef):
            fn, dt = N.snapshot(I_, st, v)
            return [(path, tuple(v.shape), fn, dt)]
        if isz(v) or isinstance(v, (int, Fraction)):
            return [(path, None, lambda v=v: v, None)]
        I_.unsupported(node, f"reduce of {type(v).__name__}")

    def rebuild(v, it_):
        if isinstance(v, tuple):
            return tuple(rebuild(a, it_) for a in v)
        if isinstance(v, Ref):
            c = st.heap[v.oid]
            if isinstance(c, DictC):
                return Ref(I_.new(st, DictC([(key, rebuild(a, it_)) for key, a in c.items])))
            return Ref(I_.new(st, ListC([rebuild(a, it_) for a in c.items])))
        sh, fn, dt = next(it_)
        return fn() if sh is None else N.new_array(I_, st, list(sh), dt, fn)

    x = it.get([k])
    lx = leaves(x)
    acc = []
    for i, (path, sh, fn, dt) in enumerate(lx):
        if sh is not None and any(isz(d) and k.get_id() in consts_of(d) for d in sh):
            I_.unsupported(node, "reduce over arrays of different shapes")
        m = len(sh or ())
        I_.counter += 1
        F = z3.Function(f"acc!{I_.counter}.{i}", *([I] * m), R if dt is None or dt[0] == "f" else I) if m else z3.Const(f"acc!{I_.counter}.{i}", R)
        acc.append((sh, (lambda *ix, F=F, m=m: F(*[to_z(q) for q in ix]) if m else F), dt))
    P = rebuild(x, iter(acc))
    r = I_.call(f, [P, x], {}, st, node)
    lr = leaves(r)
    if len(lr) != len(lx) or any(a[0] != b[0] for a, b in zip(lx, lr)):
        I_.unsupported(node, "reduce changes the structure of the accumulator")
    out = []
    for (path, sh, fx, dt), (_, sh2, fr_, _), (_, fp, _) in zip(lx, lr, acc):
        if (sh is None) != (sh2 is None) or sh is not None and (len(sh) != len(sh2) or not all(d == e or isz(d) and isz(e) and peq(d, e) for d, e in zip(sh, sh2))):
            I_.unsupported(node, "reduce changes the shape of the accumulator")
        ix = [fresh("ri") for _ in (sh or ())]
        s = st.fork()
        for q, d in zip(ix, sh or ()):
            s.pc = s.pc + [q >= 0, to_z(cmp("<", q, d))]
        a, b, c = fp(*ix), fx(*ix), fr_(*ix)
        kind = None
        for nm, op in (("min", N.min2), ("max", N.max2), ("sum", add)):
            if I_.decide(cmp("==", c, op(a, b)), s) is True:
                kind = nm
                break
        if kind is None:
            I_.unsupported(node, "reduce with a function that is not min, max or +")

        def red(*i, fx=fx, kind=kind):
            v = fx(*i)
            return N.reduction(I_, kind, lambda kk: subst(v, [(k, to_z(kk))]), [n])

        out.append((sh, red, dt))
    res = rebuild(x, iter(out))
    st.pc = pc
    if len(st.raises) != nr:
        I_.unsupported(node, "reduce function that may raise")
    for key, c in before.items():
        if st.heap.get(key) is not c and not isinstance(c, FrameC):
            I_.unsupported(node, "reduce function with side effects")
        if isinstance(c, FrameC) and st.heap.get(key) is not c and any(st.heap[key].vars.get(v) is not w for v, w in c.vars.items()):
            I_.unsupported(node, "reduce function with side effects")
    return res
