"""Loop contracts: the state of a loop as a function of its position, proved at the start, over one iteration, and at the end.

A contract is a function of the state at the loop's entry and returns
  state(pos)  [(location, value)]: what the written locations hold before the iteration at position pos
  facts(pos)  formulas that hold there as well
  exit()      [(location, value)] after the loop, however it was left (default: state at the last position)
  defs(pos)   instances of the definitions of ghost functions (assumed); here(pos): those only an iteration needs
Locations: ("var", name), ("arr", name), ("field", region, attribute), ("attr", variable, attribute of its object),
("attr array", object, attribute).  Everything else must stay as it is; variables that
the body sets and the contract does not mention are unknown afterwards.
"""
import ast

import npmodel as N
from heap import *
from interp import IterV, Out, PathEnds
from terms import *


class View:
    def __init__(self, I_, st, fr):
        self.I, self.st, self.fr = I_, st, fr

    def var(self, name):
        v = self.st.heap[self.fr].vars.get(name)
        if v is None or isinstance(v, Poison):
            raise Unsupported(f"the loop contract needs the variable {name}")
        return v


class Contract:
    def __init__(self, state, facts=None, exit=None, defs=None, exit_facts=None, here=None):
        self.state = state
        self.facts = facts or (lambda pos: [])
        self.exit = exit
        self.defs = defs or (lambda pos: [])
        self.here = here or (lambda pos: [])
        self.cell = None  # (location, cell) -> instances of the precondition for the cell
        self.splits = None  # (pos, location, cell) -> formulas that split the obligation into cases
        self.exit_facts = exit_facts or (lambda: [])


def key_of(I_, st, fr, loc):
    """heap key of an array-like location"""
    if loc[0] == "arr":
        v = st.heap[fr].vars.get(loc[1])
        if not isinstance(v, ArrRef) or any(s[0] != "v" for s in v.sel):
            raise Unsupported(f"the loop contract speaks of an array {loc[1]}")
        return v.base
    if loc[0] == "attr array":
        v = I_.getattr(loc[1], loc[2], st, ast.Name(loc[2], ast.Load()))
        if not isinstance(v, ArrRef) or any(s[0] != "v" for s in v.sel):
            raise Unsupported(f"the loop contract speaks of an array {loc[2]}")
        return v.base
    rid = loc[1]
    while isinstance(st.heap[rid], RedirectC):
        raise Unsupported("redirected elements in a loop contract")
    return (rid, loc[2])


def attr_of(s, fr, loc):
    v = s.heap[fr].vars.get(loc[1])
    if not isinstance(v, Ref) or not isinstance(s.heap[v.oid], InstC):
        raise Unsupported(f"the loop contract speaks of an object {loc[1]}")
    return v.oid


def put(I_, s, fr, pairs):
    for loc, v in pairs:
        if loc[0] == "var":
            N_set(s, fr, loc[1], v)
            continue
        if loc[0] == "attr":
            o = attr_of(s, fr, loc)
            s.heap[o] = InstC(s.heap[o].cls, {**s.heap[o].attrs, loc[2]: v})
            continue
        k = key_of(I_, s, fr, loc)
        c = s.heap[k]
        if isinstance(c, ArrC):
            s.heap[k] = ArrC(c.shape, c.dtype, v)
        else:
            s.heap[k] = FieldC(c.kind, c.shapefn, c.dtype, v)


def N_set(s, fr, name, v):
    c = s.heap[fr]
    d = dict(c.vars)
    d[name] = v
    s.heap[fr] = FrameC(d, c.parent, c.module, c.fn)


def symbolic_cells(I_, c):
    idx, fs = [], []
    if isinstance(c, ArrC):
        shape = c.shape
    else:
        e = fresh("cell")
        idx.append(e)
        shape = c.shapefn(e)
        fs.append(e >= 0)
    for d in shape:
        k = fresh("cell")
        idx.append(k)
        fs += [k >= 0, to_z(cmp("<", k, d))]
    cols = range(len(c.dtype[1])) if dt_is_struct(c.dtype) else [None]
    return idx, fs, cols


def check(I_, what, node, s, fr, pairs, limits, splits=None, inst=None):
    """the state holds what the contract says"""
    where = f"loop over {ast.unparse(node.target)}: {what}"
    for loc, v in pairs:
        nm = loc[-1]
        if loc[0] == "var":
            have = s.heap[fr].vars.get(loc[1])
            if have is None or isinstance(have, Poison):
                raise Unsupported(f"{where}: {loc[1]} is not defined")
            if not is_scalar(have):
                raise Unsupported(f"{where}: {loc[1]} is not a number")
            I_.oblige(f"{where}: {nm}", s, eqv(have, v), "loop")
            continue
        if loc[0] == "attr":
            have = s.heap[attr_of(s, fr, loc)].attrs.get(loc[2])
            if have is None or not is_scalar(have):
                raise Unsupported(f"{where}: {loc[1]}.{loc[2]} is not a number")
            I_.oblige(f"{where}: {loc[1]}.{loc[2]}", s, eqv(have, v), "loop")
            continue
        c = s.heap[key_of(I_, s, fr, loc)]
        if isinstance(c, Poison):
            raise Unsupported(c.why)
        idx, fs, cols = symbolic_cells(I_, c)
        fs += [to_z(f) for f in limits(loc, idx) if f is not True]
        q = s.fork()
        q.pc = list(q.pc) + fs + ([to_z(x) for x in inst(loc, idx)] if inst else [])
        cases = [[]]
        if splits is not None:
            ss = [to_z(x) for x in splits(loc, idx)]
            cases = [[z3.Not(x) for x in ss[:k]] + ([ss[k]] if k < len(ss) else []) for k in range(len(ss) + 1)]
        for col in cols:
            i = idx + ([] if col is None else [col])
            have, want = c.fn(*i), v(*i)
            for n, hyp in enumerate(cases):
                p = q.fork()
                p.pc = list(q.pc) + hyp
                I_.oblige(f"{where}: {nm}" + ("" if col is None else f", entry {col}") + (f" ({n})" if len(cases) > 1 else ""), p, eqv(have, want), "loop")


def eqv(a, b):
    if isinstance(a, bool) or isinstance(b, bool) or is_bool_t(a) or is_bool_t(b):
        return to_z(to_bool(a)) == to_z(to_bool(b))
    return to_z(cmp("==", a, b))


def stores(body, target):
    out = set()
    for x in [target, *body]:
        for y in ast.walk(x):
            if isinstance(y, ast.Name) and isinstance(y.ctx, (ast.Store, ast.Del)):
                out.add(y.id)
    return out


def run(I_, node, it, st, fr, make):
    if isinstance(it, list):
        items = it
        if not items or any(isinstance(x, bool) or not isinstance(x, int) for x in items) or items != list(range(items[0], items[0] + len(items))):
            I_.unsupported(node, "contract of a loop over a list")
        it = IterV([len(items)], lambda d: add(items[0], d[0]))
    if it.guard is not None or node.orelse:
        I_.unsupported(node, "contract of a filtered loop")
    axes = list(it.axes)
    for a in axes:
        if I_.decide(cmp(">=", a, 0), st) is not True:
            I_.unsupported(node, "contract of a loop of unknown direction")
    view = View(I_, st, fr)
    c = make(view, axes)
    if c is None:
        return None
    where = f"loop over {ast.unparse(node.target)}"
    if any(not isinstance(x, list) or x for x in (I_.reads, I_.writes)):
        I_.unsupported(node, "loop contract inside a summarised loop")
    limits = getattr(c, "limits", lambda loc, idx: [])
    zero = [0] * len(axes)
    # at the start
    q = st.fork()
    q.pc = list(q.pc) + [to_z(f) for f in c.defs(zero)]
    check(I_, "at the start", node, q, fr, c.state(zero), limits, None, c.cell)
    for n, f in enumerate(c.facts(zero)):
        I_.oblige(f"{where}: at the start: fact {n}", q, to_z(f), "loop")
    # one iteration
    digits = [fresh("pos") for _ in axes]
    rng = []
    for k, a in zip(digits, axes):
        rng += [k >= 0, to_z(cmp("<", k, a))]
    s = st.fork()
    s.pc = list(s.pc) + rng
    names = stores(node.body, node.target)
    here = c.state(digits)
    mine = {loc[1] for loc, _ in here if loc[0] == "var"}
    for nm in names - mine:
        N_set(s, fr, nm, Poison(f"variable {nm} is set in a loop with a contract"))
    put(I_, s, fr, here)
    s.pc += [to_z(f) for f in c.facts(digits)] + [to_z(f) for f in c.defs(digits) + c.here(digits)]
    before = dict(s.heap)
    if I_.decide(False, s, 500) is True:
        I_.unsupported(node, "loop contract contradicts itself")
    I_.sink.append([])
    try:
        try:
            I_.assign(node.target, it.get(digits), s, fr)
            o = I_.block(node.body, s, fr)
        except PathEnds:
            I_.dead_raises(s)
            o = Out()
    finally:
        sunk = I_.sink.pop()
    if o.rets:
        I_.unsupported(node, "return inside a loop with a contract")
    e = o.normal
    if o.cont is not None:
        e = o.cont if e is None else I_.merge_states(e, o.cont)[0]
    ends = [(x, k) for x, k in ((e, "one iteration"), (o.brk, "at the break")) if x is not None]
    known, whole = set(), {}
    for loc, _ in here + (c.exit() if c.exit else []):
        if loc[0] == "attr":
            obj = attr_of(st, fr, loc)
            known.add(obj)
            whole.setdefault(obj, set()).add(loc[2])
        elif loc[0] != "var":
            known.add(key_of(I_, st, fr, loc))
    for x, _ in ends:
        sunk = sunk + x.raises
        x.raises = []
        for k, at in whole.items():
            if any(x.heap[k].attrs.get(a) is not b for a, b in before[k].attrs.items() if a not in at) or set(x.heap[k].attrs) != set(before[k].attrs):
                I_.unsupported(node, "an object changes in a loop whose contract does not mention it")
        for k, v in before.items():
            w = x.heap.get(k)
            if w is v or k in known:
                continue
            if k == fr or isinstance(v, FrameC):
                bad = [n for n in w.vars if w.vars[n] is not v.vars.get(n) and not (k == fr and (n in names or n in mine))]
                if bad:
                    I_.unsupported(node, f"{bad[0]} changes in a loop whose contract does not mention it")
                continue
            I_.unsupported(node, f"{type(v).__name__} changes in a loop whose contract does not mention it")
    # successor of the position
    nxt = list(digits)
    nxt[-1] = add(digits[-1], 1)
    for i in range(len(axes) - 1, 0, -1):
        wrap = cmp("==", nxt[i], axes[i])
        nxt[i - 1] = ite(wrap, add(digits[i - 1], 1), digits[i - 1])
        nxt[i] = ite(wrap, 0, nxt[i])
    if e is not None:
        q = e.fork()
        q.pc = list(q.pc) + [to_z(f) for f in c.defs(nxt)]
        check(I_, "one iteration", node, q, fr, c.state(nxt), limits, c.splits and (lambda loc, idx: c.splits(digits, loc, idx)), c.cell and (lambda loc, idx: c.cell(loc, idx)))
        for n, f in enumerate(c.facts(nxt)):
            I_.oblige(f"{where}: one iteration: fact {n}", q, to_z(f), "loop")
    last = [axes[0]] + [0] * (len(axes) - 1)
    final = c.exit() if c.exit else c.state(last)
    if o.brk is not None:
        if c.exit is None:
            I_.unsupported(node, "break in a loop whose contract has no exit")
        check(I_, "at the break", node, o.brk, fr, final, limits, None, c.cell)
        for n, f in enumerate(c.exit_facts()):
            I_.oblige(f"{where}: at the break: fact {n}", o.brk, to_z(f), "loop")
    if c.exit is not None:
        q = st.fork()
        for nm in names - mine:
            N_set(q, fr, nm, Poison(nm))
        put(I_, q, fr, c.state(last))
        q.pc = list(q.pc) + [to_z(f) for f in c.facts(last)] + [to_z(f) for f in c.defs(last)]
        check(I_, "at the end", node, q, fr, final, limits, None, c.cell)
        for n, f in enumerate(c.exit_facts()):
            I_.oblige(f"{where}: at the end: fact {n}", q, to_z(f), "loop")
    out = st.fork()
    out.raises = list(st.raises) + sunk
    for nm in names | mine:
        N_set(out, fr, nm, Poison(f"variable {nm} is set in a loop with a contract"))
    put(I_, out, fr, final)
    out.pc = list(out.pc) + [to_z(f) for f in (c.exit_facts() if c.exit else c.facts(last))] + ([] if c.exit else [to_z(f) for f in c.defs(last)])
    I_.loop_oblig_list.append(where + " (contract)")
    r = Out()
    r.normal = out
    return r
