"""Contract API: symbolic arguments, calls of the real functions, named obligations."""
import os
import time

import npmodel as N
from heap import *
from interp import *
from terms import *
import simp
import terms


class Res:
    """outcome of a call: normal state (or None), value, raising outcomes"""

    def __init__(self, st, value, raises):
        self.st, self.value, self.raises = st, value, raises


class E:
    def __init__(self, col, name=""):
        self.col = col  # collector shared by the cases of one property
        self.I = Interp()
        self.I._gstate = State()
        self.st = State()
        self.name = name
        self.top = self.I.new(self.st, FrameC({}, None, None, "contract"))
        self.Mod = None

    # ---------------- symbols
    def int(self, name, *facts):
        k = z3.Int(self.name + name)
        return k

    def real(self, name):
        return z3.Real(self.name + name)

    def str(self, name):
        return Str(z3.Int(self.name + name))

    def assume(self, *fs):
        for f in fs:
            f = unval(f) if isz(f) else f
            if f is True:
                continue
            if f is False:
                raise Unsupported("contradictory precondition")
            self.I.facts.append(to_z(f))
        self.I._gstate.pc = []

    def fresh_int(self, name, n=None):
        """an arbitrary integer, in [0, n) if n is given"""
        k = fresh(name)
        if n is not None:
            self.assume(k >= 0, cmp("<", k, n))
        return k

    # ---------------- heap building
    def new(self, c):
        return self.I.new(self.st, c)

    def list(self, items):
        return Ref(self.new(ListC(items)))

    def slist(self, n, get):
        return Ref(self.new(SListC(n, Fn(get))))

    def array(self, shape, dt, fn):
        return N.new_array(self.I, self.st, shape, dt, fn)

    def region(self, n, fields):
        """fields: name -> (kind, shape tuple or fn, dtype, fn(e,*idx))"""
        cls = self.cls("pymech.core", "Elem")
        rid = self.new(RegionC(cls, list(fields), n))
        for f, (kind, sh, dt, fn) in fields.items():
            self.st.heap[(rid, f)] = FieldC(kind, sh if callable(sh) else (lambda e, sh=sh: tuple(sh)), dt, fn)
        return rid

    def cls(self, m, c):
        v = self.I.glob(self.I.module(m), c)
        if not isinstance(v, ClassVal):
            raise Unsupported(f"class {m}.{c}")
        return v

    def mesh(self, nm, ndim, nel, lr1, var, nbc, pre=None, dt="f8", elmap=None, extra=None):
        """an arbitrary mesh: uninterpreted functions for all element data"""
        P = self.name + nm
        lx, ly, lz = lr1
        pos = z3.Function(P + ".pos", I, I, I, I, I, R)
        curv = z3.Function(P + ".curv", I, I, I, R)
        ccurv = z3.Function(P + ".ccurv", I, I, I)
        fl = {n: z3.Function(f"{P}.{n}", I, I, I, I, I, R) for n in ("vel", "pres", "temp", "scal")}
        cols = [z3.Function(f"{P}.bcs{c}", I, I, I, I if c < 3 else R) for c in range(8)]
        bdt = ("struct", ("s3", "i4", "i4") + (dt,) * 5)

        def bcs(e, b, f, c):
            t = cols[c](to_z(e), to_z(b), to_z(f))
            return Str(t) if c == 0 else t

        A = lambda F: (lambda *i: F(*[to_z(x) for x in i]))
        fields = {
            "pos": ("array", (3, lz, ly, lx), dt, A(pos)),
            "curv": ("array", (12, 5), dt, A(curv)),
            "ccurv": ("list", (12,), "s", lambda e, i: Str(ccurv(to_z(e), to_z(i)))),
            "vel": ("array", (3, lz, ly, lx), dt, A(fl["vel"])),
            "pres": ("array", (var[2], lz, ly, lx), dt, A(fl["pres"])),
            "temp": ("array", (var[3], lz, ly, lx), dt, A(fl["temp"])),
            "scal": ("array", (var[4], lz, ly, lx), dt, A(fl["scal"])),
            "bcs": ("array", (nbc, 6), bdt, bcs),
        }
        rid = self.region(nel, fields)
        attrs = {
            "ndim": ndim, "nel": nel, "ncurv": z3.Int(P + ".ncurv"), "nbc": nbc,
            "var": self.list(var), "lr1": self.list(lr1), "time": z3.Real(P + ".time"), "istep": z3.Int(P + ".istep"),
            "wdsz": 8, "endian": "little", "elem": Ref(self.new(RListC(nel, rid, 0))),
        }
        em = elmap
        if em is None:
            F = z3.Function(P + ".elmap", I, I)
            em = lambda i: F(to_z(i))
        attrs["elmap"] = self.array((nel,), "i4", em)
        if extra:
            attrs.update(extra)
        return Ref(self.new(InstC(self.cls("pymech.core", "HexaData"), attrs)))

    # ---------------- calling the code
    def call(self, mod, fn, *args, **kw):
        I_ = self.I
        f = I_.get_function(mod, fn)
        st = self.st.fork()
        I_.sink.append([])
        try:
            v = I_.call(f, list(args), kw, st, ast.Name("contract", ast.Load()))
            r = Res(st, v, [])
        except PathEnds:
            r = Res(None, None, [])
        sunk = I_.sink.pop()
        r.raises = sunk + st.raises
        st.raises = []
        return r

    def construct(self, mod, cls, *args, **kw):
        I_ = self.I
        c = self.cls(mod, cls)
        st = self.st.fork()
        I_.sink.append([])
        try:
            v = I_.construct(c, list(args), kw, st, ast.Name("contract", ast.Load()))
            r = Res(st, v, [])
        except PathEnds:
            r = Res(None, None, [])
        r.raises = I_.sink.pop() + st.raises
        st.raises = []
        return r

    # ---------------- reading results
    def attr(self, st, ref, name):
        return self.I.getattr(ref, name, st, ast.Name(name, ast.Load()))

    def elem(self, st, mesh, i):
        l = self.attr(st, mesh, "elem")
        c = st.heap[l.oid]
        if isinstance(c, RListC):
            return ElemRef(c.rid, add(c.lo, i))
        if isinstance(c, SListC):
            return c.get(i)
        if isinstance(c, ListC):
            return c.items[i]
        raise Unsupported("element list")

    def nelem(self, st, mesh):
        l = self.attr(st, mesh, "elem")
        c = st.heap[l.oid]
        return len(c.items) if isinstance(c, ListC) else c.n

    def cell(self, st, mesh, e, attr, *idx):
        r, c = self.I.resolve_elem(st, self.elem(st, mesh, e))
        fc = st.heap[(r.rid, attr)]
        if isinstance(fc, Poison):
            raise Unsupported(fc.why)
        return fc.fn(r.idx, *idx)

    def fieldshape(self, st, mesh, e, attr):
        r, c = self.I.resolve_elem(st, self.elem(st, mesh, e))
        return st.heap[(r.rid, attr)].shapefn(r.idx)

    def arr(self, st, a, *idx):
        f, _ = N.snapshot(self.I, st, a)
        return f(*idx)

    # ---------------- obligations
    def prove(self, name, goal, st=None, hyp=(), kind="post"):
        s = (st or self.st).fork()
        s.pc = s.pc + [to_z(h) for h in hyp if h is not True]
        if goal is True or goal is False:
            g = z3.BoolVal(goal)
        else:
            g = goal
        self.col.add(Obligation(self.col.pid + "." + (self.name + ": " if self.name else "") + name, self.I.all_facts(s, g), g, kind))

    def eq(self, name, a, b, st=None, hyp=()):
        if isinstance(a, (str, Str)) or isinstance(b, (str, Str)):
            self.prove(name, cmp("==", a, b), st, hyp)
        else:
            self.prove(name, cmp("==", a, b), st, hyp)

    def raises_iff(self, name, r, cond, kinds=("ValueError",), hyp=()):
        """the call raises exactly when cond holds"""
        conds = []
        for pc, ex, s in r.raises:
            if ex.kind not in kinds:
                q = self.st.fork()
                q.pc = list(pc)
                self.prove(f"{name}: {ex.kind} is never raised", False, q, hyp)
            else:
                conds.append(conj(*pc))
        got = disj(*conds)
        base = self.st
        self.prove(f"{name}: refused only when the statement says so", disj(lnot(got), cond), base, hyp)
        self.prove(f"{name}: refused whenever the statement says so", disj(lnot(cond), got), base, hyp)
        if r.st is not None:
            self.prove(f"{name}: no normal return when it must refuse", lnot(cond), r.st, hyp)

    def never_raises(self, name, r, hyp=()):
        for pc, ex, s in r.raises:
            q = self.st.fork()
            q.pc = list(pc)
            self.prove(f"{name}: {ex.kind} is not raised", False, q, hyp)
        if r.st is None:
            self.prove(f"{name}: returns", False, self.st, hyp)

    def increasing(self, name, n):
        """a strictly increasing sequence S of n non-negative integers, and an arbitrary order P of its entries"""
        import loops

        S, Sinv, P = (z3.Function(self.name + name + x, I, I) for x in ("", ".inv", ".order"))
        MONO[S.name()] = (S, Sinv, to_z(n))
        loops.INVERSES[S.name()] = (S, Sinv)
        PERM[P.name()] = (S, P, to_z(n))
        i = z3.Int(self.name + "perm!i")
        self.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(P(i) >= 0, P(i) < n)), patterns=[P(i)]))
        return S, P

    def length(self, st, v):
        if isinstance(v, tuple):
            return len(v)
        c = st.heap[v.oid]
        return len(c.items) if isinstance(c, ListC) else c.n

    def item(self, st, v, i):
        if isinstance(v, tuple):
            return v[i]
        c = st.heap[v.oid]
        return c.items[i] if isinstance(c, ListC) else c.get(i)

    def attained(self, name, x, fn, dims, st, hyp=()):
        """some index of the box has the value x: by contradiction, no index has it"""
        ix = [z3.Int(f"all!{i}") for i in range(len(dims))]
        inr = z3.And([z3.And(i >= 0, to_z(cmp("<", i, d))) for i, d in zip(ix, dims)])
        v = fn(*ix)
        y = z3.Const(f"value!{to_z(x).get_id()}", to_z(x).sort())
        self.prove(name, z3.Exists(ix, z3.And(inr, v == y)), st, list(hyp) + [y == x])

    def attr_assignment_raises(self, name, st, obj, attr, val, kinds):
        I_ = self.I
        s = st.fork()
        I_.sink.append([])
        try:
            I_.setattr(obj, attr, val, s, ast.Name("contract", ast.Load()))
            r = Res(s, None, [])
        except PathEnds:
            r = Res(None, None, [])
        r.raises = I_.sink.pop() + s.raises
        s.raises = []
        self.raises_iff(name, r, True, kinds)

    FIELDS = {"pos": 4, "curv": 2, "ccurv": 1, "vel": 4, "pres": 4, "temp": 4, "scal": 4, "bcs": 2}
    ATTRS = ("ndim", "nel", "ncurv", "nbc", "time", "istep", "wdsz", "endian")

    def gidx(self, n, what="ix"):
        """generic index of n axes (non-negative) and the facts about it given the extents"""
        return [fresh(what) for _ in range(n)]

    def in_range(self, idx, shape):
        out = []
        for i, d in zip(idx, shape):
            if isz(i):
                out += [i >= 0, to_z(cmp("<", i, d))]
        return out

    def same_field(self, name, f, m0, st0, e0, m1, st1, e1, hyp=(), cells=None):
        """the field of element e1 of m1 in st1 equals that of e0 of m0 in st0 (shape and every cell)"""
        r0, _ = self.I.resolve_elem(st0, self.elem(st0, m0, e0))
        r1, _ = self.I.resolve_elem(st1, self.elem(st1, m1, e1))
        a, b = st0.heap[(r0.rid, f)], st1.heap[(r1.rid, f)]
        if isinstance(b, Poison):
            raise Unsupported(b.why)
        if a is b and r0.idx is r1.idx or (a is b and isz(r0.idx) and isz(r1.idx) and peq(r0.idx, r1.idx)):
            self.prove(f"{name}: {f} is the same", True, st1)
            return
        s0, s1 = a.shapefn(r0.idx), b.shapefn(r1.idx)
        if len(s0) != len(s1):
            self.prove(f"{name}: {f} has the same number of axes", False, st1, hyp)
            return
        if a.dtype != b.dtype:
            self.prove(f"{name}: {f} has the same type", False, st1, hyp)
            return
        for d, (x, y) in enumerate(zip(s0, s1)):
            self.prove(f"{name}: extent {d} of {f}", cmp("==", x, y), st1, hyp)
        idx = self.gidx(len(s0))
        h = list(hyp) + self.in_range(idx, s0)
        cols = range(len(dt_cols(a.dtype))) if dt_is_struct(a.dtype) else [None]
        for c in cols:
            ix = idx + ([] if c is None else [c])
            g = cmp("==", b.fn(r1.idx, *ix), a.fn(r0.idx, *ix))
            self.prove(f"{name}: every entry of {f}" + ("" if c is None else f", column {c}"), g, st1, h)

    def same_attr(self, name, at, m0, st0, m1, st1):
        a, b = self.attr(st0, m0, at), self.attr(st1, m1, at)
        if isinstance(a, ArrRef):
            sa, sb = a.shape, b.shape
            self.prove(f"{name}: length of {at}", cmp("==", sa[0], sb[0]), st1)
            i = fresh("ix")
            self.prove(f"{name}: every entry of {at}", cmp("==", self.arr(st1, b, i), self.arr(st0, a, i)), st1, self.in_range([i], sa))
        elif isinstance(a, Ref):
            x, y = st0.heap[a.oid], st1.heap[b.oid]
            ok = isinstance(x, ListC) and isinstance(y, ListC) and len(x.items) == len(y.items)
            self.prove(f"{name}: {at}", conj(*[cmp("==", p, q) for p, q in zip(x.items, y.items)]) if ok else False, st1)
        else:
            self.prove(f"{name}: {at}", cmp("==", a, b), st1)

    def frame(self, name, m0, st0, m1, st1, e=None, fields=None, attrs=None, hyp=()):
        """everything named is the same in m1/st1 as in m0/st0, for an arbitrary element"""
        for at in self.ATTRS + ("var", "lr1", "elmap") if attrs is None else attrs:
            self.same_attr(name, at, m0, st0, m1, st1)
        self.prove(f"{name}: number of elements", cmp("==", self.nelem(st0, m0), self.nelem(st1, m1)), st1)
        if e is None:
            e = self.fresh_int("e")
            hyp = list(hyp) + [e >= 0, to_z(cmp("<", e, self.nelem(st0, m0)))]
        for f in self.FIELDS if fields is None else fields:
            self.same_field(name, f, m0, st0, e, m1, st1, e, hyp)

    elsewhere = ()  # kinds of obligations from the code that another contract covers

    def disjoint(self, name, st, res, arg):
        """no storage is reachable from both"""
        both = reachable(self, st, res) & reachable(self, st, arg)
        if isinstance(res, Ref):
            both.discard(None)
        self.prove(f"{name} shares no storage with the argument" + (f" ({sorted(map(str, both))[:4]})" if both else ""), not both, st)

    def same_objects(self, name, m, st0, st1):
        """the attributes of the object m are the same objects, and there are no others"""
        a, b = st0.heap[m.oid].attrs, st1.heap[m.oid].attrs
        self.prove(f"{name}: the same attributes", set(a) == set(b), st1)
        for k, v in a.items():
            if isinstance(v, Ref):
                self.prove(f"{name}: {k} is the same object", b.get(k) == v, st1)

    def prop(self, obj, name):
        """value of a property"""
        I_ = self.I
        s = self.st.fork()
        I_.sink.append([])
        try:
            v = self.attr(s, obj, name)
            r = Res(s, v, [])
        except PathEnds:
            r = Res(None, None, [])
        r.raises = I_.sink.pop() + s.raises
        s.raises = []
        return r

    def finish(self):
        """collect the obligations generated from the code, and the functions used"""
        for o in self.I.obligations:
            if o.kind in self.elsewhere:
                continue
            o.name = self.col.pid + "." + (self.name + ": " if self.name else "") + o.name
            self.col.add(o)
        self.I.obligations = []
        self.col.functions |= self.I.used_functions
        self.col.loops += self.I.loop_oblig_list
        self.col.assumptions |= self.I.assumptions
        # vacuity guard: the precondition is satisfiable
        self.col.guard(self.name, list(self.I.facts) + [p for p in self.st.pc if isz(p)])


class Collector:
    def __init__(self, pid, tier="quick"):
        self.pid = pid
        self.tier = tier
        self.obs = []
        self.functions = set()
        self.undecided = []
        self.assumptions = set()
        self.loops = []
        self.guards = []
        self.models = []
        self._seen = set()
        self.deferred = None

    def add(self, o):
        key = (o.name, to_z(o.goal).get_id() if not isinstance(o.goal, bool) else o.goal, tuple(sorted(f.get_id() for f in o.facts if isz(f))))
        if key in self._seen:
            return
        self._seen.add(key)
        self.obs.append(o)

    def guard(self, name, facts):
        r, m = z3_check(facts, 5000)
        self.guards.append((name, {"sat": "satisfiable", "unsat": "CONTRADICTORY"}.get(str(r), "not decided")))

    def case(self, name, fn):
        """one case of a contract; an unsupported construct makes the case undecided"""
        if self.deferred is not None:
            self.deferred.append((name, fn))
            return
        e = E(self, name)
        terms._fresh[0] = 0
        t0 = time.time()
        try:
            fn(e)
        except Unsupported as ex:
            self.undecided.append(f"{name}: {ex}")
        except RecursionError:
            self.undecided.append(f"{name}: recursion limit")
        except Exception as ex:
            # a limit of the engine on this source: the bounded stand-in decides
            if os.environ.get("VERIF_DEBUG"):
                raise
            self.undecided.append(f"{name}: engine: {type(ex).__name__}: {str(ex)[:150]}")
        try:
            e.finish()
        except Unsupported as ex:
            self.undecided.append(f"{name}: {ex}")
        except Exception as ex:
            if os.environ.get("VERIF_DEBUG"):
                raise
            self.undecided.append(f"{name}: engine: {type(ex).__name__}: {str(ex)[:150]}")


def _tag(dt, e):
    import struct

    raw = struct.pack(("<" if e == "little" else ">") + "f", 6.54321)
    return {("<f4", dt): z3_num(struct.unpack("<f", raw)[0]), (">f4", dt): z3_num(struct.unpack(">f", raw)[0])}


def z3_num(x):
    return Fraction(x)


def file_with_tag(E, name, text, endian, pos=132):
    """a binary file: text at the start, then the endianness tag (endian None: arbitrary tag that is neither)"""
    import files

    src = files.Source(E.name + name, text)
    if endian is not None:
        src.tags = _tag(pos, endian)
    E.I.open_hook = lambda I_, st, f, mode: files.open_source(I_, st, src) if mode == "rb" else None
    return src


def header_text(size, *pieces):
    """text of fixed size; strings and (kind, term) pairs, separated by blanks"""
    import files

    ps = []
    for p in pieces:
        if ps:
            ps.append((True, " "))
        if isinstance(p, str):
            ps.append((True, p))
        elif isinstance(p, files.Text):
            ps += list(p.pieces)
        else:
            ps.append((True, files.IntP("%d", p[1]) if p[0] == "int" else files.RealP("%.13E", p[1])))
    return files.Text(ps, True, size)


def wrong_tag(E, src, pos=132):
    """precondition: the tag of the file is not 6.54321 (to five decimals) in either byte order"""
    for dt in ("<f4", ">f4"):
        v = to_int(to_z(src.num(dt, pos)) * 100000)
        E.assume(v != 654321)


# ---------------------------------------------------------------- written files
def output_file(E):
    """open(..., "wb") gives a new file; returns the list that will hold it"""
    import files

    out = []

    def hook(I_, st, f, mode):
        if mode == "wb":
            r = files.new_output(I_, st)
            out.append(r)
            return r

    E.I.open_hook = hook
    return out


def sink(E):
    """open(..., "w") gives a file whose content plays no part in the contract"""
    import files

    E.I.open_hook = lambda I_, st, f, mode: files.Sink() if mode == "w" else None


def parts_of(E, st, f):
    import files

    return list(files.segs(st, f)[1].parts)


def stream(E, seg):
    """(type, axes, function) of a piece; families of equal pieces become one stream"""
    if seg.kind == "text":
        raise Unsupported("text among the numbers of the file")
    if seg.kind == "num":
        return seg.dt, list(seg.shape), seg.fn
    subs = [stream(E, s) for s in seg.fn]
    dt, ax, _ = subs[0]
    for d, a, _ in subs[1:]:
        if d != dt or len(a) != len(ax) or not all(x == y or isz(x) and isz(y) and peq(x, y) for x, y in zip(a, ax)):
            raise Unsupported("pieces of different types or sizes alternate in the file")
    digs, lead = seg.shape, list(seg.n)
    nd, m = len(digs), len(subs)

    def fn(*ix):
        pairs = [(d, to_z(i)) for d, i in zip(digs, ix)]
        rest = ix[nd:]
        if m == 1:
            v = subs[0][2](*rest)
        else:
            s, rest = rest[0], rest[1:]
            v = N.select_val(E.I, [x[2](*rest) for x in subs], s)
        return subst(v, pairs)

    return dt, lead + ([m] if m > 1 else []) + ax, fn


def same_stream(E, name, st, seg, dt, axes, fn, digits_of=None, hyp=()):
    """the piece seg holds exactly the numbers fn(i) of type dt for i in the box axes, in row-major order"""
    d2, ax, gn = stream(E, seg)
    E.prove(f"{name}: type and byte order", d2 == dt, st)
    E.prove(f"{name}: how many numbers", cmp("==", N.prod_terms(ax), N.prod_terms(axes)), st, hyp)
    a = [x for x in axes if not (isinstance(x, int) and x == 1)]
    b = [x for x in ax if not (isinstance(x, int) and x == 1)]
    idx = [E.fresh_int("ix", n) if not (isinstance(n, int) and n == 1) else 0 for n in axes]
    if len(a) == len(b) and all(x == y or isz(x) and isz(y) and peq(x, y) for x, y in zip(a, b)):
        it = [i for i, n in zip(idx, axes) if not (isinstance(n, int) and n == 1)]
        j = [0 if isinstance(n, int) and n == 1 else it.pop(0) for n in ax]
    else:
        t = 0
        for i, n in zip(idx, axes):
            t = add(mul(t, n), i)
        j = N.flat_index(E.I, st, ax, None)(t)
    E.prove(f"{name}: every number", cmp("==", gn(*j), fn(*idx)), st, hyp)


def total_size(E, st, f):
    s = 0
    for p in parts_of(E, st, f):
        s = add(s, p.size())
    return s


def has_quantifier(f):
    i = f.get_id()
    if i not in _quant:
        _quant[i] = (simp.quantified([f]), f)
    return _quant[i][0]


_quant = {}


def source_of(E, st, f, name, endian=None, tag_at=None):
    """the file written (pieces of f in state st) as a byte source: every typed read at the place of a piece of that type
    gives the number written there (when the index is provably inside the piece), everything else is unknown"""
    import files

    segs = []
    off, text = 0, None
    for p in parts_of(E, st, f):
        if p.kind == "text":
            if off != 0:
                raise Unsupported("text among the numbers of the file")
            text = p.text
            if text.size is None:
                raise Unsupported("text of unknown size")
        else:
            dt, ax, fn = stream(E, p)
            segs.append((off, dt, ax, fn))
        off = add(off, p.size())
    src = files.Source(E.name + name, text, off)
    if endian is not None:
        src.tags = _tag(tag_at, endian)

    def inside(k, n):
        c = conj(cmp(">=", k, 0), cmp("<", k, n))
        if isinstance(c, bool):
            return c
        fs = [f for f in E.I.all_facts(E.st, c) if not (isz(f) and has_quantifier(f))]
        return terms.decide(c, fs, 2000) is True

    def quotient(t, w):
        q = dict(poly(t))
        c = q.pop((), 0)
        if any((x / w).denominator != 1 for x in q.values()):
            return None
        q = {m: x / w for m, x in q.items()}
        if c // w:
            q[()] = Fraction(c // w)
        k = from_poly(q)
        return k, int(c % w)

    def known(v):
        if isinstance(v, Str):
            return files.str_of(to_z(E.I.conc(v.t, E.st)))
        return E.I.conc(v, E.st) if isz(v) else v

    def record(o, dt, ax, p):
        """(record, offset inside)"""
        r = quotient(sub(p, o), files.dtsize(dt))
        if r is None or not inside(r[0], N.prod_terms(ax)):
            return None
        return r

    def over(dt, p):
        for o, d, ax, fn in segs:
            if isinstance(d, tuple):
                if d[0] != dt[0]:
                    continue
                r = record(o, d, ax, p)
                if r is None:
                    continue
                q = 0
                for j, c in enumerate(d[1]):
                    if q == r[1] and c == dt[1:]:
                        return known(fn(r[0], j))
                    q += files.colsize(c)
            elif d == dt:
                r = record(o, d, ax, p)
                if r is not None and r[1] == 0:
                    return known(fn(*N.flat_index(E.I, E.st, ax, None)(r[0])))
        return None

    def text_over(p, n):
        for o, d, ax, fn in segs:
            if not isinstance(d, tuple):
                continue
            r = record(o, d, ax, p)
            if r is None:
                continue
            q = 0
            for j, c in enumerate(d[1]):
                if q == r[1] and c[0] == "s":
                    w = int(c[1:])
                    if n == w:
                        return files.str_fn(files.FIXED, known(fn(r[0], j)), w)
                    if n == 1:
                        return files.str_fn(files.FIRST, known(fn(r[0], j)))
                q += files.colsize(c)
        return None

    src.over, src.text_over = over, text_over
    E.I.open_hook = lambda I_, st, f, mode: files.open_source(I_, st, src) if mode == "rb" else None
    return src


def reachable(E, st, *vs):
    """storage reachable from the values: keys of the heap"""
    out, todo = set(), list(vs)
    while todo:
        v = todo.pop()
        if isinstance(v, Ref):
            if v.oid in out:
                continue
            out.add(v.oid)
            c = st.heap[v.oid]
            if isinstance(c, InstC):
                todo += list(c.attrs.values())
            elif isinstance(c, (ListC, DictC, SetC)):
                todo += list(c.items)
            elif isinstance(c, SListC):
                todo.append(c.get(fresh("any")))
            elif isinstance(c, RListC):
                todo.append(ElemRef(c.rid, 0))
            elif isinstance(c, AliasC):
                todo.append(ArrRef(c.key, (), ()))
            elif isinstance(c, Poison):
                raise Unsupported(c.why)
        elif isinstance(v, ArrRef):
            if isinstance(v.base, tuple):
                if v.base in out:
                    continue
                out.add(v.base)
            else:
                todo.append(Ref(v.base))
        elif isinstance(v, ElemRef):
            rid = v.rid
            while True:
                if rid in out:
                    break
                out.add(rid)
                c = st.heap[rid]
                if isinstance(c, RedirectC):
                    rid = c.rid
                    continue
                if isinstance(c, RegionC):
                    out |= {(rid, f) for f in c.fields}
                else:
                    raise Unsupported("element list")
                break
        elif isinstance(v, (tuple, list)):
            todo += list(v)
        elif isinstance(v, (FuncVal, ClassVal, Builtin)):
            pass
        elif isinstance(v, Poison):
            raise Unsupported(v.why)
        elif hasattr(v, "options"):
            todo += list(v.options)
        elif not (is_scalar(v) or v is None or isinstance(v, (str, Str, bytes, Opaque))) and not hasattr(v, "pieces"):
            raise Unsupported(f"storage of {type(v).__name__}")
    return out
