"""Symbolic interpreter for the Python subset used by pymech, over the AST of the real source files."""
import ast
import builtins
import os
import re
import time

from heap import *
from terms import *

SRC = os.environ.get("PYMECH_SRC", "/repo/src")


class PathEnds(Exception):
    """no continuation of the current path"""


class LoopCarried(Unsupported):
    pass


class State:
    __slots__ = ("heap", "pc", "raises")

    def __init__(self):
        self.heap, self.pc, self.raises = {}, [], []

    def fork(self):
        s = State()
        s.heap, s.pc, s.raises = dict(self.heap), list(self.pc), []
        return s

    def become(self, o):
        self.heap, self.pc = o.heap, o.pc
        if o is not self:
            self.raises = self.raises + o.raises


class FuncVal:
    def __init__(self, node, module, frame, qual, cls=None):
        self.node, self.module, self.frame, self.qual, self.cls = node, module, frame, qual, cls
        self.defaults = None

    def subst(self, pairs):
        return self


class LambdaVal(FuncVal):
    pass


class BoundMethod:
    def __init__(self, fn, self_):
        self.fn, self.self_ = fn, self_


class ClassVal:
    def __init__(self, node, module):
        self.node, self.module, self.name = node, module, node.name
        self.members = {}
        self.props = set()
        self.isattrs = any("define" in ast.unparse(d) for d in node.decorator_list)
        for n in node.body:
            if isinstance(n, ast.FunctionDef):
                self.members[n.name] = n
                if any(isinstance(d, ast.Name) and d.id == "property" for d in n.decorator_list):
                    self.props.add(n.name)
        # attributes of the class that are literals
        self.consts = {}
        for n in node.body if not self.isattrs else ():
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                try:
                    v = ast.literal_eval(n.value)
                except ValueError:
                    continue
                if isinstance(v, (tuple, str, int)):
                    self.consts[n.targets[0].id] = v

    def subst(self, pairs):
        return self


class ExcVal:
    def __init__(self, kind, args=()):
        self.kind, self.args = kind, args


class Builtin:
    def __init__(self, name, f):
        self.name, self.f = name, f

    def subst(self, pairs):
        return self


class ModVal:
    def __init__(self, name):
        self.name = name

    def subst(self, pairs):
        return self


class PartialVal:
    def __init__(self, f, args):
        self.f, self.args = f, args


# iterables: a list of axes (count terms) and a function digits -> value
class IterV:
    def __init__(self, axes, get, what="iterable", guard=None):
        self.axes, self.get, self.what, self.guard = list(axes), get, what, guard

    def subst(self, pairs):
        raise Unsupported("iterator escapes")


class GenV:
    def __init__(self, node, frame, module, fn):
        self.node, self.frame, self.module, self.fn = node, frame, module, fn


class Out:
    def __init__(self):
        self.normal, self.rets, self.brk, self.cont = None, [], None, None


class Obligation:
    def __init__(self, name, facts, goal, kind="code"):
        self.name, self.facts, self.goal, self.kind = name, facts, goal, kind
        self.status, self.backend, self.t, self.detail = "pending", None, 0.0, ""


class Module:
    def __init__(self, name, path):
        self.name, self.path = name, path
        self.src = open(path).read()
        self.tree = ast.parse(self.src)
        self.globals = {}


class Interp:
    def __init__(self):
        self.modules = {}
        self.counter = 0
        self.obligations = []
        self.collect = True
        self.facts = []  # facts about fresh constants (ranges of loop variables, ...)
        self.flags = {}  # z3 constant id -> record (exists flags, counters)
        self.reads = []  # stack of read logs
        self.writes = []  # stack of write logs
        self.overrides = {}
        self.loop_contracts = {}  # loop variable -> contract of the loop (spec.py)
        self.loop_specs = {}
        self.used_functions = set()
        self.fn_stack = []
        self.unroll_limit = 200
        self.assumptions = set()
        self.cur = None
        self.digits = {}
        self.marks = []
        self.reductions = {}
        self.sorted_ids = {}
        self._gstate = State()
        self.loop_obligations = 0
        self.loop_oblig_list = []
        self._loop_mark = 0
        import npmodel

        self.np = npmodel
        npmodel.setup(self)

    # ------------------------------------------------------------ allocation
    def new(self, st, content):
        self.counter += 1
        st.heap[self.counter] = content
        return self.counter

    def loc(self, node):
        fn = self.fn_stack[-1] if self.fn_stack else "?"
        try:
            t = ast.unparse(node)
        except Exception:
            t = "?"
        return f"{fn}: `{t[:90]}`"

    def unsupported(self, node, why):
        raise Unsupported(f"{self.loc(node)}: {why}")

    # ------------------------------------------------------------ facts / obligations
    def all_facts(self, st, *goals):
        """global facts, path condition, and the facts about the bound constants that occur in the query"""
        pcs = [p for p in st.pc if isz(p)]
        out = list(self.facts) + pcs
        todo = [consts_of(x) for x in out] + [consts_of(g) for g in goals if isz(g)]
        seen = set()
        while todo:
            for i in todo.pop():
                if i in self.digits and i not in seen:
                    seen.add(i)
                    for f in self.digits[i][1]:
                        out.append(f)
                        todo.append(consts_of(f))
        return out

    def new_digit(self, name, n, extra=()):
        """constant ranging over [0, n)"""
        k = fresh(name)
        fs = [k >= 0, to_z(cmp("<", k, n))]
        self.digits[k.get_id()] = (k, fs, n)
        return k

    def gstate(self):
        return self._gstate

    decide_ms = 1500

    def decide(self, c, st, timeout=None):
        timeout = timeout or self.decide_ms
        c = unval(c) if isz(c) else c
        if isinstance(c, bool):
            return c
        return decide(c, self.all_facts(st, c), timeout)

    pins = False

    def pinned(self, v, st):
        """v as a number when the facts of the state determine it (one of 0..6), else v"""
        if not isz(v):
            return v
        for c in (1, 2, 3, 4, 0, 5, 6):
            if self.decide(cmp("==", v, c), st) is True:
                return c
        return v

    def oblige(self, name, st, goal, kind="code"):
        goal = unval(goal) if isz(goal) else goal
        if goal is True or not self.collect:
            return
        self.obligations.append(Obligation(name, self.all_facts(st, goal), goal, kind))

    def quot(self, a, b):
        if isinstance(b, (int, Fraction)) and b != 0:
            return mul(to_real(a), 1 / Fraction(b))
        return to_z(to_real(a)) / to_z(to_real(b))

    def arith_np(self, op, a, b, st, n):
        if isinstance(op, ast.Div):
            return self.quot(a, b)
        if isinstance(op, (ast.FloorDiv, ast.Mod)) and not (isinstance(a, int) and isinstance(b, int)):
            st = self._gstate
        if isinstance(op, ast.Pow) and isinstance(b, Fraction) and b == Fraction(1, 2):
            return SQRT(to_z(to_real(a)))
        return self.arith(op, a, b, st, n)

    def log_read(self, base, pattern, st):
        if self.reads:
            self.reads[-1].append((base, tuple(pattern), list(st.pc)))

    def log_write(self, base, pattern, st, whole=False):
        if self.writes:
            self.writes[-1].append((base, tuple(pattern), list(st.pc)))

    def log_alloc(self, rid, st):
        if self.marks and rid <= self.marks[-1]:
            raise Unsupported("element list restructured inside a loop")

    def is_fresh(self, base, st):
        return not self.marks or base > self.marks[-1]

    def is_sorted(self, st, ar):
        return id(st.heap[ar.base]) in self.sorted_ids

    def copy_facts(self, st, a, b):
        if isinstance(a.base, int) and id(st.heap[a.base]) in self.sorted_ids:
            self.sorted_ids[id(st.heap[b.base])] = st.heap[b.base]

    # ------------------------------------------------------------ modules
    def module(self, name):
        if name in self.modules:
            return self.modules[name]
        path = os.path.join(SRC, *name.split("."))
        if os.path.isdir(path):
            path = os.path.join(path, "__init__.py")
        else:
            path += ".py"
        if not os.path.exists(path):
            raise Unsupported(f"module {name}")
        m = Module(name, path)
        self.modules[name] = m
        self.init_module(m)
        return m

    def init_module(self, m):
        for n in m.tree.body:
            if isinstance(n, ast.FunctionDef):
                m.globals[n.name] = FuncVal(n, m, None, n.name)
            elif isinstance(n, ast.ClassDef):
                m.globals[n.name] = ClassVal(n, m)
            elif isinstance(n, ast.Import):
                for a in n.names:
                    m.globals[a.asname or a.name.split(".")[0]] = ModVal(a.name if a.asname else a.name.split(".")[0])
            elif isinstance(n, ast.ImportFrom):
                self.import_from(m, n, m.globals)
            elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                m.globals[n.targets[0].id] = ("lazy", n.value)
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.value is not None:
                m.globals[n.target.id] = ("lazy", n.value)

    def import_from(self, m, n, env):
        base = n.module or ""
        if n.level:
            pk = m.name.split(".")
            if not m.path.endswith("__init__.py"):
                pk = pk[:-1]
            pk = pk[: len(pk) - (n.level - 1)]
            base = ".".join(pk + ([base] if base else []))
        for a in n.names:
            env[a.asname or a.name] = ("import", base, a.name)

    def glob(self, m, name):
        if name not in m.globals:
            return None
        v = m.globals[name]
        if isinstance(v, tuple) and v and v[0] == "import":
            _, base, nm = v
            if base.startswith("pymech"):
                if base == "pymech.log":
                    v = ModVal("logger")
                else:
                    mm = self.module(base)
                    if nm in mm.globals:
                        v = self.glob(mm, nm)
                    else:
                        self.module(base + "." + nm)
                        v = ModVal(base + "." + nm)
            else:
                v = self.np.lookup(self, base, nm)
            m.globals[name] = v
        elif isinstance(v, tuple) and v and v[0] == "lazy":
            st = State()
            fr = self.new(st, FrameC({}, None, m, m.name))
            v = self.eval(v[1], st, fr)
            if isinstance(v, (Ref, ArrRef)):
                raise Unsupported(f"mutable module-level value {name}")
            m.globals[name] = v
        return v

    def get_function(self, modname, fname):
        m = self.module(modname)
        v = m
        parts = fname.split(".")
        v = self.glob(m, parts[0])
        if v is None:
            raise Unsupported(f"{modname}.{fname} does not exist")
        if len(parts) == 2:
            if parts[1] not in v.members:
                raise Unsupported(f"{modname}.{fname} does not exist")
            return FuncVal(v.members[parts[1]], v.module, None, fname, v)
        return v

    # ------------------------------------------------------------ frames
    def lookup(self, st, fr, name, node):
        f = fr
        while f is not None:
            c = st.heap[f]
            if name in c.vars:
                v = c.vars[name]
                if isinstance(v, Poison):
                    raise LoopCarried(f"{self.loc(node)}: {v.why}")
                return v
            f = c.parent
            m = c.module
        v = self.glob(m, name)
        if v is not None:
            return v
        b = self.np.builtin(self, name)
        if b is not None:
            return b
        self.unsupported(node, f"name {name}")

    def setvar(self, st, fr, name, v):
        c = st.heap[fr]
        d = dict(c.vars)
        d[name] = v
        st.heap[fr] = FrameC(d, c.parent, c.module, c.fn)

    # ------------------------------------------------------------ merging of states
    def merge_states(self, a, b):
        """a, b: states of disjoint paths with a common origin"""
        i = 0
        while i < len(a.pc) and i < len(b.pc) and a.pc[i] is b.pc[i]:
            i += 1
        ca, cb = conj(*a.pc[i:]), conj(*b.pc[i:])
        s = State()
        s.pc = list(a.pc[:i])
        o = disj(ca, cb)
        if isz(o):
            if not (isz(ca) and isz(cb) and (lnot(ca).eq(cb) or lnot(cb).eq(ca) if isz(lnot(ca)) and isz(lnot(cb)) else False)):
                s.pc.append(o)
        s.raises = a.raises + b.raises
        s.heap = self.merge_heaps(ca, a.heap, b.heap)
        return s, ca

    def merge_heaps(self, c, a, b):
        h = {}
        for k in a.keys() | b.keys():
            if k not in a:
                h[k] = b[k]
            elif k not in b:
                h[k] = a[k]
            elif a[k] is b[k]:
                h[k] = a[k]
            else:
                h[k] = self.merge_content(c, a[k], b[k])
        return h

    def merge_content(self, c, x, y):
        if self.marks and isinstance(x, (ListC, loops.AccListC)) and isinstance(y, (ListC, loops.AccListC)) and not (isinstance(x, ListC) and isinstance(y, ListC) and len(x.items) == len(y.items)):
            # a list that grows on some paths of a loop's body
            u, v = x, y
            if isinstance(u, ListC) and isinstance(v, ListC):
                n = 0
                while n < min(len(u.items), len(v.items)) and u.items[n] is v.items[n]:
                    n += 1
                e = ListC(u.items[:n])
            else:
                e = u.entry if isinstance(u, loops.AccListC) else v.entry
            w = []
            for z in (u, v):
                if isinstance(z, loops.AccListC):
                    w.append(z if z.entry is e else None)
                elif isinstance(e, ListC) and len(e.items) <= len(z.items) and all(p is q for p, q in zip(e.items, z.items)):
                    w.append(loops.AccListC(e, [("v", p) for p in z.items[len(e.items) :]]))
                else:
                    w.append(None)
            if all(z is not None for z in w):
                return w[0].merge(self, c, w[1])
            return Poison("list length depends on the path")
        if type(x) is not type(y):
            return Poison(f"object is {type(x).__name__} or {type(y).__name__} depending on the path")
        if isinstance(x, FrameC):
            d = {}
            for k in x.vars.keys() | y.vars.keys():
                if k in x.vars and k in y.vars:
                    d[k] = self.merge_val(c, x.vars[k], y.vars[k])
                else:
                    d[k] = Poison(f"variable {k} is set on some paths only")
            return FrameC(d, x.parent, x.module, x.fn)
        if isinstance(x, InstC):
            d = {}
            for k in x.attrs.keys() | y.attrs.keys():
                if k in x.attrs and k in y.attrs:
                    d[k] = self.merge_val(c, x.attrs[k], y.attrs[k])
                else:
                    d[k] = Poison(f"attribute {k} is set on some paths only")
            return InstC(x.cls, d)
        if isinstance(x, ListC):
            if len(x.items) == len(y.items):
                return ListC([self.merge_val(c, p, q) for p, q in zip(x.items, y.items)])
            return Poison("list length depends on the path")
        if isinstance(x, ArrC):
            if len(x.shape) == len(y.shape) and x.dtype == y.dtype:
                return ArrC([ite(c, p, q) for p, q in zip(x.shape, y.shape)], x.dtype, lambda *i: ite(c, x.fn(*i), y.fn(*i)))
            return Poison("array shape or type depends on the path")
        if isinstance(x, FieldC):
            if x.kind == y.kind and x.dtype == y.dtype:
                sf = x.shapefn if x.shapefn is y.shapefn else (lambda e: ite(c, x.shapefn(e), y.shapefn(e)))
                return FieldC(x.kind, sf, x.dtype, lambda *i: ite(c, x.fn(*i), y.fn(*i)))
            return Poison("field type depends on the path")
        if hasattr(x, "merge"):
            return x.merge(self, c, y)
        return Poison(f"merge of {type(x).__name__}")

    def merge_val(self, c, a, b):
        if a is b:
            return a
        if isinstance(a, Poison) or isinstance(b, Poison):
            return a if isinstance(a, Poison) else b
        if isinstance(a, Ref) and isinstance(b, Ref) and a.oid == b.oid:
            return a
        if isinstance(a, ElemRef) and isinstance(b, ElemRef) and a.rid == b.rid:
            return ElemRef(a.rid, ite(c, a.idx, b.idx))
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(self.merge_val(c, x, y) for x, y in zip(a, b))
        if isinstance(a, ArrRef) and isinstance(b, ArrRef):
            if a.base == b.base and a.aslist == b.aslist and len(a.shape) == len(b.shape) and len(a.sel) == len(b.sel) and all(s[0] == t[0] for s, t in zip(a.sel, b.sel)):
                try:
                    sel = []
                    for s, t in zip(a.sel, b.sel):
                        if s[0] == "c":
                            sel.append(("c", ite(c, s[1], t[1])))
                        elif s[1] == t[1] and s[3] == t[3]:
                            sel.append(("v", s[1], ite(c, s[2], t[2]), s[3]))
                        else:
                            raise Unsupported("views")
                    return ArrRef(a.base, sel, [ite(c, x, y) for x, y in zip(a.shape, b.shape)], a.aslist)
                except Unsupported:
                    pass
            return Choice(c, a, b)
        if isinstance(a, (ArrRef, Choice)) and isinstance(b, (ArrRef, Choice)):
            return Choice(c, a, b)
        if isinstance(a, (ArrRef, Choice, Ref)) and isinstance(b, (ArrRef, Choice, Ref)) and not (isinstance(a, Ref) and isinstance(b, Ref)):
            return ChoiceSeq(c, a, b)
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return a if isinstance(a, Opaque) else b
        if isinstance(a, FuncVal) and isinstance(b, FuncVal) and a.node is b.node:
            return a
        if a is None and b is None:
            return None
        if hasattr(a, "pieces") or hasattr(b, "pieces"):
            r = self.np.files.cond_text(c, a, b)
            return Poison("text depends on the path") if r is None else r
        try:
            return ite(c, a, b)
        except Unsupported as e:
            return Poison(str(e))

    # ------------------------------------------------------------ statements
    def block(self, stmts, st, fr):
        out = Out()
        cur = st
        for n in stmts:
            o = self.stmt(n, cur, fr)
            out.rets += o.rets
            if o.brk is not None:
                out.brk = o.brk if out.brk is None else self.merge_states(out.brk, o.brk)[0]
            if o.cont is not None:
                out.cont = o.cont if out.cont is None else self.merge_states(out.cont, o.cont)[0]
            cur = o.normal
            if cur is None:
                break
        out.normal = cur
        return out

    def stmt(self, n, st, fr):
        out = Out()
        try:
            m = getattr(self, "s_" + type(n).__name__, None)
            if m is None:
                self.unsupported(n, "statement " + type(n).__name__)
            r = m(n, st, fr)
            if isinstance(r, Out):
                return r
            out.normal = st
        except PathEnds:
            out.normal = None
            self.dead_raises(st)
        return out

    def dead_raises(self, st):
        # raises collected on a state that has no continuation must not be lost
        if st.raises:
            self.sink[-1].extend(st.raises)
            st.raises = []

    def s_Expr(self, n, st, fr):
        if isinstance(n.value, ast.Constant):
            return
        self.eval(n.value, st, fr)

    def s_Pass(self, n, st, fr):
        pass

    def s_Import(self, n, st, fr):
        for a in n.names:
            self.setvar(st, fr, a.asname or a.name.split(".")[0], ModVal(a.name))

    def s_ImportFrom(self, n, st, fr):
        env = {}
        m = st.heap[fr].module
        self.import_from(m, n, env)
        for k, v in env.items():
            tmp = dict(m.globals)
            m.globals[k] = v
            val = self.glob(m, k)
            if k in tmp:
                m.globals[k] = tmp[k]
            else:
                del m.globals[k]
            self.setvar(st, fr, k, val)

    def s_FunctionDef(self, n, st, fr):
        c = st.heap[fr]
        f = FuncVal(n, c.module, fr, c.fn + "." + n.name)
        f.defaults = [self.eval(d, st, fr) for d in n.args.defaults]
        self.setvar(st, fr, n.name, f)

    def s_Nonlocal(self, n, st, fr):
        self.unsupported(n, "nonlocal")

    def s_Assign(self, n, st, fr):
        v = self.eval(n.value, st, fr)
        for t in n.targets:
            self.assign(t, v, st, fr)

    def s_AnnAssign(self, n, st, fr):
        if n.value is not None:
            self.assign(n.target, self.eval(n.value, st, fr), st, fr)

    def s_AugAssign(self, n, st, fr):
        t = n.target
        if isinstance(t, ast.Name):
            old = self.eval(ast.copy_location(ast.Name(t.id, ast.Load()), t), st, fr)
            v = self.eval(n.value, st, fr)
            if isinstance(old, ArrRef) and not old.aslist:
                self.np.assign_array(self, st, old, self.np.binop(self, st, n.op, old, v, n), n)
                return
            if isinstance(old, Ref) and isinstance(st.heap[old.oid], (ListC,)) and isinstance(n.op, ast.Add):
                self.np.list_extend(self, st, old, v, n)
                return
            self.setvar(st, fr, t.id, self.binop(n.op, old, v, st, n))
        elif isinstance(t, ast.Subscript):
            obj = self.eval(t.value, st, fr)
            idx = self.eval_index(t.slice, st, fr)
            old = self.getitem(obj, idx, st, t)
            v = self.eval(n.value, st, fr)
            self.setitem(obj, idx, self.binop(n.op, old, v, st, n), st, t)
        elif isinstance(t, ast.Attribute):
            obj = self.eval(t.value, st, fr)
            old = self.getattr(obj, t.attr, st, t)
            v = self.eval(n.value, st, fr)
            if isinstance(old, ArrRef) and not old.aslist:
                self.np.assign_array(self, st, old, self.np.binop(self, st, n.op, old, v, n), n)
                return
            if isinstance(old, Ref) and isinstance(n.op, ast.Add) and isinstance(st.heap[old.oid], (ListC, RListC, SListC)):
                self.unsupported(n, "in-place list extension of an attribute")
            self.setattr(obj, t.attr, self.binop(n.op, old, v, st, n), st, t)
        else:
            self.unsupported(n, "augmented assignment")

    def assign(self, t, v, st, fr):
        if isinstance(t, ast.Name):
            self.setvar(st, fr, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = self.unpack(v, len(t.elts), st, t)
            for e, x in zip(t.elts, vs):
                self.assign(e, x, st, fr)
        elif isinstance(t, ast.Subscript):
            obj = self.eval(t.value, st, fr)
            idx = self.eval_index(t.slice, st, fr)
            self.setitem(obj, idx, v, st, t)
        elif isinstance(t, ast.Attribute):
            obj = self.eval(t.value, st, fr)
            self.setattr(obj, t.attr, v, st, t)
        else:
            self.unsupported(t, "assignment target")

    def unpack(self, v, n, st, node):
        if isinstance(v, tuple):
            if len(v) != n:
                self.unsupported(node, f"unpacking {len(v)} values into {n}")
            return list(v)
        it = self.iterable(v, st, node)
        if isinstance(it, list):
            if len(it) != n:
                self.unsupported(node, f"unpacking {len(it)} values into {n}")
            return it
        if len(it.axes) == 1 and self.decide(cmp("==", it.axes[0], n), st) is True and it.guard is None:
            return [it.get([i]) for i in range(n)]
        self.unsupported(node, "unpacking of a symbolic sequence")

    def s_If(self, n, st, fr):
        c = self.eval(n.test, st, fr)
        c = self.truth(c, st, n.test)
        return self.branch(c, st, lambda s: self.block(n.body, s, fr), lambda s: self.block(n.orelse, s, fr))

    def truth(self, v, st, node):
        if isinstance(v, Ref):
            c = st.heap[v.oid]
            if isinstance(c, ListC):
                return len(c.items) > 0
            if isinstance(c, (SListC, RListC)):
                return cmp(">", c.n, 0)
            if isinstance(c, (DictC, SetC)):
                return len(c.items) > 0
            return True
        if isinstance(v, (Opaque, Poison)):
            self.unsupported(node, "condition on an unknown value")
        if isinstance(v, (ElemRef, FuncVal, ClassVal, Builtin)):
            return True
        if isinstance(v, ArrRef):
            self.unsupported(node, "truth value of an array")
        if hasattr(v, "truth"):
            return v.truth(self, st)
        return to_bool(v)

    def branch(self, c, st, ft, fe):
        c = unval(c) if isz(c) else c
        if isz(c):
            d = self.decide(c, st)
            if d is not None:
                c = d
        if c is True:
            return ft(st)
        if c is False:
            return fe(st)
        s1, s2 = st.fork(), st.fork()
        s1.raises, s2.raises = [], []
        s1.pc.append(c)
        nc = lnot(c)
        s2.pc.append(nc)
        o1, o2 = ft(s1), fe(s2)
        out = Out()
        out.rets = o1.rets + o2.rets
        if o1.normal is not None and o2.normal is not None:
            out.normal, _ = self.merge_states(o1.normal, o2.normal)
        else:
            out.normal = o1.normal or o2.normal
        for f in ("brk", "cont"):
            a, b = getattr(o1, f), getattr(o2, f)
            setattr(out, f, self.merge_states(a, b)[0] if a is not None and b is not None else a or b)
        for s in (s1, s2):
            pass
        if out.normal is not None:
            out.normal.raises = st.raises + [r for r in out.normal.raises if r not in st.raises]
        else:
            self.sink[-1].extend(st.raises)
        return out

    def s_Return(self, n, st, fr):
        v = None if n.value is None else self.eval(n.value, st, fr)
        out = Out()
        out.rets.append((st, v))
        return out

    def s_Break(self, n, st, fr):
        out = Out()
        out.brk = st
        return out

    def s_Continue(self, n, st, fr):
        out = Out()
        out.cont = st
        return out

    def s_Raise(self, n, st, fr):
        e = self.eval(n.exc, st, fr) if n.exc is not None else ExcVal("reraise")
        if isinstance(e, Builtin):
            e = ExcVal(e.name)
        if not isinstance(e, ExcVal):
            self.unsupported(n, "raised object")
        self.sink[-1].extend(st.raises)
        st.raises = []
        self.sink[-1].append((list(st.pc), e, st))
        return Out()

    def s_Assert(self, n, st, fr):
        c = self.truth(self.eval(n.test, st, fr), st, n.test)

        def bad(s):
            self.sink[-1].append((list(s.pc), ExcVal("AssertionError"), s))
            return Out()

        def good(s):
            o = Out()
            o.normal = s
            return o

        return self.branch(c, st, good, bad)

    def s_With(self, n, st, fr):
        for it in n.items:
            v = self.eval(it.context_expr, st, fr)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, st, fr)
        return self.block(n.body, st, fr)

    def s_While(self, n, st, fr):
        spec = self.loop_specs.get((self.fn_stack[-1], "while"))
        if spec is not None:
            return spec(self, n, st, fr)
        out = Out()
        cur = st
        for _ in range(40):
            c = self.truth(self.eval(n.test, cur, fr), cur, n.test)
            if isz(c):
                d = self.decide(c, cur)
                if d is None:
                    self.unsupported(n, "while loop with a symbolic condition")
                c = d
            if not c:
                o = self.block(n.orelse, cur, fr)
                out.rets += o.rets
                out.normal = o.normal
                break
            o = self.block(n.body, cur, fr)
            out.rets += o.rets
            if o.brk is not None:
                self.unsupported(n, "break")
            cur = o.normal
            if o.cont is not None:
                cur = o.cont if cur is None else self.merge_states(cur, o.cont)[0]
            if cur is None:
                return out
        else:
            self.unsupported(n, "while loop does not end within 40 unrolled iterations")
        return out

    def s_For(self, n, st, fr):
        spec = self.loop_specs.get((self.fn_stack[-1], self.loop_ordinal(n)))
        if spec is not None:
            r = spec(self, n, st, fr)
            if r is not None:
                return r
        itv = self.eval(n.iter, st, fr)
        if isinstance(itv, Ref) and isinstance(st.heap[itv.oid], InstC) and st.heap[itv.oid].cls is self.np.lines.TEXTFILE:
            return self.np.lines.iterate(self, n, itv, st, fr)
        it = self.iterable(itv, st, n.iter)
        if self.loop_contracts:
            make = self.loop_contracts.get(ast.unparse(n.target))
            if make is not None:
                import spec

                r = spec.run(self, n, it, st, fr, make)
                if r is not None:
                    return r
        if isinstance(it, list):
            return self.unrolled(n, it, st, fr)
        import loops

        return loops.symbolic_for(self, n, it, st, fr)

    def loop_ordinal(self, n):
        return getattr(n, "_ordinal", None)

    def unrolled(self, n, items, st, fr, body=None):
        out = Out()
        cur = st
        brk = None
        for x in items:
            try:
                if body is None:
                    self.assign(n.target, x, cur, fr)
                    o = self.block(n.body, cur, fr)
                else:
                    o = body(x, cur)
            except PathEnds:
                self.dead_raises(cur)
                cur = None
                break
            out.rets += o.rets
            if o.brk is not None:
                brk = o.brk if brk is None else self.merge_states(brk, o.brk)[0]
            cur = o.normal
            if o.cont is not None:
                cur = o.cont if cur is None else self.merge_states(cur, o.cont)[0]
            if cur is None:
                break
        if cur is not None and n is not None and n.orelse:
            o = self.block(n.orelse, cur, fr)
            out.rets += o.rets
            cur = o.normal
        if brk is not None:
            cur = brk if cur is None else self.merge_states(cur, brk)[0]
        out.normal = cur
        return out

    def s_Try(self, n, st, fr):
        """try/except (no finally): raises of the body whose kind is a handler's go through the
        handler, from the state in which they happened; the others propagate.  Neither `raise` in
        a handler (which would need the handled exception) nor a handler of a superclass that the
        engine does not know is modelled."""
        if n.finalbody:
            self.unsupported(n, "finally")
        self.sink.append([])
        prev, st.raises = st.raises, []
        try:
            out = self.block(n.body, st, fr)
        except PathEnds:
            out = Out()
        finally:
            sunk = self.sink.pop()
        ends = [s for s in [out.normal, out.brk, out.cont] + [s for s, _ in out.rets] if s is not None]
        for s in ends:
            sunk += [r for r in s.raises if r not in sunk]
            s.raises = []
        kept = []
        for r in sunk:
            h = self.handler(n, r[1], st, fr)
            if h is None:
                kept.append(r)
                continue
            if len(r) < 3 or out.brk is not None or out.cont is not None or any(isinstance(x, (ast.For, ast.While)) for b in n.body for x in ast.walk(b)):
                self.unsupported(n, "handled exception")
            if any(isinstance(x, ast.Raise) and x.exc is None for b in h.body for x in ast.walk(b)):
                self.unsupported(n, "raise in a handler")
            s = r[2].fork()
            s.pc, s.raises = list(r[0]), []
            if h.name:
                self.assign(ast.Name(h.name, ast.Store()), r[1], s, fr)
            o = self.block(h.body, s, fr)
            if o.brk is not None or o.cont is not None:
                self.unsupported(n, "loop control in a handler")
            out.rets += o.rets
            if o.normal is not None:
                if out.normal is None:
                    out.normal = o.normal
                else:
                    out.normal = self.merge_states(out.normal, o.normal)[0]
        if n.orelse:
            self.unsupported(n, "else of try")
        if out.normal is not None:
            out.normal.raises = prev + kept + out.normal.raises
        else:
            self.sink[-1].extend(prev + kept)
        return out

    def handler(self, n, exc, st, fr):
        for h in n.handlers:
            if h.type is None:
                return h
            for t in h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]:
                name = t.attr if isinstance(t, ast.Attribute) else t.id
                py = getattr(builtins, name, None)
                got = getattr(builtins, exc.kind, None)
                if py is None or got is None:
                    self.unsupported(n, f"handler of {name} for {exc.kind}")
                if issubclass(got, py):
                    return h
        return None

    def s_Global(self, n, st, fr):
        self.unsupported(n, "global")

    def s_Delete(self, n, st, fr):
        self.unsupported(n, "del")

    # ------------------------------------------------------------ iterables
    def iterable(self, v, st, node):
        """list of values (concrete) or IterV"""
        if isinstance(v, list):
            return v
        if isinstance(v, tuple):
            return list(v)
        if isinstance(v, str):
            return list(v)
        if isinstance(v, IterV):
            if v.guard is None and all(isinstance(a, int) for a in v.axes):
                tot = 1
                for a in v.axes:
                    tot *= max(a, 0)
                if tot <= self.unroll_limit:
                    import itertools

                    return [v.get(list(d)) for d in itertools.product(*[range(a) for a in v.axes])]
            return v
        if isinstance(v, Ref):
            c = st.heap[v.oid]
            if isinstance(c, (ListC, SetC)):
                return list(c.items)
            if isinstance(c, DictC):
                return [k for k, _ in c.items]
            if isinstance(c, SListC):
                return self.iterable(IterV([c.n], lambda d: c.get(d[0])), st, node)
            if isinstance(c, RListC):
                return self.iterable(IterV([c.n], lambda d: ElemRef(c.rid, add(c.lo, d[0]))), st, node)
            if hasattr(c, "iterate"):
                return c.iterate(self, st, node)
        if isinstance(v, ArrRef):
            if not v.shape:
                self.unsupported(node, "iteration over a 0-d array")
            return self.iterable(IterV([v.shape[0]], lambda d: self.getitem(v, d[0], st, node)), st, node)
        if isinstance(v, GenV):
            return self.gen_iter(v, st, node)
        if isinstance(v, Choice):
            return self.iterable(v.as_array(self, st), st, node)
        self.unsupported(node, f"iteration over {type(v).__name__}")

    def gen_iter(self, g, st, node):
        n = g.node
        if len(n.generators) != 1 or n.generators[0].ifs:
            self.unsupported(node, "generator with conditions")
        gen = n.generators[0]
        it = self.iterable(self.eval(gen.iter, st, g.frame), st, gen.iter)

        def get1(x):
            f = self.new(st, FrameC({}, g.frame, g.module, g.fn))
            self.assign(gen.target, x, st, f)
            return self.eval(n.elt, st, f)

        if isinstance(it, list):
            return [get1(x) for x in it]
        return IterV(it.axes, lambda d: get1(it.get(d)), guard=it.guard)

    # ------------------------------------------------------------ calls
    def call_function(self, f, args, kwargs, st, node=None):
        ov = self.overrides.get(f.qual)
        if ov is not None:
            r = ov(self, st, args, kwargs)
            if r is not NotImplemented:
                return r
        if len(self.fn_stack) > 40:
            raise Unsupported("recursion")
        a = f.node.args
        if a.posonlyargs:
            self.unsupported(f.node, "argument kinds")
        vars = {}
        names = [x.arg for x in a.args]
        if len(args) > len(names) and a.vararg is None:
            raise Unsupported(f"{f.qual}: too many arguments")
        for nm, v in zip(names, args):
            vars[nm] = v
        if a.vararg is not None:
            vars[a.vararg.arg] = tuple(args[len(names) :])
        for k, v in kwargs.items():
            if k not in names and k not in [x.arg for x in a.kwonlyargs]:
                if a.kwarg is not None:
                    continue
                raise Unsupported(f"{f.qual}: unexpected keyword {k}")
            if k in vars:
                raise Unsupported(f"{f.qual}: argument {k} given twice")
            vars[k] = v
        if a.kwarg is not None:
            vars[a.kwarg.arg] = Ref(self.new(st, DictC([(k, v) for k, v in kwargs.items() if k not in names and k not in [x.arg for x in a.kwonlyargs]])))
        if f.defaults is None:
            dst = State()
            dst.heap, dst.pc = st.heap, []
            dfr = self.new(st, FrameC({}, None, f.module, f.qual))
            f_defaults = [self.eval(d, st, dfr) for d in a.defaults]
        else:
            f_defaults = f.defaults
        for nm, v in zip(names[len(names) - len(f_defaults) :], f_defaults):
            vars.setdefault(nm, v)
        for nm, d in zip(a.kwonlyargs, a.kw_defaults):
            if nm.arg not in vars:
                if d is None:
                    raise Unsupported("missing keyword-only argument")
                vars[nm.arg] = self.eval(d, st, self.new(st, FrameC({}, f.frame, f.module, f.qual)))
        missing = [nm for nm in names if nm not in vars]
        if missing:
            raise Unsupported(f"{f.qual}: missing arguments {missing}")
        fid = self.new(st, FrameC(vars, f.frame, f.module, f.qual))
        self.used_functions.add(f.module.name + "." + f.qual)
        if isinstance(f.node, ast.Lambda):
            return self.eval(f.node.body, st, fid)
        self.number_loops(f.node)
        self.fn_stack.append(f.qual)
        self.sink.append([])
        base = list(st.pc)
        prev = st.raises
        st.raises = []
        try:
            o = self.block(f.node.body, st.fork(), fid)
        finally:
            self.fn_stack.pop()
            sunk = self.sink.pop()
        rets = list(o.rets)
        if o.normal is not None:
            rets.append((o.normal, None))
        st.raises = prev + sunk
        if not rets:
            raise PathEnds()
        s, v = rets[0]
        st.raises = st.raises + s.raises
        for s2, v2 in rets[1:]:
            st.raises = st.raises + s2.raises
            sm, ca = self.merge_states(s, s2)
            v = self.merge_val(ca, v, v2)
            s = sm
        st.heap, st.pc = s.heap, s.pc
        if isinstance(v, Poison):
            raise Unsupported(f"{f.qual}: return value: {v.why}")
        return v

    sink = [[]]

    def number_loops(self, node):
        if getattr(node, "_numbered", False):
            return
        i = 0
        for x in ast.walk(node):
            if isinstance(x, ast.For):
                x._ordinal = i
                i += 1
        node._numbered = True

    complex_seen = False
    COMPLEX_OK = ("numpy.fft.irfft2",)

    def call(self, f, args, kwargs, st, node):
        if isinstance(f, FuncVal):
            return self.call_function(f, args, kwargs, st, node)
        if isinstance(f, BoundMethod):
            return self.call_function(f.fn, [f.self_] + list(args), kwargs, st, node)
        if isinstance(f, Builtin):
            if self.complex_seen and f.name not in self.COMPLEX_OK:
                self.np.not_complex(self, st, list(args) + list(kwargs.values()), node)
            return f.f(self, st, args, kwargs, node)
        if isinstance(f, PartialVal):
            return self.call(f.f, list(f.args) + list(args), kwargs, st, node)
        if isinstance(f, ClassVal):
            return self.construct(f, args, kwargs, st, node)
        if isinstance(f, UFun):
            return f.apply(args)
        self.unsupported(node, f"call of {type(f).__name__}")

    def construct(self, cls, args, kwargs, st, node):
        if cls.name in self.overrides:
            return self.overrides[cls.name](self, st, args, kwargs)
        oid = self.new(st, InstC(cls, {}))
        self_ = Ref(oid)
        if cls.isattrs:
            self.np.attrs_init(self, cls, self_, args, kwargs, st, node)
            return self_
        if "__init__" in cls.members:
            fv = FuncVal(cls.members["__init__"], cls.module, None, cls.name + ".__init__", cls)
            self.call_function(fv, [self_] + list(args), kwargs, st, node)
        return self_

    # ------------------------------------------------------------ attributes
    def resolve_elem(self, st, r):
        c = st.heap[r.rid]
        while isinstance(c, RedirectC):
            r = ElemRef(c.rid, c.f(r.idx))
            c = st.heap[r.rid]
        return r, c

    def getattr(self, obj, name, st, node):
        if self.complex_seen and isinstance(obj, ArrRef) and name != "shape":
            self.np.not_complex(self, st, [obj], node)
        if isinstance(obj, ModVal):
            return self.np.modattr(self, obj, name, st, node)
        if isinstance(obj, ElemRef):
            r, c = self.resolve_elem(st, obj)
            if isinstance(c, Poison):
                self.unsupported(node, c.why)
            if name in c.fields:
                fc = st.heap[(r.rid, name)]
                if isinstance(fc, Poison):
                    self.unsupported(node, fc.why)
                if fc.kind == "scalar":
                    return self.read((r.rid, name), (r.idx,), st)
                shape = self.read_shape((r.rid, name), r.idx, st)
                shape = tuple(self.conc(d, st) for d in shape)
                nax = len(shape) + (1 if dt_is_struct(fc.dtype) else 0)
                return ArrRef((r.rid, name), [("c", r.idx)] + [("v", i, 0, 1) for i in range(nax)], shape, aslist=fc.kind == "list")
            return self.class_attr(c.cls, name, ElemRef(r.rid, r.idx), st, node)
        if isinstance(obj, Ref):
            c = st.heap[obj.oid]
            if isinstance(c, Poison):
                self.unsupported(node, c.why)
            if isinstance(c, InstC):
                if name in c.attrs:
                    v = c.attrs[name]
                    if isinstance(v, Poison):
                        raise LoopCarried(f"{self.loc(node)}: {v.why}")
                    return v
                if hasattr(c.cls, "ext_attr"):
                    return c.cls.ext_attr(self, obj, name, st, node)
                return self.class_attr(c.cls, name, obj, st, node)
            return self.np.container_attr(self, obj, c, name, st, node)
        if isinstance(obj, (ArrRef, Choice)):
            return self.np.array_attr(self, obj, name, st, node)
        if isinstance(obj, ClassVal):
            if name == "__name__":
                return obj.name
            if name in obj.consts:
                return obj.consts[name]
            if name in obj.members:
                return FuncVal(obj.members[name], obj.module, None, obj.name + "." + name, obj)
        r = self.np.scalar_attr(self, obj, name, st, node)
        if r is not None:
            return r
        self.unsupported(node, f"attribute {name} of {type(obj).__name__}")

    def class_attr(self, cls, name, self_, st, node):
        if cls is not None and name in cls.consts:
            return cls.consts[name]
        if cls is None or name not in cls.members:
            self.unsupported(node, f"attribute {name} does not exist")
        fv = FuncVal(cls.members[name], cls.module, None, cls.name + "." + name, cls)
        if name in cls.props:
            return self.call_function(fv, [self_], {}, st, node)
        return BoundMethod(fv, self_)

    def setattr(self, obj, name, v, st, node):
        if isinstance(obj, ElemRef):
            return self.np.set_elem_attr(self, obj, name, v, st, node)
        if isinstance(obj, Ref):
            c = st.heap[obj.oid]
            if isinstance(c, InstC):
                if "__setattr__" in c.cls.members and not getattr(self, "_in_setattr", False):
                    fv = FuncVal(c.cls.members["__setattr__"], c.cls.module, None, c.cls.name + ".__setattr__", c.cls)
                    self.call_function(fv, [obj, name, v], {}, st, node)
                    return
                d = dict(c.attrs)
                d[name] = v
                st.heap[obj.oid] = InstC(c.cls, d)
                return
        self.unsupported(node, f"attribute assignment on {type(obj).__name__}")

    # ------------------------------------------------------------ array cells
    def conc(self, t, st):
        """make a term concrete if the facts determine it (small shapes)"""
        if isinstance(t, int) or not isz(t):
            return t
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
            d = self.decide(t.arg(0), st)
            if d is not None:
                return self.conc(unval(t.arg(1 if d else 2)), st)
        return t

    def resolve_base(self, base, sel, st):
        """follow aliases of array objects"""
        c = st.heap[base]
        while isinstance(c, AliasC):
            sel = [("c", c.e)] + list(sel)
            base = c.key
            c = st.heap[base]
            if isinstance(base, tuple):
                r, _ = self.resolve_elem(st, ElemRef(base[0], c_idx(sel)))
                if r.rid != base[0]:
                    base = (r.rid, base[1])
                    sel = [("c", r.idx)] + list(sel[1:])
                    c = st.heap[base]
        if isinstance(base, tuple) and isinstance(st.heap[base[0]], RedirectC):
            r, _ = self.resolve_elem(st, ElemRef(base[0], c_idx(sel)))
            base = (r.rid, base[1])
            sel = [("c", r.idx)] + list(sel[1:])
            c = st.heap[base]
        if isinstance(c, Poison):
            raise Unsupported(c.why)
        return base, list(sel), c

    def read(self, base, idx, st):
        c = st.heap[base]
        self.cur = st
        self.log_read(base, [("c", i) for i in idx], st)
        return c.fn(*idx)

    def read_shape(self, base, e, st):
        self.cur = st
        self.log_read(("#shape",) + base, [("c", e)], st)
        return st.heap[base].shapefn(e)

    # index checks
    def check_index(self, i, n, st, node, wrap=True):
        """obligation that i is a valid index for a dimension of n; returns the normalised index"""
        if isinstance(i, int) and isinstance(n, int):
            if not -n <= i < n:
                self.oblige("index in bounds: " + self.loc(node), st, False)
                raise Unsupported(f"{self.loc(node)}: index {i} out of range {n}")
            return i if i >= 0 else n + i
        if not is_int_t(i):
            self.unsupported(node, "index is not an integer")
        if isinstance(i, int):
            if i >= 0:
                self.oblige("index in bounds: " + self.loc(node), st, cmp("<", i, n))
                return i
            self.oblige("index in bounds: " + self.loc(node), st, cmp(">=", add(n, i), 0))
            return add(n, i)
        d = self.decide(cmp(">=", i, 0), st)
        if d is True:
            self.oblige("index in bounds: " + self.loc(node), st, cmp("<", i, n))
            return i
        if d is False:
            self.oblige("index in bounds: " + self.loc(node), st, cmp(">=", add(n, i), 0))
            return add(n, i)
        self.oblige("index in bounds: " + self.loc(node), st, conj(cmp("<", i, n), cmp(">=", add(n, i), 0)))
        return ite(cmp("<", i, 0), add(n, i), i)

    # ------------------------------------------------------------ items
    def getitem(self, obj, idx, st, node):
        if isinstance(obj, Poison):
            self.unsupported(node, obj.why)
        if isinstance(obj, (tuple, str, bytes)):
            if isinstance(idx, SliceV):
                return self.np.slice_concrete(self, obj, idx, st, node)
            if isinstance(idx, int):
                if not -len(obj) <= idx < len(obj):
                    self.oblige("index in bounds: " + self.loc(node), st, False)
                    self.unsupported(node, "index out of range")
                return obj[idx]
            if isz(idx) and isinstance(obj, tuple):
                i = self.check_index(idx, len(obj), st, node)
                r = obj[-1]
                for j in range(len(obj) - 2, -1, -1):
                    r = self.merge_val(cmp("==", i, j), obj[j], r)
                if isinstance(r, Poison):
                    self.unsupported(node, r.why)
                return r
            self.unsupported(node, "subscript")
        if isinstance(obj, (ArrRef, Choice)):
            return self.np.array_get(self, obj, idx, st, node)
        if isinstance(obj, Ref):
            c = st.heap[obj.oid]
            if isinstance(c, Poison):
                self.unsupported(node, c.why)
            if isinstance(c, ListC):
                if isinstance(idx, SliceV):
                    return Ref(self.new(st, ListC(self.np.slice_concrete(self, c.items, idx, st, node))))
                return self.getitem(c.items, idx, st, node)
            if isinstance(c, RListC):
                if isinstance(idx, SliceV):
                    lo, hi, step = idx.lo, idx.hi, idx.step
                    if hi is not None or step not in (None, 1):
                        self.unsupported(node, "slice of an element list")
                    lo = 0 if lo is None else lo
                    if self.decide(cmp(">=", lo, 0), st) is not True:
                        self.unsupported(node, "slice start may be negative")
                    n = c.n if isinstance(lo, int) and lo == 0 else ite(cmp("<=", lo, c.n), sub(c.n, lo), 0)
                    return Ref(self.new(st, RListC(n, c.rid, add(c.lo, lo))))
                i = self.check_index(idx, c.n, st, node)
                return ElemRef(c.rid, add(c.lo, i))
            if isinstance(c, SListC):
                if isinstance(idx, SliceV):
                    return self.np.slice_slist(self, c, idx, st, node)
                i = self.check_index(idx, c.n, st, node)
                return c.get(i)
            if isinstance(c, DictC):
                if any(isinstance(k, self.np.dsmodel.SymItems) for k, _ in c.items):
                    self.unsupported(node, "dictionary of symbolic length")
                for k, v in c.items:
                    if k == idx:
                        return v
                self.unsupported(node, "dictionary key")
            if hasattr(c, "getitem"):
                return c.getitem(self, st, obj, idx, node)
        if hasattr(obj, "getitem"):
            return obj.getitem(self, st, idx, node)
        self.unsupported(node, f"subscript of {type(obj).__name__}")

    def setitem(self, obj, idx, v, st, node):
        if isinstance(obj, ArrRef):
            return self.np.array_set(self, obj, idx, v, st, node)
        if isinstance(obj, Ref):
            c = st.heap[obj.oid]
            if isinstance(c, ListC) and isinstance(idx, int):
                i = self.check_index(idx, len(c.items), st, node)
                items = list(c.items)
                items[i] = v
                st.heap[obj.oid] = ListC(items)
                return
            if isinstance(c, ListC) and isz(idx):
                i = self.check_index(idx, len(c.items), st, node)
                st.heap[obj.oid] = ListC([self.merge_val(cmp("==", i, j), v, x) for j, x in enumerate(c.items)])
                return
            if isinstance(c, SListC):
                if not is_scalar(v) and not isinstance(v, (str, Str)):
                    self.unsupported(node, "assignment of a non-scalar into a symbolic list")
                i = self.check_index(idx, c.n, st, node)
                self.log_write(obj.oid, [("c", i)], st)
                old = c.get
                st.heap[obj.oid] = SListC(c.n, Fn(lambda k: ite(cmp("==", k, i), v, old(k))))
                return
            if isinstance(c, DictC):
                items = [(k, x) for k, x in c.items if k != idx]
                st.heap[obj.oid] = DictC(items + [(idx, v)])
                return
        self.unsupported(node, f"item assignment on {type(obj).__name__}")

    # ------------------------------------------------------------ expressions
    def eval_index(self, n, st, fr):
        if isinstance(n, ast.Tuple):
            return tuple(self.eval_index(e, st, fr) for e in n.elts)
        if isinstance(n, ast.Slice):
            g = lambda x: None if x is None else self.eval(x, st, fr)
            return SliceV(g(n.lower), g(n.upper), g(n.step))
        return self.eval(n, st, fr)

    def eval(self, n, st, fr):
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            self.unsupported(n, "expression " + type(n).__name__)
        v = m(n, st, fr)
        if isinstance(v, Poison):
            self.unsupported(n, v.why)
        return v

    def e_Constant(self, n, st, fr):
        if isinstance(n.value, float):
            return frac(n.value)
        if n.value is Ellipsis:
            return Ellipsis
        if isinstance(n.value, complex):
            self.complex_seen = True
            return mul(frac(n.value.imag), self.np.IMAG)
        return n.value

    def e_Name(self, n, st, fr):
        return self.lookup(st, fr, n.id, n)

    def e_Tuple(self, n, st, fr):
        return tuple(self.eval_star(n.elts, st, fr))

    def eval_star(self, elts, st, fr):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                it = self.iterable(self.eval(e.value, st, fr), st, e)
                if not isinstance(it, list):
                    self.unsupported(e, "star expression of symbolic length")
                out += it
            else:
                out.append(self.eval(e, st, fr))
        return out

    def e_List(self, n, st, fr):
        return Ref(self.new(st, ListC(self.eval_star(n.elts, st, fr))))

    def e_Set(self, n, st, fr):
        return Ref(self.new(st, SetC(self.eval_star(n.elts, st, fr))))

    def e_Dict(self, n, st, fr):
        return Ref(self.new(st, DictC([(self.eval(k, st, fr), self.eval(v, st, fr)) for k, v in zip(n.keys, n.values)])))

    def e_Attribute(self, n, st, fr):
        return self.getattr(self.eval(n.value, st, fr), n.attr, st, n)

    def e_Subscript(self, n, st, fr):
        return self.getitem(self.eval(n.value, st, fr), self.eval_index(n.slice, st, fr), st, n)

    def e_Lambda(self, n, st, fr):
        c = st.heap[fr]
        f = LambdaVal(n, c.module, fr, c.fn + ".<lambda>")
        f.defaults = [self.eval(d, st, fr) for d in n.args.defaults]
        return f

    def e_IfExp(self, n, st, fr):
        c = self.truth(self.eval(n.test, st, fr), st, n.test)
        if isz(c):
            d = self.decide(c, st)
            if d is not None:
                c = d
        if c is True:
            return self.eval(n.body, st, fr)
        if c is False:
            return self.eval(n.orelse, st, fr)
        st.pc.append(c)
        a = self.eval(n.body, st, fr)
        st.pc.pop()
        st.pc.append(lnot(c))
        b = self.eval(n.orelse, st, fr)
        st.pc.pop()
        return self.merge_val(c, a, b)

    def e_BoolOp(self, n, st, fr):
        isand = isinstance(n.op, ast.And)
        acc = self.eval(n.values[0], st, fr)
        pushed = 0
        try:
            for v in n.values[1:]:
                t = self.truth(acc, st, n)
                if isz(t):
                    d = self.decide(t, st)
                    if d is not None:
                        t = d
                        acc = d
                if t is (not isand):
                    return acc
                if t is isand:
                    acc = self.eval(v, st, fr)
                    continue
                st.pc.append(t if isand else lnot(t))
                pushed += 1
                x = self.truth(self.eval(v, st, fr), st, v)
                acc = conj(t, x) if isand else disj(t, x)
            return acc
        finally:
            for _ in range(pushed):
                st.pc.pop()

    def e_UnaryOp(self, n, st, fr):
        v = self.eval(n.operand, st, fr)
        if isinstance(n.op, ast.Not):
            return lnot(self.truth(v, st, n.operand))
        if isinstance(n.op, ast.USub):
            if isinstance(v, (ArrRef, Choice)):
                return self.np.binop(self, st, ast.Mult(), v, -1, n)
            return neg(v)
        if isinstance(n.op, ast.UAdd):
            return v
        self.unsupported(n, "unary operator")

    def e_BinOp(self, n, st, fr):
        a = self.eval(n.left, st, fr)
        b = self.eval(n.right, st, fr)
        return self.binop(n.op, a, b, st, n)

    def binop(self, op, a, b, st, n):
        if isinstance(a, (ArrRef, Choice)) or isinstance(b, (ArrRef, Choice)):
            if not (isinstance(a, ArrRef) and a.aslist) and not (isinstance(b, ArrRef) and b.aslist):
                return self.np.binop(self, st, op, a, b, n)
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return Opaque()
        if is_scalar(a) and is_scalar(b):
            if self.complex_seen and (self.np.has_imag(a) or self.np.has_imag(b)):
                self.np.arith_dtype(op)(self.np.scalar_dtype(a), self.np.scalar_dtype(b), True, True)
            return self.arith(op, a, b, st, n)
        return self.np.other_binop(self, st, op, a, b, n)

    def arith(self, op, a, b, st, n):
        if isinstance(op, ast.Add):
            return add(a, b)
        if isinstance(op, ast.Sub):
            return sub(a, b)
        if isinstance(op, ast.Mult):
            return mul(a, b)
        if isinstance(op, ast.Div):
            if isnum(a) and isnum(b) and b != 0:
                return frac(a) / frac(b)
            ints = is_int_t(a) and is_int_t(b)
            a, b = to_real(a), to_real(b)
            self.oblige("no division by zero: " + self.loc(n), st, cmp("!=", b, 0), "div")
            if ints and isz(b):
                # exact quotient of integers
                q, r = split_div(poly(a), poly(b))
                if not r and self.decide(cmp("!=", b, 0), st) is True:
                    return from_poly(q, True)
            if isinstance(b, Fraction) and b != 0:
                return mul(a, 1 / b)
            return to_z(a) / to_z(b)
        if isinstance(op, (ast.FloorDiv, ast.Mod)):
            if isinstance(a, int) and isinstance(b, int) and b != 0:
                return a // b if isinstance(op, ast.FloorDiv) else a % b
            if is_int_t(a) and is_int_t(b):
                if self.decide(cmp(">", b, 0), st) is not True:
                    self.unsupported(n, "floor division by a possibly non-positive number")
                return idiv(self, a, b, st) if isinstance(op, ast.FloorDiv) else imod(self, a, b, st)
            self.unsupported(n, "floor division of reals")
        if isinstance(op, ast.Pow):
            return self.power(a, b, st, n)
        if isinstance(op, ast.BitOr) and type(a) is int and type(b) is int:
            return a | b
        if isinstance(op, (ast.BitAnd, ast.BitOr)) and is_bool_t(a) and is_bool_t(b):
            return conj(a, b) if isinstance(op, ast.BitAnd) else lnot(conj(lnot(a), lnot(b)))
        self.unsupported(n, "operator " + type(op).__name__)

    def power(self, a, b, st, n):
        if isnum(a) and isinstance(b, int):
            return a**b if b >= 0 or not isinstance(a, int) else Fraction(a) ** b
        if isinstance(b, int) and 0 <= b <= 6:
            r = 1
            for _ in range(b):
                r = mul(r, a) if not (isinstance(r, int) and r == 1) else a
            return r
        if isinstance(b, Fraction) and b == Fraction(1, 2):
            return self.sqrt(a, st, n)
        if isinstance(b, Fraction) and b.denominator == 1 and 0 <= b <= 6:
            return to_real(self.power(a, int(b), st, n))
        if isinstance(a, int) and a == 2 and isz(b):
            return self.np.pow2(self, b, st, n)
        self.unsupported(n, "power")

    def sqrt(self, a, st, n, what="square root of a non-negative number: "):
        if isnum(a) and a >= 0:
            import math

            f = frac(a)
            p, q = math.isqrt(f.numerator), math.isqrt(f.denominator)
            if p * p == f.numerator and q * q == f.denominator:
                return Fraction(p, q)
        r = to_z(to_real(a))
        self.oblige(what + self.loc(n), st, r >= 0, "sqrt")
        return SQRT(r)

    def e_Compare(self, n, st, fr):
        left = self.eval(n.left, st, fr)
        res = True
        for op, c in zip(n.ops, n.comparators):
            right = self.eval(c, st, fr)
            res = conj(res, self.compare(op, left, right, st, n)) if not (res is True) else self.compare(op, left, right, st, n)
            left = right
        return res

    OPS = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">="}

    def compare(self, op, a, b, st, n):
        if isinstance(op, (ast.Is, ast.IsNot)):
            if (a is None or b is None) and (hasattr(a, "is_none") or hasattr(b, "is_none")):
                r = (b if a is None else a).is_none()
                return r if isinstance(op, ast.Is) else lnot(r)
            if a is None or b is None:
                r = a is None and b is None
            elif isinstance(a, bool) and isinstance(b, bool):
                r = a == b
            elif isinstance(a, Ref) and isinstance(b, Ref):
                r = a.oid == b.oid
            else:
                self.unsupported(n, "identity comparison")
            return r if isinstance(op, ast.Is) else not r
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(b, a, st, n)
            return r if isinstance(op, ast.In) else lnot(r)
        o = self.OPS[type(op)]
        if self.complex_seen:
            self.np.not_complex(self, st, [a, b], n)
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            self.unsupported(n, "comparison of an unknown value")
        if a is None or b is None:
            if o in ("==", "!="):
                return (a is None and b is None) == (o == "==")
            self.unsupported(n, "ordering of None")
        if (is_scalar(a) or isinstance(a, (Str, str))) and (is_scalar(b) or isinstance(b, (Str, str))):
            return cmp(o, a, b)
        if isinstance(a, bytes) and isinstance(b, bytes):
            return (a == b) == (o == "==")
        x, y = self.seq_items(a, st), self.seq_items(b, st)
        if x is not None and y is not None and o in ("==", "!="):
            if isinstance(a, tuple) != isinstance(b, tuple):
                return o == "!="
            r = False if len(x) != len(y) else conj(*[self.compare(ast.Eq(), p, q, st, n) for p, q in zip(x, y)])
            return r if o == "==" else lnot(r)
        if isinstance(a, (ArrRef, Choice)) or isinstance(b, (ArrRef, Choice)):
            return self.np.compare_arrays(self, st, o, a, b, n)
        for p in (a, b):
            if hasattr(p, "compare"):
                return p.compare(self, st, o, a, b, n)
        self.unsupported(n, f"comparison of {type(a).__name__} and {type(b).__name__}")

    def seq_items(self, v, st):
        if isinstance(v, tuple):
            return v
        if isinstance(v, Ref) and isinstance(st.heap[v.oid], ListC):
            return st.heap[v.oid].items
        return None

    def contains(self, c, x, st, n):
        if isinstance(c, str) and isinstance(x, str):
            return x in c
        if hasattr(c, "contains"):
            return c.contains(self, st, x, n)
        if isinstance(c, Ref) and isinstance(st.heap[c.oid], (SetC, DictC)):
            cc = st.heap[c.oid]
            items = cc.items if isinstance(cc, SetC) else [k for k, _ in cc.items]
            return disj(*[self.compare(ast.Eq(), i, x, st, n) for i in items])
        if isinstance(c, Ref) and hasattr(st.heap[c.oid], "contains"):
            return st.heap[c.oid].contains(self, st, x, n)
        items = self.seq_items(c, st)
        sym = None
        if isinstance(c, Ref) and isinstance(st.heap[c.oid], SListC):
            sym = (st.heap[c.oid].n, st.heap[c.oid].get)
        elif isinstance(c, ArrRef) and len(c.shape) == 1 and not self.np.is_record(self, st, c):
            sym = (c.shape[0], self.np.snapshot(self, st, c)[0])
        if sym is not None and is_scalar(x):
            from loops import exists

            k = self.new_digit("k", sym[0])
            return exists(self, [k], list(self.digits[k.get_id()][1]), self.compare(ast.Eq(), sym[1](k), x, st, n), 0)
        if items is None:
            self.unsupported(n, "membership test")
        return disj(*[self.compare(ast.Eq(), i, x, st, n) for i in items])

    def e_JoinedStr(self, n, st, fr):
        return self.np.fstring(self, n, st, fr)

    def e_ListComp(self, n, st, fr):
        return self.np.list_comp(self, n, st, fr)

    def e_GeneratorExp(self, n, st, fr):
        c = st.heap[fr]
        # the outermost iterable is evaluated now
        return GenV(n, fr, c.module, c.fn)

    def e_DictComp(self, n, st, fr):
        if len(n.generators) != 1 or n.generators[0].ifs:
            self.unsupported(n, "dict comprehension")
        g = n.generators[0]
        it = self.iterable(self.eval(g.iter, st, fr), st, g.iter)
        c = st.heap[fr]
        if not isinstance(it, list):
            if len(it.axes) != 1 or it.guard is not None:
                self.unsupported(n, "dict comprehension of symbolic length")
            k = self.new_digit("k", it.axes[0])
            f = self.new(st, FrameC({}, fr, c.module, c.fn))
            self.assign(g.target, it.get([k]), st, f)
            key, val = self.eval(n.key, st, f), self.eval(n.value, st, f)
            if not (hasattr(key, "pieces") and hasattr(val, "subst")):
                self.unsupported(n, "dict comprehension of symbolic length")
            return Ref(self.new(st, DictC([(self.np.dsmodel.SymItems(it.axes[0], k, key), val)])))
        items = []
        for x in it:
            f = self.new(st, FrameC({}, fr, c.module, c.fn))
            self.assign(g.target, x, st, f)
            items.append((self.eval(n.key, st, f), self.eval(n.value, st, f)))
        return Ref(self.new(st, DictC(items)))

    def e_Call(self, n, st, fr):
        f = self.eval(n.func, st, fr)
        if isinstance(f, Builtin) and getattr(f.f, "lazy", False):
            return f.f(self, st, n, fr)
        args = self.eval_star(n.args, st, fr)
        kwargs = {}
        for k in n.keywords:
            if k.arg is None:
                d = self.eval(k.value, st, fr)
                c = st.heap[d.oid] if isinstance(d, Ref) else None
                if not isinstance(c, DictC) or not all(isinstance(x, str) for x, _ in c.items):
                    self.unsupported(n, "**kwargs")
                kwargs.update(c.items)
                continue
            kwargs[k.arg] = self.eval(k.value, st, fr)
        return self.call(f, args, kwargs, st, n)


def c_idx(sel):
    if sel[0][0] != "c":
        raise Unsupported("view over several elements")
    return sel[0][1]


class SliceV:
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class Choice:
    """read-only merge of two array views"""

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b
        self._arr = None

    def as_array(self, I, st):
        x = self.a.as_array(I, st) if isinstance(self.a, Choice) else self.a
        y = self.b.as_array(I, st) if isinstance(self.b, Choice) else self.b
        if len(x.shape) != len(y.shape) or not all(isinstance(p, int) and p == q or (isz(p) and isz(q) and peq(p, q)) for p, q in zip(x.shape, y.shape)):
            raise Unsupported("array of path-dependent shape")
        fx, dx = I.np.snapshot(I, st, x)
        fy, dy = I.np.snapshot(I, st, y)
        if dx != dy:
            raise Unsupported("array of path-dependent type")
        c = self.c
        return I.np.new_array(I, st, x.shape, dx, lambda *i: ite(c, fx(*i), fy(*i)))


class ChoiceSeq:
    """an array on some paths, a list on others: only as the right-hand side of a store"""

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def subst(self, pairs):
        raise Unsupported("sequence that depends on the path")

    def as_array(self, I, st):
        def conv(x):
            if isinstance(x, ArrRef):
                return x
            if isinstance(x, Choice):
                return x.as_array(I, st)
            l = st.heap[x.oid]
            if not isinstance(l, ListC) or not all(is_scalar(v) and not isinstance(v, str) for v in l.items):
                raise Unsupported("sequence that depends on the path")
            it = [to_real(v) for v in l.items]

            def fn(i):
                r = it[-1]
                for k in range(len(it) - 2, -1, -1):
                    r = ite(cmp("==", i, k), it[k], r)
                return r

            return I.np.new_array(I, st, (len(it),), "f8", fn)

        return Choice(self.c, conv(self.a), conv(self.b)).as_array(I, st)


class UFun:
    """uninterpreted function of real arguments given as a parameter"""

    def __init__(self, name, nargs, nout=1):
        self.fs = [z3.Function(f"{name}.{i}", *([R] * nargs), R) for i in range(nout)]
        self.nout = nout

    def subst(self, pairs):
        return self

    def apply(self, args):
        zs = [to_z(to_real(a)) for a in args]
        r = tuple(f(*zs) for f in self.fs)
        return r if self.nout > 1 else r[0]


def split_div(p, d):
    """polynomial p = q*d + r with the monomials divisible by d (a single monomial) in q*d"""
    if len(d) != 1:
        return {}, p
    ((dm, dc),) = d.items()
    q, r = {}, {}
    for m, c in p.items():
        mm = list(m)
        ok = True
        for a in dm:
            if a in mm:
                mm.remove(a)
            else:
                ok = False
                break
        cc = c / dc
        if ok and cc.denominator == 1:
            q[tuple(mm)] = cc
        elif ok and not dm and dc.denominator == 1:
            # constant divisor: split the coefficient
            k = c // dc
            if k:
                q[tuple(mm)] = Fraction(int(k))
            if c - k * dc:
                r[m] = c - k * dc
        else:
            r[m] = c
    return q, r


def idivmod(I, a, n, st):
    """floor division and remainder by n > 0"""
    if isinstance(a, int) and isinstance(n, int):
        return a // n, a % n
    if isinstance(n, int) and n == 1:
        return a, 0
    d = poly(n)
    if len(d) == 1:
        q, r = split_div(poly(a), d)
        if q:
            rt = from_poly(r)
            if I.decide(conj(cmp(">=", rt, 0), cmp("<", rt, n)), st) is True:
                return from_poly(q), rt
    if I.decide(conj(cmp(">=", a, 0), cmp("<", a, n)), st) is True:
        return 0, a
    if isinstance(n, int):
        return to_z(a) / n, to_z(a) % n
    return DIVF(to_z(a), to_z(n)), MODF(to_z(a), to_z(n))


def idiv(I, a, n, st):
    return idivmod(I, a, n, st)[0]


def imod(I, a, n, st):
    return idivmod(I, a, n, st)[1]


import loops  # noqa: E402
