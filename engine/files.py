"""Model of binary files, bytes, struct, formatted text (trusted contracts on Python's io/struct/str and numpy's
frombuffer/fromfile/tofile).

A file that is read is a byte source: the number of type t at byte offset p is dec_t(p).  A file that is written is the
sequence of the pieces written to it; a loop that writes contributes one piece family per iteration."""
import ast
import re

from heap import *
from interp import Builtin, ExcVal, FrameC, IterV, ModVal, SliceV
from terms import *
import npmodel as N
import terms

SIZES = {"f4": 4, "f8": 8, "i4": 4, "i8": 8}
CODES = {"f": "f4", "d": "f8", "i": "i4", "q": "i8", "f4": "f4", "f8": "f8", "i4": "i4", "i8": "i8", "float32": "f4", "float64": "f8", "int32": "i4", "int64": "i8"}


def dtsize(dt):
    """bytes of one item of type '<f8' or ('<', columns)"""
    if isinstance(dt, tuple):
        return sum(colsize(c) for c in dt[1])
    return SIZES[dt[1:]]


def colsize(c):
    return SIZES[c] if c in SIZES else int(c[1:])


class FileCls:
    name = "file"
    members = {}
    props = ()
    isattrs = False

    def ext_attr(self, I_, obj, name, st, node):
        f = {"read": fread, "close": fclose, "seek": fseek, "tell": ftell, "write": fwrite, "__enter__": None, "readline": freadline, "flush": lambda I_, st, obj, a, n: None}.get(name)
        if f is None:
            I_.unsupported(node, f"file attribute {name}")
        return Builtin("file." + name, lambda I_, st, a, k, n: f(I_, st, obj, a, n))


FILE = FileCls()


class Source:
    """byte source with typed numbers; text: the text at its start"""

    def __init__(self, name, text=None, size=None):
        self.name, self.text = name, text
        self.tags = {}
        self.fns = {}
        self.over = None
        self.text_over = None
        self.size = size

    def num(self, dt, p):
        """number of type dt ('<f4', ...) at offset p"""
        if isinstance(p, int) and (dt, p) in self.tags:
            return self.tags[(dt, p)]
        if self.over is not None:
            v = self.over(dt, p)
            if v is not None:
                return v
        if dt not in self.fns:
            self.fns[dt] = z3.Function(f"{self.name}.{dt}", I, R if dt[1] == "f" else I)
        return self.fns[dt](to_z(p))

    def subst(self, pairs):
        return self


def open_source(I_, st, src):
    return Ref(I_.new(st, InstC(FILE, {"%pos": 0, "%src": src, "%mode": "rb", "%open": True})))


def new_output(I_, st):
    seg = Ref(I_.new(st, SegC(())))
    return Ref(I_.new(st, InstC(FILE, {"%segs": seg, "%mode": "wb", "%open": True})))


def fattr(st, obj, name):
    v = st.heap[obj.oid].attrs.get(name)
    if isinstance(v, Poison):
        raise Unsupported(v.why)
    return v


def fset(I_, st, obj, name, v):
    c = st.heap[obj.oid]
    d = dict(c.attrs)
    d[name] = v
    st.heap[obj.oid] = InstC(c.cls, d)


def fread(I_, st, obj, a, n):
    if fattr(st, obj, "%mode") != "rb" or not a:
        I_.unsupported(n, "read")
    p, src = fattr(st, obj, "%pos"), fattr(st, obj, "%src")
    cnt = a[0]
    if not is_int_t(cnt):
        I_.unsupported(n, "size of a read is not an integer")
    if src.size is not None:
        # the file ends at src.size
        if I_.decide(cmp("<=", add(p, cnt), src.size), st, 5000) is not True:
            if I_.decide(cmp(">=", p, src.size), st, 5000) is not True:
                I_.unsupported(n, "read that may reach the end of the file")
            cnt = 0
    fset(I_, st, obj, "%pos", add(p, cnt))
    return BytesVal(src, p, cnt)


def freadline(I_, st, obj, a, n):
    I_.unsupported(n, "readline")


def fseek(I_, st, obj, a, n):
    if fattr(st, obj, "%mode") != "rb":
        I_.unsupported(n, "seek in a written file")
    wh = a[1] if len(a) > 1 else 0
    if not is_int_t(a[0]):
        I_.unsupported(n, "seek by a non-integer")
    if isinstance(wh, int) and wh == 1:
        fset(I_, st, obj, "%pos", add(fattr(st, obj, "%pos"), a[0]))
    elif isinstance(wh, int) and wh == 0:
        fset(I_, st, obj, "%pos", a[0])
    else:
        I_.unsupported(n, "seek")


def ftell(I_, st, obj, a, n):
    return fattr(st, obj, "%pos")


def fclose(I_, st, obj, a, n):
    fset(I_, st, obj, "%open", False)


class BytesVal:
    isbytes = True

    def __init__(self, src, pos, n):
        self.src, self.pos, self.n = src, pos, n

    def subst(self, pairs):
        return BytesVal(self.src, subst(self.pos, pairs), subst(self.n, pairs))

    def len(self):
        return self.n

    def whole_text(self, I_, st, node):
        t = self.src.text
        if t is None or not (isinstance(self.pos, int) and self.pos == 0 and isinstance(self.n, int)):
            I_.unsupported(node, "text of a part of a file")
        if self.n != t.size:
            I_.unsupported(node, "text of another size than the header")
        return t

    def attr(self, I_, st, name, node):
        if self.src.text_over is not None and name == "decode":
            s = self.src.text_over(self.pos, self.n)
            if s is not None:
                return Builtin("bytes.decode", lambda I_, st, a, k, n: s)
        return self.whole_text(I_, st, node).attr(I_, st, name, node)

    def truth(self, I_, st):
        return cmp(">", self.n, 0)

    def compare(self, I_, st, o, a, b, node):
        x = b if a is self else a
        if isinstance(x, bytes) and x == b"" and o in ("==", "!="):
            return cmp(o, self.n, 0)
        I_.unsupported(node, "comparison of bytes")

    def getitem(self, I_, st, idx, node):
        if isinstance(idx, SliceV) and idx.step is None and idx.lo in (None, 0) and isinstance(idx.hi, int) and idx.hi >= 0 and isinstance(self.n, int):
            return BytesVal(self.src, self.pos, min(idx.hi, self.n))
        if isinstance(idx, SliceV) and idx.step is None and not any(x is not None and (not is_int_t(x) or isinstance(x, int) and x < 0) for x in (idx.lo, idx.hi)):
            lo = 0 if idx.lo is None else idx.lo
            hi = self.n if idx.hi is None else idx.hi
            I_.oblige("slice of the bytes: " + I_.loc(node), st, conj(cmp("<=", lo, hi), cmp("<=", hi, self.n)))
            return BytesVal(self.src, add(self.pos, lo), sub(hi, lo))
        I_.unsupported(node, "part of bytes")


# ------------------------------------------------------------------ formatted text
class IntP:
    """an integer printed with a format"""

    def __init__(self, fmt, t):
        self.fmt, self.t = fmt, t

    def subst(self, pairs):
        return IntP(self.fmt, subst(self.t, pairs))


class RealP(IntP):
    def subst(self, pairs):
        return RealP(self.fmt, subst(self.t, pairs))


class StrP:
    def __init__(self, s):
        self.s = s

    def subst(self, pairs):
        return StrP(subst(self.s, pairs))


DIG = z3.Function("digits", I, I)


def ndigits(t):
    """number of characters of an integer in decimal"""
    if isinstance(t, int):
        return len(str(t))
    t = to_z(t)
    r = DIG(t)
    for k in range(12, 0, -1):
        r = z3.If(t < 10**k, z3.IntVal(k), r)
    return z3.If(t >= 0, r, 1 + DIG(-t))


def round_fn(prec):
    return z3.Function(f"round_to_{prec}_digits", R, R)


LEN_REAL = z3.Function("length_of_real", I, R, I)


class Text:
    """concatenation of pieces, each present under a condition"""

    def __init__(self, pieces, isbytes=False, size=None):
        ps = []
        for c, p in pieces:
            if c is False or isinstance(p, str) and p == "":
                continue
            if c is True and isinstance(p, str) and ps and ps[-1][0] is True and isinstance(ps[-1][1], str):
                ps[-1] = (True, ps[-1][1] + p)
            else:
                ps.append((c, p))
        self.pieces, self.isbytes = tuple(ps), isbytes
        self.size = size

    def subst(self, pairs):
        return Text([(subst(c, pairs) if isz(c) else c, p if isinstance(p, str) else p.subst(pairs)) for c, p in self.pieces], self.isbytes, self.size)

    def lit(self):
        if all(c is True and isinstance(p, str) for c, p in self.pieces):
            return "".join(p for _, p in self.pieces)
        return None

    def conc(self, I_, st):
        """pieces whose condition is decided on this path"""
        out = []
        for c, p in self.pieces:
            if isz(c):
                d = I_.decide(c, st)
                c = c if d is None else d
            out.append((c, p))
        return Text(out, self.isbytes, self.size)

    def isinstance(self, x):
        if isinstance(x, Builtin):
            return x.name == ("bytes" if self.isbytes else "str")
        return False

    def truth(self, I_, st):
        return disj(*[c for c, p in self.pieces if not isinstance(p, StrP)], *[conj(c, lnot(cmp("==", p.s, ""))) for c, p in self.pieces if isinstance(p, StrP)])

    def len(self):
        if self.size is not None:
            return self.size
        n = 0
        for c, p in self.pieces:
            n = add(n, ite(c, plen(p), 0) if c is not True else plen(p))
        return n

    def contains(self, I_, st, x, node):
        if not (isinstance(x, str) and len(x) == 1 and x.isalpha() and x not in "Ee"):
            t = self.conc(I_, st).lit()
            if t is not None and isinstance(x, str):
                return x in t
            I_.unsupported(node, "membership in formatted text")
        r = []
        for c, p in self.pieces:
            if isinstance(p, StrP):
                I_.unsupported(node, "membership in text")
            if isinstance(p, str) and x in p:
                r.append(c)
        return disj(*r)

    def attr(self, I_, st, name, node):
        B = lambda f: Builtin("text." + name, f)
        if name == "encode":
            return B(lambda I_, st, a, k, n: Text(self.pieces, True, self.size))
        if name == "decode":
            return B(lambda I_, st, a, k, n: Text(self.pieces, False, self.size))
        if name == "split":
            def split(I_, st, a, k, n):
                if k or len(a) > 1:
                    I_.unsupported(n, "split")
                if a:
                    return Ref(I_.new(st, ListC(self.split_at(I_, st, a[0], n))))
                return Ref(I_.new(st, ListC(self.tokens(I_, st, n))))
            return B(split)
        if name == "ljust":
            def ljust(I_, st, a, k, n):
                if len(a) != 1 or not isinstance(a[0], int):
                    I_.unsupported(n, "ljust")
                return self.pad(I_, st, a[0], n)
            return B(ljust)
        if name == "index":
            def index(I_, st, a, k, n):
                x = a[0]
                t = self.conc(I_, st)
                if not (len(a) == 1 and isinstance(x, str) and len(x) == 1 and x.isalpha()):
                    I_.unsupported(n, "index")
                hits = [(i, c, p) for i, (c, p) in enumerate(t.pieces) if isinstance(p, str) and x in p]
                if len(hits) != 1 or hits[0][1] is not True or any(isinstance(p, StrP) for _, p in t.pieces):
                    I_.unsupported(n, "index in formatted text")
                i, c, p = hits[0]
                return PosV(t, i, p.index(x))
            return B(index)
        if name == "strip":
            def strip(I_, st, a, k, n):
                if a:
                    I_.unsupported(n, "strip of characters")
                tk = self.tokens(I_, st, n)
                if len(tk) > 1:
                    I_.unsupported(n, "strip")
                return tk[0] if tk else ""
            return B(strip)
        I_.unsupported(node, f"text attribute {name}")

    def pad(self, I_, st, w, node):
        l = self.len()
        if I_.decide(cmp("<=", l, w), st, 5000) is not True:
            I_.unsupported(node, "text may be longer than the padded length")
        return Text(list(self.pieces) + [(True, " ")], self.isbytes, w)

    def split_at(self, I_, st, x, node):
        """split at a letter that occurs exactly once, in a literal piece"""
        t = self.conc(I_, st)
        hits = [(i, c, p) for i, (c, p) in enumerate(t.pieces) if isinstance(p, str) and x in p]
        if not (isinstance(x, str) and len(x) == 1 and x.isalpha() and x not in "Ee") or len(hits) != 1 or hits[0][1] is not True or hits[0][2].count(x) != 1 or any(isinstance(p, StrP) for _, p in t.pieces):
            I_.unsupported(node, "split with a separator")
        i, c, p = hits[0]
        u, v = p.split(x)
        return [Text(list(t.pieces[:i]) + [(True, u)], self.isbytes), Text([(True, v)] + list(t.pieces[i + 1 :]), self.isbytes)]

    def tokens(self, I_, st, node):
        out, cur, sep = [], [], True
        t = self.conc(I_, st)

        def flush():
            nonlocal cur
            if cur:
                x = Text(cur, self.isbytes)
                if I_.decide(x.truth(I_, st), st) is not True:
                    I_.unsupported(node, "token that may be empty")
                out.append(x)
                cur = []

        for c, p in t.pieces:
            if isinstance(p, str):
                if c is not True and (" " in p or "\n" in p):
                    I_.unsupported(node, "conditional separator")
                for part in re.split(r"(\s+)", p):
                    if part == "":
                        continue
                    if part.isspace():
                        flush()
                        sep = True
                    else:
                        cur.append((c, part))
                        sep = False
            else:
                w = re.match(r"[%]?(0?)(\d+)", p.fmt) if isinstance(p, IntP) else None
                padded = w is not None and w.group(1) == "" and int(w.group(2)) > 1
                if padded and cur and not isinstance(p, RealP) and I_.decide(cmp("<", ndigits(p.t), int(w.group(2))), st, 5000) is True:
                    flush()
                if padded and cur:
                    I_.unsupported(node, "padded number next to another piece")
                if cur and any(not isinstance(q, str) for _, q in cur):
                    I_.unsupported(node, "numbers without a separator")
                cur.append((c, p))
                sep = False
        flush()
        return out

    def getitem(self, I_, st, idx, node):
        t = self.conc(I_, st)
        l = t.lit()
        if l is not None:
            r = l[idx] if isinstance(idx, int) else l[slice(idx.lo, idx.hi, idx.step)] if isinstance(idx, SliceV) and all(x is None or isinstance(x, int) for x in (idx.lo, idx.hi, idx.step)) else None
            if r is not None:
                return Text([(True, r)], self.isbytes) if self.isbytes else r
        if isinstance(idx, SliceV) and idx.hi is None and idx.step is None and isinstance(idx.lo, PosV):
            p = idx.lo
            first = p.t.pieces[p.i][1]
            if p.off > len(first):
                I_.unsupported(node, "slice of formatted text")
            return Text([(True, first[p.off :])] + list(p.t.pieces[p.i + 1 :]), self.isbytes)
        I_.unsupported(node, "part of formatted text")

    def to_number(self, I_, st, nm, node):
        t = self.conc(I_, st)
        l = t.lit()
        if l is not None:
            return N.conv(I_, st, nm, [l], {}, node)
        if len(t.pieces) == 1 and t.pieces[0][0] is True:
            p = t.pieces[0][1]
            if isinstance(p, RealP):
                if nm == "float":
                    return printed_value(p)
            elif isinstance(p, IntP):
                return p.t if nm == "int" else to_real(p.t)
        I_.unsupported(node, f"{nm}() of formatted text")

    def binop(self, I_, st, op, b, node):
        if isinstance(op, ast.Add):
            x = as_text(b)
            if x is not None:
                return Text(self.pieces + x.pieces, self.isbytes)
        I_.unsupported(node, "operator on text")

    def compare(self, I_, st, o, a, b, node):
        x, y = as_text(a), as_text(b)
        if o not in ("==", "!=") or x is None or y is None:
            I_.unsupported(node, "comparison of text")
        x, y = x.conc(I_, st), y.conc(I_, st)
        p, q = x.lit(), y.lit()
        if p is not None and q is not None:
            return (p == q) == (o == "==")
        r = text_eq(x, y)
        if r is None:
            I_.unsupported(node, "comparison of formatted text")
        return r if o == "==" else lnot(r)


def printed_value(p):
    m = re.search(r"\.(\d+)[eE]", p.fmt)
    if m is None:
        raise Unsupported("printed real")
    return round_fn(int(m.group(1)) + 1)(to_z(to_real(p.t)))


def plen(p):
    if isinstance(p, str):
        return len(p)
    if isinstance(p, RealP):
        m = re.match(r"%?(\d*)\.(\d+)[eE]$", p.fmt)
        if not m:
            raise Unsupported("length of printed real")
        return LEN_REAL(int(m.group(1) or 0) * 100 + int(m.group(2)), to_z(to_real(p.t)))
    if isinstance(p, IntP):
        m = re.match(r"%?(0?)(\d*)[di]?$", p.fmt)
        if not m:
            raise Unsupported("length of printed integer")
        w = int(m.group(2) or 0)
        d = ndigits(p.t)
        return ite(cmp("<", d, w), w, d)
    raise Unsupported("length of a string")


def text_eq(x, y):
    """sufficient and, for the formats used, necessary condition of equality, or None"""
    if len(x.pieces) != len(y.pieces):
        return None
    cs = []
    for (c, p), (d, q) in zip(x.pieces, y.pieces):
        if type(p) is not type(q):
            return None
        cs.append(cmp("==", c, d) if isz(c) or isz(d) else c == d)
        if isinstance(p, str):
            if p != q:
                return None
        elif isinstance(p, StrP):
            cs.append(disj(lnot(c), cmp("==", p.s, q.s)))
        else:
            if p.fmt != q.fmt:
                return None
            cs.append(disj(lnot(c), cmp("==", p.t, q.t)))
    return conj(*cs)


def as_text(v):
    if isinstance(v, Text):
        return v
    if isinstance(v, str):
        return Text([(True, v)])
    if isinstance(v, Str):
        t = v.t
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
            a, b = as_text(str_of(t.arg(1))), as_text(str_of(t.arg(2)))
            return cond_text(unval(t.arg(0)), a, b)
        return Text([(True, StrP(v))])
    return None


def str_of(t):
    if z3.is_int_value(t):
        return terms._rintern[t.as_long()]
    return Str(t)


def same_piece(x, y):
    (c, p), (d, q) = x, y
    same = lambda u, v: u.eq(v) if isz(u) and isz(v) else not isz(u) and not isz(v) and u == v
    if type(p) is not type(q) or not same(c, d):
        return False
    if isinstance(p, str):
        return p == q
    if isinstance(p, StrP):
        return isinstance(p.s, Str) and isinstance(q.s, Str) and same(p.s.t, q.s.t)
    return p.fmt == q.fmt and same(p.t, q.t)


def cond_text(c, a, b):
    """text a if c else b, when one of them is empty"""
    a, b = as_text(a), as_text(b)
    if a is None or b is None or a.isbytes != b.isbytes:
        return None
    if not b.pieces:
        return Text([(conj(c, d), p) for d, p in a.pieces], a.isbytes)
    if not a.pieces:
        return Text([(conj(lnot(c), d), p) for d, p in b.pieces], a.isbytes)
    e = text_eq(a, b)
    if e is True:
        return a
    n = 0
    while n < min(len(a.pieces), len(b.pieces)) and same_piece(a.pieces[n], b.pieces[n]):
        n += 1
    if n:
        r = cond_text(c, Text(a.pieces[n:], a.isbytes), Text(b.pieces[n:], a.isbytes))
        return None if r is None else Text(a.pieces[:n] + r.pieces, a.isbytes)
    if len(a.pieces) == len(b.pieces):
        ps = []
        for (x, p), (y, q) in zip(a.pieces, b.pieces):
            if type(p) is not type(q):
                break
            if isinstance(p, str):
                if p != q:
                    break
                ps.append((ite(c, x, y), p))
            elif isinstance(p, StrP) or p.fmt != q.fmt:
                break
            else:
                ps.append((ite(c, x, y), type(p)(p.fmt, ite(c, p.t, q.t))))
        else:
            return Text(ps, a.isbytes)
    return Text([(conj(c, d), p) for d, p in a.pieces] + [(conj(lnot(c), d), p) for d, p in b.pieces], a.isbytes)


PAD = z3.Function("padded_with_spaces", I, I, I)
FIRST = z3.Function("first_byte", I, I)
FIXED = z3.Function("filled_with_NUL", I, I, I)
STRIP = z3.Function("without_trailing_blanks", I, I)


class ByteStr:
    """bytes of a text (ASCII is assumed: one byte per character)"""

    isbytes = True

    def __init__(self, s):
        self.s = s

    def subst(self, pairs):
        return ByteStr(subst(self.s, pairs))

    def cell(self, w):
        """value of a bytes cell of width w (which must be large enough; numpy does not distinguish trailing NULs)"""
        return self.s

    def attr(self, I_, st, name, node):
        if name == "ljust":
            def ljust(I_, st, a, k, n):
                if len(a) != 1 or k or not isinstance(a[0], int):
                    I_.unsupported(n, "ljust")
                return ByteStr(str_fn(PAD, self.s, a[0]))
            return Builtin(name, ljust)
        if name == "decode":
            return Builtin(name, lambda I_, st, a, k, n: self.s)
        I_.unsupported(node, f"bytes attribute {name}")


def str_fn(f, s, *args):
    """text function with the identities that hold for texts without trailing blanks that fit their field"""
    if isinstance(s, str):
        b = s
        if f.eq(PAD):
            return s.ljust(args[0])
        if f.eq(STRIP):
            return s.rstrip()
        if f.eq(FIRST):
            return s[:1] or "\0"
        if f.eq(FIXED) and len(s) == args[0]:
            return s
    t = terms.str_term(s)
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
        return ite(unval(t.arg(0)), str_fn(f, str_of(t.arg(1)), *args), str_fn(f, str_of(t.arg(2)), *args))
    if z3.is_app(t) and t.decl().eq(PAD):
        if f.eq(STRIP):
            return str_of(t.arg(0))
        if f.eq(FIXED) and t.arg(1).as_long() == args[0]:
            return Str(t)
    return Str(f(t, *[z3.IntVal(x) for x in args]))


class PosV:
    """position of a character in a text"""

    def __init__(self, t, i, off):
        self.t, self.i, self.off = t, i, off

    def binop(self, I_, st, op, b, node):
        if isinstance(op, ast.Add) and isinstance(b, int):
            return PosV(self.t, self.i, self.off + b)
        I_.unsupported(node, "operator on a text position")


FORMAT = re.compile(r"%([-+ #0]*)(\d*)(?:\.(\d+))?([disEeGgf%])")


def percent(I_, st, fmt, args, node):
    """fmt % args"""
    args = list(args) if isinstance(args, tuple) else [args]
    out, pos = [], 0
    for m in FORMAT.finditer(fmt):
        out.append((True, fmt[pos : m.start()]))
        pos = m.end()
        fl, w, pr, ty = m.groups()
        if ty == "%":
            out.append((True, "%"))
            continue
        if not args:
            I_.unsupported(node, "too few format arguments")
        v = args.pop(0)
        if isinstance(v, (int, str)) and not isinstance(v, bool) or (isinstance(v, Fraction) and ty in "di"):
            if isinstance(v, str) and ty != "s":
                I_.unsupported(node, "format")
            out.append((True, m.group(0) % (int(v) if isinstance(v, Fraction) else v)))
        elif ty in "di" and is_int_t(v) and not is_bool_t(v):
            if fl not in ("", "0"):
                I_.unsupported(node, "format flags")
            out.append((True, IntP(f"%{fl}{w}d", v)))
        elif ty in "Ee" and is_scalar(v) and not is_bool_t(v):
            if fl:
                I_.unsupported(node, "format flags")
            out.append((True, RealP(f"%{w}.{pr or 6}{ty}", v)))
        elif ty == "s" and as_text(v) is not None and not w and not pr and not fl:
            out += list(as_text(v).pieces)
        else:
            return Opaque("formatted text")
    out.append((True, fmt[pos:]))
    if "%" in FORMAT.sub("", fmt) or args:
        I_.unsupported(node, "format string")
    t = Text(out)
    l = t.lit()
    return l if l is not None else t


def format_piece(v, spec):
    """piece of an f-string, or None"""
    if is_int_t(v) and not isinstance(v, bool):
        m = re.match(r"(0?\d*)d?$", spec)
        if m:
            return [(True, IntP(f"%{m.group(1)}d", v))]
    if is_real_t(v):
        m = re.match(r"(\d*\.\d+)([eE])$", spec)
        if m:
            return [(True, RealP(f"%{m.group(1)}{m.group(2)}", v))]
    m = re.fullmatch(r"([<>]?)(\d+)s", spec)
    if m and isinstance(v, Str):
        from lines import PadP

        return [(True, PadP(v, int(m.group(2)), m.group(1) == ">"))]
    t = as_text(v)
    if t is not None and re.fullmatch(r"s?", spec):
        return list(t.pieces)
    return None


# ------------------------------------------------------------------ struct, frombuffer
class RepStr:
    """literal followed by n copies of a character"""

    def __init__(self, pre, ch, n):
        self.pre, self.ch, self.n = pre, ch, n

    def rbinop(self, I_, st, op, a, node):
        if isinstance(op, ast.Add) and isinstance(a, str):
            return RepStr(a + self.pre, self.ch, self.n)
        I_.unsupported(node, "operator on repeated text")

    binop = None


def struct_format(I_, fmt, st):
    """a format built with a number ("<%di") as a repeated character"""
    if isinstance(fmt, Text):
        fmt = fmt.conc(I_, st)
        l = fmt.lit()
        if l is not None:
            return l
        ps = fmt.pieces
        if len(ps) == 3 and all(c is True for c, _ in ps) and isinstance(ps[0][1], str) and isinstance(ps[1][1], IntP) and not isinstance(ps[1][1], RealP) and isinstance(ps[2][1], str) and len(ps[2][1]) == 1:
            return RepStr(ps[0][1], ps[2][1], ps[1][1].t)
    return fmt


@N.mod("struct.calcsize")
def _(I_, st, a, k, n):
    fmt = struct_format(I_, a[0], st)
    if isinstance(fmt, RepStr) and fmt.pre in ("<", ">") and fmt.ch in CODES:
        return mul(SIZES[CODES[fmt.ch]], fmt.n)
    if isinstance(fmt, str) and re.fullmatch(r"[<>=](\d*[fdiq])+", fmt):
        return sum(int(c or 1) * SIZES[CODES[t]] for c, t in re.findall(r"(\d*)([fdiq])", fmt[1:]))
    I_.unsupported(n, "struct format")


@N.mod("struct.pack")
def _(I_, st, a, k, n):
    fmt = struct_format(I_, a[0], st)
    if not isinstance(fmt, str) or not re.fullmatch(r"[<>=](\d*[fdiq])+", fmt):
        I_.unsupported(n, "struct format")
    ts = [t for c, t in re.findall(r"(\d*)([fdiq])", fmt[1:]) for _ in range(int(c or 1))]
    if len(ts) != len(a) - 1:
        I_.unsupported(n, "number of values to pack")
    out = []
    for t, v in zip(ts, a[1:]):
        d = CODES[t]
        if not is_scalar(v) or d[0] == "i" and not is_int_t(v):
            I_.unsupported(n, "value to pack")
        v = cast(v, d)
        out.append(Seg("num", None, fmt[0].replace("=", "<") + d, (), lambda *i, v=v: v))
    return NumBytes(*out)


@N.mod("struct.unpack_from")
def _(I_, st, a, k, n):
    args = dict(zip(("format", "buffer", "offset"), a))
    args.update(k)
    b, off = args["buffer"], args.get("offset", 0)
    if not isinstance(b, BytesVal) or not is_int_t(off):
        I_.unsupported(n, "struct.unpack_from")
    size = N.MODS["struct.calcsize"](I_, st, [args["format"]], {}, n)
    I_.oblige("struct.unpack_from: the buffer is large enough: " + I_.loc(n), st, conj(cmp(">=", off, 0), cmp("<=", add(off, size), b.n)), "size")
    return N.MODS["struct.unpack"](I_, st, [args["format"], BytesVal(b.src, add(b.pos, off), size)], {}, n)


@N.mod("struct.unpack")
def _(I_, st, a, k, n):
    fmt, b = a
    fmt = struct_format(I_, fmt, st)
    if not isinstance(b, BytesVal):
        I_.unsupported(n, "struct.unpack")
    if isinstance(fmt, RepStr):
        if fmt.pre not in ("<", ">") or fmt.ch not in CODES:
            I_.unsupported(n, "struct format")
        dt = fmt.pre + CODES[fmt.ch]
        w = SIZES[dt[1:]]
        I_.oblige("struct.unpack: the buffer has the size of the format: " + I_.loc(n), st, cmp("==", b.n, mul(w, fmt.n)), "size")
        return Ref(I_.new(st, SListC(fmt.n, Fn(lambda i: b.src.num(dt, add(b.pos, mul(w, i)))))))
    if not isinstance(fmt, str) or not re.fullmatch(r"[<>](\d*[fdiq])+", fmt):
        I_.unsupported(n, "struct format")
    out, off = [], 0
    for c, t in re.findall(r"(\d*)([fdiq])", fmt[1:]):
        for _ in range(int(c or 1)):
            out.append(b.src.num(fmt[0] + CODES[t], add(b.pos, off)))
            off += SIZES[CODES[t]]
    I_.oblige("struct.unpack: the buffer has the size of the format: " + I_.loc(n), st, cmp("==", b.n, off), "size")
    return tuple(out)


def file_dtype(I_, v, node):
    """('<f4', 'f4')"""
    if isinstance(v, N.DType) and isinstance(v.d, str) and v.d in SIZES:
        return "<" + v.d, v.d
    if isinstance(v, str):
        e, c = (v[0], v[1:]) if v[0] in "<>=" else ("<", v)
        if c in CODES:
            return ("<" if e == "=" else e) + CODES[c], CODES[c]
    I_.unsupported(node, "data type of a file")


@N.mod("numpy.frombuffer")
def _(I_, st, a, k, n):
    b = a[0]
    if not isinstance(b, BytesVal):
        I_.unsupported(n, "frombuffer")
    args = dict(zip(("dtype", "count", "offset"), a[1:]))
    args.update(k)
    dt, d = file_dtype(I_, args.get("dtype", "d"), n)
    w = SIZES[d]
    off = args.get("offset", 0)
    cnt = args.get("count", -1)
    if isinstance(cnt, int) and cnt == -1:
        q, r = _idivmod(I_, sub(b.n, off), w)
        cnt = q
    I_.oblige("frombuffer: the buffer is large enough: " + I_.loc(n), st, cmp("<=", add(off, mul(w, cnt)), b.n), "size")
    p0 = add(b.pos, off)
    r = N.new_array(I_, st, (cnt,), d, lambda i: b.src.num(dt, add(p0, mul(w, i))))
    st.heap[r.base].prov = (b.src, p0, w)
    return r


@N.mod("numpy.fromfile")
def _(I_, st, a, k, n):
    args = dict(zip(("dtype", "count"), a[1:]))
    args.update(k)
    f = a[0]
    if not isinstance(f, Ref):
        I_.unsupported(n, "fromfile")
    dt, d = file_dtype(I_, args.get("dtype", "d"), n)
    cnt = args["count"]
    b = fread(I_, st, f, [mul(SIZES[d], cnt)], n)
    return N.new_array(I_, st, (cnt,), d, lambda i: b.src.num(dt, add(b.pos, mul(SIZES[d], i))))


def _idivmod(I_, a, b):
    from interp import idivmod

    return idivmod(I_, a, b, I_.gstate())


# ------------------------------------------------------------------ written files
class Seg:
    """n numbers of one type; fn: flat index -> value; or a text"""

    def __init__(self, kind, n, dt=None, shape=None, fn=None, text=None):
        self.kind, self.n, self.dt, self.shape, self.fn, self.text = kind, n, dt, shape, fn, text

    def size(self):
        if self.kind == "text":
            return self.n
        if self.kind == "num":
            return mul(dtsize(self.dt), N.prod_terms(self.shape))
        s = 0
        for p in self.fn:
            s = add(s, p.size())
        return mul(N.prod_terms(self.n), s)


class SegC:
    """pieces written to a file"""

    loop_changed = True

    def __init__(self, parts):
        self.parts = tuple(parts)

    def merge(self, I_, c, o):
        if len(self.parts) != len(o.parts):
            return Poison("number of pieces written depends on the path")
        out = []
        for p, q in zip(self.parts, o.parts):
            if p is q:
                out.append(p)
            elif p.kind == q.kind == "num" and p.dt == q.dt and len(p.shape) == len(q.shape):
                out.append(Seg("num", None, p.dt, tuple(ite(c, x, y) for x, y in zip(p.shape, q.shape)), lambda *i, p=p, q=q: ite(c, p.fn(*i), q.fn(*i))))
            else:
                return Poison("kind of a piece written depends on the path")
        return SegC(out)

    def loop_enter(self, I_, s0, digits, lead):
        return SegC(()), None

    def loop_exit(self, I_, node, out, e, c, token, digits, lead, rng, close, mark):
        if not isinstance(c, SegC):
            I_.unsupported(node, c.why if isinstance(c, Poison) else "file")

        def cl(p):
            if p.kind == "text":
                return p
            if p.kind == "num":
                return Seg("num", None, p.dt, tuple(close(x) for x in p.shape), lambda *i, p=p: close(p.fn(*i)))
            return Seg("fam", tuple(close(x) for x in p.n), None, p.shape, tuple(cl(q) for q in p.fn))

        if not c.parts:
            return self
        return SegC(self.parts + (Seg("fam", tuple(lead), None, tuple(digits), tuple(cl(p) for p in c.parts)),))


def segs(st, obj):
    r = fattr(st, obj, "%segs")
    if r is None:
        raise Unsupported("write to a file that is read")
    c = st.heap[r.oid]
    if isinstance(c, Poison):
        raise Unsupported(c.why)
    return r, c


def emit(I_, st, obj, seg):
    r, c = segs(st, obj)
    st.heap[r.oid] = SegC(c.parts + (seg,))


def fwrite(I_, st, obj, a, n):
    v = a[0]
    if isinstance(v, Text) and v.isbytes:
        emit(I_, st, obj, Seg("text", v.len(), text=v))
    elif isinstance(v, bytes):
        emit(I_, st, obj, Seg("text", len(v), text=Text([(True, v.decode("latin-1"))], True)))
    elif isinstance(v, NumBytes):
        for g in v.segs:
            emit(I_, st, obj, g)
    else:
        I_.unsupported(n, "write")


class NumBytes:
    isbytes = True

    def __init__(self, *segs):
        self.segs = segs

    def binop(self, I_, st, op, b, node):
        if isinstance(op, ast.Add) and isinstance(b, NumBytes):
            return NumBytes(*self.segs, *b.segs)
        I_.unsupported(node, "operator on bytes")


def swapped(dt):
    e = {"<": ">", ">": "<"}[dt[0]]
    return (e, dt[1]) if isinstance(dt, tuple) else e + dt[1:]


class Swapped:
    """array (or scalar) whose bytes were swapped"""

    def __init__(self, shape, dt, fn):
        self.shape, self.dt, self.fn = shape, dt, fn

    def attr(self, I_, st, name, node):
        if name == "tofile":
            return Builtin("tofile", lambda I_, st, a, k, n: emit(I_, st, a[0], Seg("num", None, self.dt, self.shape, self.fn)))
        if name == "tobytes":
            return Builtin("tobytes", lambda I_, st, a, k, n: NumBytes(Seg("num", None, self.dt, self.shape, self.fn)))
        if name == "byteswap":
            return Builtin("byteswap", lambda I_, st, a, k, n: Swapped(self.shape, swapped(self.dt), self.fn))
        I_.unsupported(node, f"attribute {name} of a byte-swapped array")

    def subst(self, pairs):
        raise Unsupported("byte-swapped array escapes a loop")


def array_io(I_, obj, name, st, node):
    """attributes of arrays that have to do with files"""
    if name in ("tofile", "tobytes", "byteswap"):
        f, dt = N.snapshot(I_, st, obj)
        prov = getattr(N.base_content(I_, st, obj)[2], "prov", None)
        if prov is not None and name == "tobytes" and len(obj.sel) == 1:
            s = obj.sel[0]
            if s[0] == "v" and s[3] == 1:
                src, p0, w = prov
                return Builtin(name, lambda I_, st, a, k, n: BytesVal(src, add(p0, mul(w, s[2])), mul(w, obj.shape[0])))
        if dt_is_struct(dt):
            if len(obj.shape) != 1 or any(c not in SIZES and not re.fullmatch(r"s\d+", c) for c in dt[1]):
                I_.unsupported(node, f"{name} of records")
            dt = ("<", dt[1])
        elif dt not in SIZES:
            I_.unsupported(node, f"{name} of type {dt}")
        else:
            dt = "<" + dt
        w = Swapped(tuple(obj.shape), dt, f)
        if name == "byteswap":
            return Builtin(name, lambda I_, st, a, k, n: Swapped(w.shape, swapped(w.dt), f))
        return w.attr(I_, st, name, node)
    return None


class Sink:
    """file whose content is not recorded"""

    def attr(self, I_, st, name, node):
        if name in ("write", "flush", "close", "__exit__", "writelines"):
            return Builtin(name, lambda I_, st, a, k, n: None)
        if name == "__enter__":
            return Builtin(name, lambda I_, st, a, k, n: self)
        I_.unsupported(node, f"attribute {name} of a text file")

    def subst(self, pairs):
        return self


class Scal:
    """numpy scalar of known type"""

    def __init__(self, v, dt):
        self.v, self.dt = v, dt

    def subst(self, pairs):
        return Scal(subst(self.v, pairs), self.dt)

    def attr(self, I_, st, name, node):
        w = Swapped((), "<" + self.dt, lambda *i: self.v)
        if name == "byteswap":
            return Builtin(name, lambda I_, st, a, k, n: Swapped((), swapped(w.dt), w.fn))
        return w.attr(I_, st, name, node)


# ------------------------------------------------------------------ open
@N.native("open")
def _(I_, st, a, k, n):
    mode = k.get("mode", a[1] if len(a) > 1 else "r")
    h = getattr(I_, "open_hook", None)
    if h is None:
        I_.unsupported(n, "open")
    r = h(I_, st, a[0], mode)
    if r is None:
        I_.unsupported(n, f"open in mode {mode}")
    return r


class PathV:
    def __init__(self, p):
        self.p = p

    def attr(self, I_, st, name, node):
        if name == "open":
            return Builtin("open", lambda I_, st, a, k, n: N.BUILTINS["open"](I_, st, [self.p] + list(a), k, n))
        I_.unsupported(node, f"Path.{name}")

    def isinstance(self, x):
        return getattr(x, "name", getattr(x, "what", "")) in ("os.PathLike", "pathlib.Path")


@N.mod("pathlib.Path")
def _(I_, st, a, k, n):
    return PathV(a[0])
