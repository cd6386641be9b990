"""Text files as sequences of lines. A written file is a list of segments: literal lines, families (the same lines for
every iteration of a loop) and selections (the lines of the iterations that satisfy a condition)."""
import ast
import re

import files
import loops
import npmodel as N
from files import IntP, PosV, RealP, StrP, Text, ndigits, plen, printed_value
from heap import *
from interp import Builtin, IterV, Out, SliceV, idivmod
from terms import *


class PadP(StrP):
    """a text filled with blanks to a width (precondition: it is not longer, and has no blanks at its ends)"""

    def __init__(self, s, width, right):
        self.s, self.width, self.right = s, width, right

    def subst(self, pairs):
        return PadP(subst(self.s, pairs), self.width, self.right)


def width(I_, st, p, node):
    """columns of a piece; that a number fits its columns is an obligation"""
    if isinstance(p, str):
        return len(p)
    if isinstance(p, PadP):
        return p.width
    if isinstance(p, RealP):
        m = re.match(r"%(\d+)\.(\d+)[eE]$", p.fmt)
        # sign, digit, point, digits, exponent of two digits (precondition)
        if m and int(m.group(2)) + 7 <= int(m.group(1)):
            return int(m.group(1))
    elif isinstance(p, IntP):
        m = re.match(r"%(\d+)d$", p.fmt)
        if m:
            w = int(m.group(1))
            fits = conj(cmp("<", p.t, 10**w), cmp(">", p.t, -(10 ** (w - 1))))
            if not sure(I_, st, fits):
                I_.oblige("a number fits its columns: " + I_.loc(node), st, fits)
            return w
    I_.unsupported(node, "width of a formatted value")


class Line(Text):
    def subst(self, pairs):
        t = Text.subst(self, pairs)
        return Line(t.pieces)

    def conc(self, I_, st):
        return Line(Text.conc(self, I_, st).pieces)

    def getitem(self, I_, st, idx, node):
        t = self.conc(I_, st)
        l = t.lit()
        if l is not None:
            return Text.getitem(self, I_, st, idx, node)
        if not isinstance(idx, SliceV) or idx.step is not None or any(x is not None and (not isinstance(x, int) or x < 0) for x in (idx.lo, idx.hi)):
            I_.unsupported(node, "part of a formatted line")
        lo, hi = idx.lo or 0, idx.hi
        out, at = [], 0
        for c, p in t.pieces:
            if c is not True:
                I_.unsupported(node, "conditional part of a line")
            if hi is not None and at >= hi:
                break
            w = width(I_, st, p, node)
            a, b = max(lo - at, 0), w if hi is None else min(hi - at, w)
            if a < b:
                if isinstance(p, str):
                    out.append((True, p[a:b]))
                elif a == 0 and b == w:
                    out.append((True, p))
                else:
                    I_.unsupported(node, "part of the columns of a value")
            at += w
        r = Line(out)
        return r if r.lit() is None else r.lit()

    def attr(self, I_, st, name, node):
        B = lambda f: Builtin("text." + name, f)
        if name == "split":
            def split(I_, st, a, k, n):
                if a or k:
                    I_.unsupported(n, "split of a line at a separator")
                return Tokens(self)
            return B(split)
        if name in ("strip", "rstrip", "lstrip"):
            def strip(I_, st, a, k, n):
                if a or k:
                    I_.unsupported(n, "strip of characters")
                t = self.conc(I_, st)
                ps = [(c, p) for c, p in t.pieces if not (isinstance(p, str) and p.isspace())]
                if len(ps) == 1 and ps[0][0] is True and isinstance(ps[0][1], PadP):
                    p = ps[0][1]
                    i = t.pieces.index(ps[0])
                    if name == "strip" or (name == "rstrip" and i == 0 and not p.right) or (name == "lstrip" and i == len(t.pieces) - 1 and p.right):
                        return p.s
                I_.unsupported(n, name + " of a line")
            return B(strip)
        return Text.attr(self, I_, st, name, node)

    def tokens(self, I_, st, node):
        t = self.conc(I_, st)
        out, cur = [], []

        def flush():
            if cur:
                if len(cur) == 1 and isinstance(cur[0], PadP):
                    out.append(cur[0].s)
                elif all(isinstance(x, str) for x in cur):
                    out.append("".join(cur))
                else:
                    out.append(Line([(True, x) for x in cur]))
                del cur[:]

        def apart(x, y):
            """x and y are separated by a blank"""
            if isinstance(y, RealP):
                m = re.match(r"%(\d+)\.(\d+)[eE]$", y.fmt)
                return m is not None and int(m.group(2)) + 7 < int(m.group(1))
            if isinstance(y, IntP):
                m = re.match(r"%(\d+)d$", y.fmt)
                w = int(m.group(1)) if m else 0
                return w > 1 and sure(I_, st, conj(cmp("<", y.t, 10 ** (w - 1)), cmp(">", y.t, -(10 ** (w - 2)))))
            return False

        for c, p in t.pieces:
            if c is not True:
                I_.unsupported(node, "conditional part of a line")
            if isinstance(p, str):
                for part in re.split(r"(\s+)", p):
                    if part.isspace():
                        flush()
                    elif part:
                        if cur and not isinstance(cur[-1], str) and isinstance(cur[-1], PadP):
                            I_.unsupported(node, "texts without a separator")
                        cur.append(part)
                continue
            if cur and apart(cur[-1], p):
                flush()
            if cur and (isinstance(p, PadP) or not isinstance(cur[-1], str)):
                I_.unsupported(node, "values without a separator")
            if cur and isinstance(p, IntP) and re.match(r"%0*[2-9]|%\d\d", p.fmt):
                I_.unsupported(node, "padded number next to another piece")
            if isinstance(p, PadP) and I_.decide(lnot(cmp("==", p.s, "")), st, 5000) is not True:
                I_.unsupported(node, "token that may be empty")
            if isinstance(p, StrP) and not isinstance(p, PadP):
                I_.unsupported(node, "text of unknown length")
            cur.append(p)
        flush()
        return out

    def may_contain(self, word):
        """may the word (letters only, none of them e) occur in the line? numbers consist of digits, signs, points and e"""
        run, best = [], []
        for c, p in self.pieces:
            if isinstance(p, IntP):
                best.append(run)
                run = []
            else:
                run.append(p)
        best.append(run)
        for r in best:
            if all(isinstance(p, str) for p in r):
                if word in "".join(r):
                    return True
            elif any(not isinstance(p, (str, PadP)) for p in r) or sum(len(p) if isinstance(p, str) else p.width for p in r) >= len(word):
                return True
        return False


class Tokens:
    """line.split(), evaluated when it is used"""

    def __init__(self, line, sl=None):
        self.line, self.sl = line, sl

    def subst(self, pairs):
        return Tokens(self.line.subst(pairs), self.sl)

    def get(self, I_, st, node):
        t = self.line.tokens(I_, st, node)
        return t if self.sl is None else t[self.sl]

    def len(self):
        raise Unsupported("number of words of a line")

    def getitem(self, I_, st, idx, node):
        if isinstance(idx, SliceV):
            if self.sl is not None or any(x is not None and not isinstance(x, int) for x in (idx.lo, idx.hi, idx.step)):
                I_.unsupported(node, "words of a line")
            return Tokens(self.line, slice(idx.lo, idx.hi, idx.step))
        t = self.get(I_, st, node)
        if not isinstance(idx, int):
            I_.unsupported(node, "words of a line")
        if not -len(t) <= idx < len(t):
            I_.oblige("index in bounds: " + I_.loc(node), st, False)
            I_.unsupported(node, "too few words in a line")
        return t[idx]

    def contains(self, I_, st, x, node):
        if isinstance(x, str) and x.isalpha() and "e" not in x and not self.line.conc(I_, st).may_contain(x):
            return False
        return disj(*[I_.compare("==", t, x, st, node) if not isinstance(t, str) else t == x for t in self.get(I_, st, node)])

    def truth(self, I_, st):
        raise Unsupported("number of words of a line")


def sure(I_, st, c):
    """does c follow from the facts without quantifiers?"""
    c = unval(c) if isz(c) else c
    if isinstance(c, bool):
        return c
    return z3_check([f for f in I_.all_facts(st, c) if not has_quantifier(f)] + [z3.Not(c)], 3000)[0] == z3.unsat


_quant = {}


def has_quantifier(f):
    k = f.get_id()
    if k not in _quant:
        todo, seen, r = [f], set(), False
        while todo:
            x = todo.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_quantifier(x) and not x.is_lambda():
                r = True
                break
            todo += x.children()
        _quant[k] = (r, f)
    return _quant[k][0]


# ------------------------------------------------------------------ content
class Lit:
    def __init__(self, ls):
        self.ls = tuple(ls)
        self.n = len(self.ls)

    def at(self, I_, st, i, node):
        if not isinstance(i, int):
            for j in range(self.n):
                if sure(I_, st, cmp("==", i, j)):
                    return self.ls[j]
            I_.unsupported(node, "line of unknown number")
        return self.ls[i]

    def sequence(self):
        return list(self.ls)


class Fam:
    """for every value of the digit in 0..cnt-1: the lines ls"""

    def __init__(self, digit, cnt, ls):
        self.digit, self.cnt, self.ls = digit, cnt, tuple(ls)
        self.n = mul(cnt, len(self.ls))

    def get(self, q, r):
        return self.ls[r].subst([(self.digit, to_z(q))])

    def at(self, I_, st, i, node):
        q, r = idivmod(I_, i, len(self.ls), st)
        if not isinstance(r, int):
            I_.unsupported(node, "line of unknown number")
        return self.get(q, r)

    def sequence(self):
        return IterV([self.cnt, len(self.ls)], lambda d: self.get(d[0], d[1]))


class Sel:
    def __init__(self, n, get):
        self.n, self.get = n, get

    def at(self, I_, st, i, node):
        return self.get(i)

    def sequence(self):
        return IterV([self.n], lambda d: self.get(d[0]))


class LinesC:
    """lines written to a file; tail: the line that is being written"""

    loop_changed = True

    def __init__(self, parts=(), tail=()):
        self.parts, self.tail = tuple(parts), tuple(tail)

    def merge(self, I_, c, o):
        if self.tail or o.tail:
            return Poison("part of a line is written on some paths")
        n = 0
        while n < min(len(self.parts), len(o.parts)) and self.parts[n] is o.parts[n]:
            n += 1
        a, b = self.parts[n:], o.parts[n:]
        if not all(isinstance(x, tuple) for x in a + b):
            return Poison("lines written on some paths")
        if len(a) == len(b) and len(a):
            ts = [files.cond_text(c, x, y) if p is True and q is True else None for (p, x), (q, y) in zip(a, b)]
            if all(t is not None and len(t.pieces) == len(x.pieces) for t, (_, x) in zip(ts, a)):
                return LinesC(self.parts[:n] + tuple((True, Line(t.pieces)) for t in ts))
        return LinesC(self.parts[:n] + tuple((conj(c, p), x) for p, x in a) + tuple((conj(lnot(c), p), x) for p, x in b))

    def loop_enter(self, I_, s0, digits, lead):
        return LinesC(), None

    def loop_exit(self, I_, node, out, e, c, token, digits, lead, rng, close, mark):
        if not isinstance(c, LinesC):
            I_.unsupported(node, c.why if isinstance(c, Poison) else "file")
        if c.tail or self.tail or len(digits) != 1 or not all(isinstance(x, tuple) for x in c.parts):
            I_.unsupported(node, "lines written in a loop")
        if not c.parts:
            return self
        cl = lambda t: Line([(close(q) if isz(q) else q, p if isinstance(p, str) else close_piece(p, close)) for q, p in t.pieces])
        if all(p is True for p, _ in c.parts):
            return LinesC(self.parts + (Fam(digits[0], lead[0], [cl(x) for _, x in c.parts]),))
        parts = numbers([t for _, t in c.parts])
        c = LinesC([(p, t) for (p, _), t in zip(c.parts, parts)])
        shape = lambda t: [(c, p) if isinstance(p, str) else (c, type(p), getattr(p, "fmt", None), getattr(p, "width", None)) for c, p in t.pieces]
        first = c.parts[0][1]
        if any(shape(t) != shape(first) for _, t in c.parts) or any(q is not True for q, _ in first.pieces):
            I_.unsupported(node, "lines of different kinds written on some paths")
        terms_of = lambda t: tuple(p.s if isinstance(p, StrP) else p.t for _, p in t.pieces if not isinstance(p, str))
        acc = loops.AccListC(ListC([]), [("c", p, terms_of(t)) if p is not True else ("v", terms_of(t)) for p, t in c.parts])
        sl = loops.filtered_list(I_, node, out, acc, digits, lead, close)

        def get(i):
            xs, ps = list(sl.get(i)), []
            for q, p in first.pieces:
                if isinstance(p, str):
                    ps.append((q, p))
                elif isinstance(p, PadP):
                    ps.append((q, PadP(xs.pop(0), p.width, p.right)))
                else:
                    ps.append((q, type(p)(p.fmt, xs.pop(0))))
            return Line(ps)

        # the number of lines: the sum of the conditions
        n = sl.n
        for f in out.pc:
            if isz(f) and z3.is_eq(f) and isz(n) and f.arg(0).eq(n):
                n = canonical_sum(f.arg(1))
                break
        return LinesC(self.parts + (Sel(n, get),))

    def segments(self):
        if self.tail:
            raise Unsupported("last line without an end")
        out, cur = [], []
        for p in self.parts:
            if isinstance(p, tuple):
                if p[0] is not True:
                    raise Unsupported("line that is written on some paths")
                cur.append(p[1])
                continue
            if cur:
                out.append(Lit(cur))
                cur = []
            out.append(p)
        if cur:
            out.append(Lit(cur))
        return out


def close_piece(p, close):
    if isinstance(p, PadP):
        return PadP(close(p.s), p.width, p.right)
    if isinstance(p, StrP):
        return StrP(close(p.s))
    return type(p)(p.fmt, close(p.t))


def canonical_sum(t):
    """a sum over a range with its summand in the normal form of z3's simplifier"""
    lam, n = t.arg(0), t.arg(1)
    j = z3.Int("red!0")
    body = z3.simplify(z3.substitute_vars(lam.body(), j), sort_sums=True)
    return t.decl()(z3.Lambda([j], body), n)


def numbers(ts):
    """lines whose literals differ by a right-justified number only: the number as a value"""
    if len({len(t.pieces) for t in ts}) != 1:
        return ts
    cols = list(zip(*[t.pieces for t in ts]))
    for j, col in enumerate(cols):
        ls = [p for _, p in col]
        if all(isinstance(p, str) for p in ls) and len(set(ls)) > 1 and len({len(p) for p in ls}) == 1 and all(re.fullmatch(r" *\d+", p) for p in ls):
            cols[j] = [(c, IntP(f"%{len(p)}d", int(p))) for c, p in col]
    return [Line(ps) for ps in zip(*cols)]


class PosC:
    """number of the next line that is read"""

    loop_changed = True

    def __init__(self, ln):
        self.ln = ln

    def merge(self, I_, c, o):
        return self if peq(self.ln, o.ln) else Poison("number of lines read depends on the path")

    def loop_guess(self, I_, node, first, digits, lead):
        """every iteration reads as many lines as the first; checked at loop_exit"""
        if not isinstance(first, PosC) or len(digits) != 1:
            I_.unsupported(node, "lines read in a loop")
        k = sub(first.ln, self.ln)
        if not isinstance(k, int):
            I_.unsupported(node, "number of lines read in a loop")
        return PosC(add(self.ln, mul(k, digits[0]))), k

    def loop_exit(self, I_, node, out, e, c, token, digits, lead, rng, close, mark):
        if not isinstance(c, PosC) or not peq(c.ln, add(self.ln, mul(token, add(digits[0], 1)))):
            I_.unsupported(node, "number of lines read depends on the iteration")
        return PosC(add(self.ln, mul(token, lead[0])))


# ------------------------------------------------------------------ file objects
class TextFileCls:
    name = "text file"
    members = {}
    consts = {}
    props = ()
    isattrs = False

    def ext_attr(self, I_, obj, name, st, node):
        f = {"write": write, "readline": readline, "seek": seek, "close": lambda I_, st, o, a, n: None, "flush": lambda I_, st, o, a, n: None, "writelines": writelines}.get(name)
        if f is None:
            I_.unsupported(node, f"text file attribute {name}")
        return Builtin("file." + name, lambda I_, st, a, k, n: f(I_, st, obj, a, n))


TEXTFILE = TextFileCls()


def new_text_output(I_, st):
    return Ref(I_.new(st, InstC(TEXTFILE, {"%lines": Ref(I_.new(st, LinesC()))})))


def open_text(I_, st, segs):
    return Ref(I_.new(st, InstC(TEXTFILE, {"%segs": tuple(segs), "%pos": Ref(I_.new(st, PosC(0)))})))


def part(st, obj, name):
    v = st.heap[obj.oid].attrs.get(name)
    if isinstance(v, Ref):
        return v, st.heap[v.oid]
    if v is None or isinstance(v, Poison):
        raise Unsupported("use of a text file")
    return None, v


def write(I_, st, obj, a, n):
    r, c = part(st, obj, "%lines")
    if not isinstance(c, LinesC):
        I_.unsupported(n, c.why)
    v = files.as_text(a[0])
    if v is None:
        I_.unsupported(n, "write")
    parts, tail = list(c.parts), list(c.tail)
    for q, p in v.pieces:
        if isinstance(p, str) and "\n" in p:
            if q is not True:
                I_.unsupported(n, "end of a line on some paths")
            ls = p.split("\n")
            for x in ls[:-1]:
                parts.append((True, Line(tail + [(True, x + "\n")])))
                tail = []
            p = ls[-1]
            if not p:
                continue
        tail.append((q, p))
    st.heap[r.oid] = LinesC(parts, tail)


def writelines(I_, st, obj, a, n):
    it = I_.iterable(a[0], st, n)
    if not isinstance(it, list):
        I_.unsupported(n, "writelines")
    for x in it:
        write(I_, st, obj, [x], n)


def seek(I_, st, obj, a, n):
    r, c = part(st, obj, "%pos")
    if len(a) != 1 or a[0] != 0 or not isinstance(a[0], int):
        I_.unsupported(n, "seek in a text file")
    st.heap[r.oid] = PosC(0)


def readline(I_, st, obj, a, n):
    if a:
        I_.unsupported(n, "readline with a size")
    r, c = part(st, obj, "%pos")
    if not isinstance(c, PosC):
        I_.unsupported(n, c.why)
    _, segs = part(st, obj, "%segs")
    start = 0
    for s in segs:
        i = sub(c.ln, start)
        if sure(I_, st, conj(cmp(">=", i, 0), cmp("<", i, s.n))):
            st.heap[r.oid] = PosC(add(c.ln, 1))
            return s.at(I_, st, i, n)
        start = add(start, s.n)
    I_.unsupported(n, "line of unknown number")


def iterate(I_, n, obj, st, fr):
    """for line in file"""
    r, c = part(st, obj, "%pos")
    _, segs = part(st, obj, "%segs")
    if not isinstance(c, PosC) or not (isinstance(c.ln, int) and c.ln == 0):
        I_.unsupported(n, "iteration over the rest of a file")
    if any(isinstance(x, (ast.Break, ast.Return)) for b in n.body for x in ast.walk(b)) or n.orelse:
        I_.unsupported(n, "end of an iteration over a file")
    tot = 0
    for s in segs:
        tot = add(tot, s.n)
    out = None
    for s in segs:
        it = s.sequence()
        o = I_.unrolled(n, it, st, fr) if isinstance(it, list) else loops.symbolic_for(I_, n, it, st, fr)
        if o.rets or o.brk is not None or o.cont is not None or o.normal is None:
            I_.unsupported(n, "end of an iteration over a file")
        st, out = o.normal, o
    st.heap[r.oid] = PosC(tot)
    return out
