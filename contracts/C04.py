"""C04: skipping variables changes only the skipped variables, for every set of names."""
from api import *
import C03
import files

ASSUMPTIONS = C03.ASSUMPTIONS + ["the set of names is arbitrary (an uninterpreted membership predicate)"]
GEOM, VEL1, VEL2 = ("x", "y", "z"), ("ux", "uy", "uz"), ("vx", "vy", "vz")


class NameSet:
    """arbitrary collection of names"""

    def __init__(self, E):
        self.lit = z3.Function(E.name + "skip", I, z3.BoolSort())
        self.fmt = {}
        self.E = E

    def contains(self, I_, st, x, n):
        if isinstance(x, (str, Str)):
            return self.lit(to_z(x))
        if isinstance(x, files.Text):
            return self.named(x)
        I_.unsupported(n, "membership in the skipped names")

    def named(self, t):
        """predicate of a formatted name with one number: scalars are named s01, s02, ..."""
        ps = t.pieces
        if not (len(ps) == 2 and isinstance(ps[0][1], str) and isinstance(ps[1][1], files.IntP) and all(c is True for c, _ in ps)):
            raise Unsupported("formatted name")
        key = ps[0][1] + ps[1][1].fmt
        if key not in self.fmt:
            self.fmt[key] = z3.Function(self.E.name + "skip " + key, I, z3.BoolSort())
        return self.fmt[key](to_z(ps[1][1].t))

    def truth(self, I_, st):
        return z3.Bool(self.E.name + "any name")

    def subst(self, pairs):
        return self


def prove(col):
    for d in (2, 3):
        for en, w, zero in (("little", 8, False), ("big", 4, False), ("little", 4, True)):
            col.case(f"{d}D, {en} endian, word size {w}" + (", map with a zero" if zero else ""), lambda E, a=(d, en, w, zero): skip(E, *a))


def skip(E, d, en, w, zero):
    c = C03.setup(E, d, en, w, zero)
    s = NameSet(E)
    r = E.call("pymech.neksuite.field", "readnek", "file0.f00001", "float64", s)
    E.never_raises("readnek", r)
    C03.header_post(E, c, r)
    L = lambda *n: z3.Or(*[s.lit(to_z(x)) for x in n])

    def skipped(v, j):
        if v == 0:
            return L(GEOM[j])
        if v == 1:
            return L(VEL1[j], VEL2[j])
        if v == 2:
            return L("p", "pressure")
        if v == 3:
            return L("t", "temperature")
        return s.named(files.Text([(True, "s"), (True, files.IntP("%02d", add(j, 1)))]))

    C03.values(E, c, r, skipped=skipped)
