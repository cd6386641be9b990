"""C21: readma2 returns, element by element, the owner and the vertex ids stored in the file."""
from api import *

ASSUMPTIONS = [
    "precondition: the file has the .ma2 layout (a 132-byte text header, the tag, 1 + nvert numbers for each element)",
    "contracts of open/read/split/struct/numpy.frombuffer; the quotient of the header's counts is exact",
]


def prove(col):
    for nv in (4, 8):
        for en in ("little", "big"):
            col.case(f"{nv} vertices, {en} endian", lambda E, nv=nv, en=en: read(E, nv, en))
        col.case(f"{nv} vertices, wrong tag", lambda E, nv=nv: wrong(E, nv))


def setup(E, nv, en):
    nel = E.int("nel")
    E.assume(nel >= 1)
    h = header_text(132, "#v001", ("int", nel), ("int", E.int("nactive")), ("int", E.int("depth")), ("int", E.int("d2")),
                    ("int", mul(nv, nel)), ("int", E.int("nrank")), ("int", E.int("noutflow")))
    return nel, file_with_tag(E, "file", h, en)


def read(E, nv, en):
    nel, src = setup(E, nv, en)
    r = E.call("pymech.neksuite.map", "readma2", "file.ma2")
    E.never_raises("readma2", r)
    cell, procmap = r.value
    dt = "<i4" if en == "little" else ">i4"
    for a, d in zip(tuple(cell.shape) + tuple(procmap.shape), (nel, nv, nel)):
        E.eq("shape", a, d, r.st)
    E.eq("number of axes", len(cell.shape) + len(procmap.shape), 3, r.st)
    e, v = E.fresh_int("e", nel), E.fresh_int("v", nv)
    at = lambda k: src.num(dt, add(136, mul(4, add(mul(nv + 1, e), k))))
    E.eq("owner", E.arr(r.st, procmap, e), at(0), r.st)
    E.eq("vertex ids", E.arr(r.st, cell, e, v), at(add(v, 1)), r.st)


def wrong(E, nv):
    nel, src = setup(E, nv, None)
    wrong_tag(E, src)
    r = E.call("pymech.neksuite.map", "readma2", "file.ma2")
    E.raises_iff("wrong tag", r, True)
