"""C05: header text and header fields determine each other."""
from api import *
import files

ASSUMPTIONS = [
    "precondition: the numbers fit the columns of the format (orders below 100, element counts below 10^10, step below 10^9, ids below 10^6, |time| zero or in [1e-99, 1e100), at most 99 scalars, at least one variable)",
    "contracts of % formatting, ljust, encode, split, int and float on text: an integer is printed and parsed exactly, a real printed with 13 decimals of an exponent format is the value rounded to 14 digits",
]
MOD = "pymech.neksuite.field"


def prove(col):
    for d in (2, 3):
        for form in ("counts", "text"):
            for via in ("file object", "path"):
                col.case(f"{d}D, given the {form}, read from a {via}", lambda E, a=(d, form, via): roundtrip(E, *a))
    col.case("word size", word_size)
    for d in (2, 3):
        col.case(f"{d}D, neither form", lambda E, d=d: neither(E, d))
    for m in range(12):
        col.case(f"header of {m} fields", lambda E, m=m: short(E, m))


def symbols(E, d):
    v = dict(nel=E.int("nel"), nelf=E.int("nelf"), lx=E.int("lx"), ly=E.int("ly"), lz=1 if d == 2 else E.int("lz"), istep=E.int("istep"), fid=E.int("fid"), nfiles=E.int("nfiles"), ns=E.int("ns"), wdsz=E.int("wdsz"))
    for n, lim in (("nel", 10**10), ("nelf", 10**10), ("lx", 100), ("ly", 100), ("istep", 10**9), ("fid", 10**6), ("nfiles", 10**6), ("ns", 100)):
        E.assume(v[n] >= 0, v[n] < lim)
    E.assume(v["lx"] >= 1, v["ly"] >= 1)
    if d == 3:
        E.assume(v["lz"] >= 2, v["lz"] < 100)
    v["time"] = E.real("time")
    E.assume(to_z(files.LEN_REAL(2013, v["time"])) == 20)
    has = [z3.Bool(E.name + "has" + x) for x in "XUPTS"]
    E.assume(z3.Or(*has), z3.Implies(has[4], v["ns"] >= 1))
    v["has"] = has
    v["nb"] = (ite(has[0], d, 0), ite(has[1], d, 0), ite(has[2], 1, 0), ite(has[3], 1, 0), ite(has[4], v["ns"], 0))
    v["text"] = lambda b=False: files.Text([(has[i], x) for i, x in enumerate("XUPT")] + [(has[4], "S"), (has[4], files.IntP("%02d", v["ns"]))], b)
    return v


def make(E, v, d, form, **over):
    kw = {"nb_vars": v["nb"]} if form == "counts" else {"variables": v["text"]()}
    kw.update(over)
    return E.construct(MOD, "Header", v["wdsz"], (v["lx"], v["ly"], v["lz"]), v["nel"], v["nelf"], v["time"], v["istep"], fid=v["fid"], nb_files=v["nfiles"], **kw)


def same(E, nm, v, d, r, time):
    st, h = r.st, r.value
    at = lambda n: E.attr(st, h, n)
    for a, n in (("wdsz", "wdsz"), ("nb_elems", "nel"), ("nb_elems_file", "nelf"), ("istep", "istep"), ("fid", "fid"), ("nb_files", "nfiles")):
        E.eq(f"{nm}: {a}", at(a), v[n], st)
    for i, n in enumerate(("lx", "ly", "lz")):
        E.eq(f"{nm}: order {n}", E.item(st, at("orders"), i), v[n], st)
    E.eq(f"{nm}: time", at("time"), time, st)
    E.eq(f"{nm}: dimension", at("nb_dims"), d, st)
    E.eq(f"{nm}: points per element", at("nb_pts_elem"), mul(mul(v["lx"], v["ly"]), v["lz"]), st)
    E.eq(f"{nm}: type of word size 4", at("realtype"), "f", st, [v["wdsz"] == 4])
    E.eq(f"{nm}: type of word size 8", at("realtype"), "d", st, [v["wdsz"] == 8])
    for i, n in enumerate("XUPTS"):
        E.eq(f"{nm}: count of {n}", E.item(st, at("nb_vars"), i), v["nb"][i], st)
    E.prove(f"{nm}: variable string", E.I.compare(ast.Eq(), at("variables"), v["text"](), st, ast.Name("contract", ast.Load())), st)


def roundtrip(E, d, form, via):
    v = symbols(E, d)
    E.assume(z3.Or(v["wdsz"] == 4, v["wdsz"] == 8))
    r = make(E, v, d, form)
    E.never_raises("header", r)
    same(E, "header", v, d, r, v["time"])
    E.st = r.st
    b = E.call(MOD, "Header.as_bytestring", r.value)
    E.never_raises("text", b)
    t = b.value
    if not (isinstance(t, files.Text) and t.isbytes):
        raise Unsupported("as_bytestring does not return bytes")
    E.eq("the text has 132 bytes", t.len(), 132, b.st)
    E.st = b.st
    src = files.Source("file", t)
    E.I.open_hook = lambda I_, st, f, mode: files.open_source(I_, st, src) if mode == "rb" else None
    arg = "file" if via == "path" else files.open_source(E.I, E.st, src)
    q = E.call(MOD, "read_header", arg)
    E.never_raises("reading", q)
    same(E, "read back", v, d, q, files.round_fn(14)(v["time"]))
    if via != "path":
        E.eq("the file is positioned after the header", files.fattr(q.st, arg, "%pos"), 132, q.st)


def word_size(E):
    v = symbols(E, 3)
    r = make(E, v, 3, "counts")
    E.raises_iff("word size", r, z3.And(v["wdsz"] != 4, v["wdsz"] != 8))


def neither(E, d):
    v = symbols(E, d)
    r = E.construct(MOD, "Header", v["wdsz"], (v["lx"], v["ly"], v["lz"]), v["nel"], v["nelf"], v["time"], v["istep"], fid=v["fid"], nb_files=v["nfiles"])
    E.raises_iff("neither variables nor counts", r, True)


def short(E, m):
    h = header_text(132, *["#std"] * min(m, 1), *[("int", E.int(f"tok{i}")) for i in range(max(m - 1, 0))])
    src = files.Source("file", h)
    q = E.call(MOD, "read_header", files.open_source(E.I, E.st, src))
    E.raises_iff("short header", q, True, ("IOError", "OSError", "ValueError"))
