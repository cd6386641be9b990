"""Oracles for the file properties C01-C07, C21, C22, C23."""
import os
import struct
import sys
import tempfile

import numpy as np
import nekfmt
import util as U
from util import need


def rng_of(case):
    return np.random.default_rng(case["seed"])


class Tmp:
    def __enter__(self):
        self.d = tempfile.TemporaryDirectory(prefix="pmv")
        return lambda n="f": os.path.join(self.d.name, n)

    def __exit__(self, *a):
        self.d.cleanup()


def nearest(x, wdsz):
    return np.asarray(x).astype(np.float32).astype(np.float64) if wdsz == 4 else np.asarray(x).astype(np.float64)


VARSETS = [(0, 1, 0, 0, 0), (1, 0, 0, 0, 0), (1, 1, 1, 0, 0), (1, 1, 1, 1, 2), (0, 0, 0, 0, 1), (0, 0, 0, 0, 3), (0, 1, 0, 1, 11), (0, 0, 1, 0, 0), (1, 1, 1, 1, 0), (0, 0, 0, 1, 4)]


def field_cases(rng, tier, n):
    for i in range(n):
        ndim = 2 + int(rng.integers(0, 2))
        vs = VARSETS[i % len(VARSETS)] if i < 2 * len(VARSETS) else tuple(int(b) for b in rng.integers(0, 2, 4)) + (int(rng.choice([0, 0, 1, 2, 5, 10, 99])),)
        if not any(vs):
            vs = (1, 0, 0, 0, 0)
        var = [vs[0] * ndim, vs[1] * ndim, vs[2], vs[3], vs[4]]
        o = [int(k) for k in rng.integers(2, 6 if tier == "quick" else 9, 3)]
        if ndim == 2:
            o[2] = 1
        nel = int(rng.choice([1, 2, 3, 5, 8, 13]))
        if var[4] > 20:
            nel, o = 2, [2, 3, o[2] if ndim == 2 else 2]
        yield dict(seed=int(rng.integers(2**31)), ndim=ndim, nel=nel, orders=o, var=var, wdsz=int(rng.choice([4, 8])), endian=str(rng.choice(["little", "big"])),
                   dtype=str(rng.choice(["float64", "float64", "float32"])), perm=bool(rng.integers(0, 4)))


def mk_field(c):
    return U.random_field(rng_of(c), c["ndim"], c["nel"], c["orders"], c["var"], c["wdsz"], c["endian"], c.get("dtype", "float64"), c.get("perm", True))


def gen_C01(rng, tier):
    yield from field_cases(rng, tier, 80 if tier == "quick" else 600)


def run_C01(c):
    from pymech.neksuite import readnek, writenek

    d = mk_field(c)
    with Tmp() as f:
        writenek(f("a0.f00001"), d)
        r = readnek(f("a0.f00001"))
    need(r.ndim == c["ndim"], "dimension %s != %s", r.ndim, c["ndim"])
    need(tuple(r.lr1) == tuple(c["orders"]), "orders %s != %s", r.lr1, c["orders"])
    need(r.nel == c["nel"] == len(r.elem), "nel %s != %s", r.nel, c["nel"])
    need(tuple(r.var) == tuple(c["var"]), "var %s != %s", r.var, c["var"])
    need(list(r.elmap) == list(d.elmap), "element map %s != %s", list(r.elmap), list(d.elmap))
    need(r.istep == d.istep and r.wdsz == c["wdsz"] and r.endian == c["endian"], "step, word size or byte order: %s", (r.istep, r.wdsz, r.endian))
    need(r.time == float("%.13E" % d.time), "time %r, stored %r", r.time, d.time)
    for i, (a, b) in enumerate(zip(d.elem, r.elem)):
        for n, k in zip(("pos", "vel", "pres", "temp", "scal"), c["var"]):
            x, y = getattr(a, n)[:k], getattr(b, n)[:k]
            need(x.shape == y.shape, "element %s: %s has shape %s, not %s", i, n, y.shape, x.shape)
            need(np.array_equal(nearest(x, c["wdsz"]), y), "element %s: %s is not what was saved", i, n)


gen_C02 = gen_C01


def run_C02(c):
    from pymech.neksuite import writenek

    d = mk_field(c)
    with Tmp() as f:
        writenek(f(), d)
        raw = open(f(), "rb").read()
    vals = {}
    for i, el in enumerate(d.elem):
        for n, k in zip(("pos", "vel", "pres", "temp", "scal"), c["var"]):
            for j in range(k):
                vals[n, i + 1, j] = [float(v) for v in getattr(el, n)[j].ravel()]
    en = "<" if c["endian"] == "little" else ">"
    exp = nekfmt.encode(None, c["ndim"], c["orders"], c["var"], c["wdsz"], en, [int(e) for e in d.elmap], vals, d.time, d.istep)
    need(len(raw[:132]) == 132 and raw[:132].split() == exp[:132].split(), "header is %r, expected %r", raw[:132], exp[:132])
    need(len(raw) == len(exp), "file has %s bytes, expected %s", len(raw), len(exp))
    if raw[132:] != exp[132:]:
        k = next(i for i in range(132, len(exp)) if raw[i] != exp[i])
        need(False, "bytes differ from the layout at offset %s of %s", k, len(exp))


def conform(c):
    """A conforming file from case c -> bytes, dict of values, elmap"""
    rng = rng_of(c)
    ndim, nel, var, o = c["ndim"], c["nel"], c["var"], c["orders"]
    nf = c.get("nelf", nel)
    elmap = [int(e) + 1 for e in rng.permutation(nel)[:nf]]
    if c.get("natural"):
        elmap = sorted(elmap)
    npt = o[0] * o[1] * o[2]
    vals = {}
    for n, k in zip(("pos", "vel", "pres", "temp", "scal"), var):
        for e in elmap:
            for j in range(k):
                v = rng.standard_normal(npt)
                vals[n, e, j] = [float(x) for x in (v.astype(np.float32) if c["wdsz"] == 4 else v)]
    en = "<" if c["endian"] == "little" else ">"
    time = float("%.13E" % (rng.standard_normal() * 100))
    fld, em = None, elmap
    if c.get("zero"):
        fld = list(range(1, nf + 1))
        vals = {(n, fld[elmap.index(e)], j): v for (n, e, j), v in vals.items()}
        em = list(elmap)
        for z in range(c["zero"]):
            em[int(rng.integers(0, nf))] = 0
    raw = nekfmt.encode(fld, ndim, o, var, c["wdsz"], en, em, vals, time, c["seed"] % 10**9, nel=nel, fid=c.get("fid", 0), nf=c.get("nfiles", 1), meta=c.get("meta", True), loose=c.get("loose", False))
    return raw, vals, em, time


def conf_cases(rng, tier, n):
    for i, c in enumerate(field_cases(rng, tier, n)):
        c["meta"] = bool(rng.integers(0, 2))
        c["loose"] = bool(rng.integers(0, 2))
        k = i % 4
        if k == 1:
            c["nelf"] = max(1, c["nel"] // 2)
            c["fid"], c["nfiles"] = 1, 2
        if k == 2:
            c["zero"] = 1 + int(rng.integers(0, 2))
        c["dtype"] = str(rng.choice(["float64", "float32"]))
        yield c


def gen_C03(rng, tier):
    yield from conf_cases(rng, tier, 80 if tier == "quick" else 600)
    for k in ("tag", "short", "short0"):
        for e in ("little", "big"):
            yield dict(seed=3, ndim=3, nel=2, orders=[2, 2, 2], var=[3, 0, 0, 0, 0], wdsz=4, endian=e, bad=k)


def check_read(r, c, vals, skipped=()):
    for n, k in zip(("pos", "vel", "pres", "temp", "scal"), c["var"]):
        for e in range(1, c["nel"] + 1):
            a = getattr(r.elem[e - 1], n)
            need(str(a.dtype) == c.get("dtype", "float64"), "%s has type %s", n, a.dtype)
            for j in range(a.shape[0]):
                v = vals.get((n, e, j))
                if v is None or (n, j) in skipped:
                    need(not a[j].any(), "element %s, %s[%s] should be zero", e, n, j)
                else:
                    x = np.array(v).astype(a.dtype).reshape(tuple(c["orders"][::-1]))
                    need(np.array_equal(a[j], x), "element %s, %s[%s] is not what the file stores", e, n, j)


def run_C03(c):
    from pymech.neksuite import readnek

    raw, vals, em, time = conform(c)
    with Tmp() as f:
        if c.get("bad"):
            if c["bad"] == "tag":
                raw = raw[:132] + struct.pack("<f", 1.0) + raw[136:]
            elif c["bad"] == "short":
                raw = b"#std 4 2 2 2 1 1 0.0 0 0".ljust(132) + raw[132:]
            else:
                raw = raw[:20]
            open(f(), "wb").write(raw)
            try:
                readnek(f())
            except Exception:
                return
            need(False, "a corrupt file (%s) is read without an error", c["bad"])
        open(f(), "wb").write(raw)
        r = readnek(f(), dtype=c["dtype"])
    need((r.ndim, r.nel, tuple(r.lr1), tuple(r.var)) == (c["ndim"], c["nel"], tuple(c["orders"]), tuple(c["var"])), "metadata %s", (r.ndim, r.nel, r.lr1, r.var))
    need(r.time == time and r.istep == c["seed"] % 10**9 and r.wdsz == c["wdsz"] and r.endian == c["endian"], "time, step, word size or byte order: %s", (r.time, time, r.istep, r.wdsz, r.endian))
    need([int(x) for x in r.elmap] == em, "element map %s != %s", list(r.elmap), em)
    check_read(r, c, vals)


NAMES = {"x": ("pos", 0), "y": ("pos", 1), "z": ("pos", 2), "ux": ("vel", 0), "uy": ("vel", 1), "uz": ("vel", 2), "vx": ("vel", 0), "vy": ("vel", 1), "vz": ("vel", 2),
         "p": ("pres", 0), "pressure": ("pres", 0), "t": ("temp", 0), "temperature": ("temp", 0)}


def gen_C04(rng, tier):
    keys = list(NAMES)
    fixed = [("x", "y", "z"), ("ux", "uy", "uz"), ("vx", "vy", "vz"), ("ux", "vy", "uz"), ("ux", "uy"), ("x", "y"), ("p",), ("t", "pressure"), ("s01",), ("s02",), ("s01", "s02"), ("temperature", "s03"), ("x", "y", "z", "ux", "uy", "uz", "p", "t"), ("pressure", "x", "s05")]
    full = dict(ndim=3, nel=5, orders=[2, 3, 2], var=[3, 3, 1, 1, 3], wdsz=4, endian="little", dtype="float64", meta=True)
    for i, s in enumerate(fixed):
        for part in (0, 1):
            c = dict(full, seed=100 + i, skip=list(s))
            if part:
                c["nelf"] = 2
            yield c
    for c in conf_cases(rng, tier, 80 if tier == "quick" else 600):
        k = keys + ["s%02d" % (j + 1) for j in range(c["var"][4] + 1)]
        p = rng.choice([0.15, 0.5, 0.85])
        c["skip"] = [n for n in k if rng.random() < p]
        yield c


def run_C04(c):
    from pymech.neksuite import readnek

    raw, vals, em, time = conform(c)
    sk = set()
    for n in c["skip"]:
        sk.add(NAMES[n] if n in NAMES else ("scal", int(n[1:]) - 1))
    for typ in (tuple, list):
        with Tmp() as f:
            open(f(), "wb").write(raw)
            r = readnek(f(), dtype=c["dtype"], skip_vars=typ(c["skip"]))
        check_read(r, c, vals, sk)
        need((r.time, r.nel, r.istep) == (time, c["nel"], c["seed"] % 10**9), "metadata changed by skipping")


def gen_C05(rng, tier):
    for i in range(300 if tier == "quick" else 5000):
        ndim = 2 + int(rng.integers(0, 2))
        vs = [int(b) for b in rng.integers(0, 2, 4)] + [int(rng.choice([0, 0, 1, 2, 9, 10, 42, 99]))]
        if not any(vs):
            vs[3] = 1
        o = [int(k) for k in rng.integers(1 if i % 7 == 0 else 2, 100, 3)]
        o[2] = 1 if ndim == 2 else max(2, o[2])
        big = lambda d: int(rng.choice([0, 1, 10 ** (d - 1), 10**d - 1, int(rng.integers(0, 10**d))]))
        yield dict(wdsz=int(rng.choice([4, 8])), orders=o, nel=big(10), nelf=big(10), time=float(rng.standard_normal() * 10.0 ** int(rng.integers(-99, 99))) if i % 9 else 0.0,
                   istep=big(9), fid=big(6), nf=big(6), var=[vs[0] * ndim, vs[1] * ndim] + vs[2:], ndim=ndim, how=int(rng.integers(0, 3)))
    for b in ("wdsz0", "wdsz16", "none", "short11", "empty", "type"):
        yield dict(bad=b)


def run_C05(c):
    from pymech.neksuite.field import Header, read_header

    if c.get("bad"):
        try:
            if c["bad"].startswith("wdsz"):
                Header(int(c["bad"][4:]), (2, 2, 2), 1, 1, 0.0, 0, 0, 1, variables="X")
            elif c["bad"] == "none":
                Header(4, (2, 2, 2), 1, 1, 0.0, 0, 0, 1)
            elif c["bad"] == "type":
                read_header(12)
            else:
                with Tmp() as f:
                    open(f(), "wb").write(b"#std 4 2 2 2 1 1 0.0 0 0 1".ljust(132) if c["bad"] == "short11" else b"")
                    read_header(f())
        except Exception:
            return
        need(False, "invalid header (%s) is accepted", c["bad"])
    var = tuple(c["var"])
    vs = nekfmt.varstring(var)
    mk = dict(fid=c["fid"], nb_files=c["nf"])
    kw = [dict(variables=vs), dict(nb_vars=var), dict(variables=vs.encode())][c["how"]]
    h = Header(c["wdsz"], c["orders"], c["nel"], c["nelf"], c["time"], c["istep"], **mk, **kw)
    need(h.variables == vs, "variables %r for counts %s", h.variables, var)
    need(tuple(h.nb_vars) == var, "counts %s for variables %r", h.nb_vars, vs)
    raw = h.as_bytestring()
    need(isinstance(raw, bytes) and len(raw) == 132, "header has %s bytes", len(raw))
    exp = nekfmt.token_header(c["wdsz"], c["orders"], c["nel"], c["nelf"], c["time"], c["istep"], c["fid"], c["nf"], vs)
    need(raw.split() == exp.split(), "header %r, expected %r", raw, exp)
    with Tmp() as f:
        open(f(), "wb").write(raw + b"1234567890")
        g = [read_header(f())]
        with open(f(), "rb") as fp:
            g.append(read_header(fp))
            need(fp.read(4) == b"1234", "reading the header does not consume exactly 132 bytes")
    for r in g:
        need((r.wdsz, tuple(r.orders), r.nb_elems, r.nb_elems_file, r.istep, r.fid, r.nb_files, r.variables, tuple(r.nb_vars), r.nb_dims)
             == (c["wdsz"], tuple(c["orders"]), c["nel"], c["nelf"], c["istep"], c["fid"], c["nf"], vs, var, c["ndim"]), "parsed header %s from %r", r, raw)
        need(r.time == float("%.13E" % c["time"]), "time %r from %r", r.time, c["time"])
        need(r.nb_pts_elem == c["orders"][0] * c["orders"][1] * c["orders"][2] and r.realtype == ("f" if c["wdsz"] == 4 else "d"), "derived values of %s", r)


# ------------------------------------------------------------------ re2
def gen_C06(rng, tier):
    for i in range(60 if tier == "quick" else 500):
        yield dict(seed=int(rng.integers(2**31)), ndim=2 + i % 2, nel=int(rng.choice([1, 2, 5, 12])), nbc=int(rng.choice([1, 1, 2, 3, 5])), endian=str(rng.choice(["little", "big"])), pcurv=float(rng.choice([0, 0.2, 0.9])))
    for k in ("lr1", "var"):
        yield dict(seed=1, ndim=3, nel=2, nbc=1, endian="little", pcurv=0.1, bad=k)


def run_C06(c):
    from pymech.neksuite.mesh import readre2, writere2

    m = U.random_mesh(rng_of(c), c["ndim"], c["nel"], c["nbc"], pcurv=c["pcurv"])
    m.endian = c["endian"]
    if c.get("bad"):
        if c["bad"] == "lr1":
            m.lr1 = [3, 3, 3]
        else:
            m.var = [2, 0, 0, 0, 0]
        with Tmp() as f:
            try:
                writere2(f(), m)
            except ValueError:
                return
        need(False, "an unsuitable mesh (%s) is written", c["bad"])
    with Tmp() as f:
        writere2(f(), m)
        raw = open(f(), "rb").read()
        r = readre2(f())
    check_re2_bytes(raw, m, c)
    need((r.ndim, r.nel, len(r.elem), r.nbc, r.endian) == (c["ndim"], c["nel"], c["nel"], c["nbc"], c["endian"]), "metadata %s", (r.ndim, r.nel, r.nbc, r.endian))
    need(r.ncurv == sum(t != "" for el in m.elem for t in el.ccurv), "ncurv is %s", r.ncurv)
    for e, (a, b) in enumerate(zip(m.elem, r.elem)):
        need(np.array_equal(a.pos[: c["ndim"]], b.pos[: c["ndim"]]), "element %s: vertices differ", e)
        need(list(a.ccurv) == list(b.ccurv), "element %s: curvature types %s, were %s", e, b.ccurv, a.ccurv)
        need(np.array_equal(a.curv, b.curv), "element %s: curvature parameters differ", e)
        need(b.bcs.shape == a.bcs.shape, "element %s: conditions of shape %s", e, b.bcs.shape)
        for ib in range(c["nbc"]):
            for f_ in range(2 * c["ndim"]):
                x, y = tuple(a.bcs[ib, f_]), tuple(b.bcs[ib, f_])
                if x[0] in ("", "E"):
                    x = ("", 0, 0, 0.0, 0.0, 0.0, 0.0, 0.0)
                need(x == y, "element %s field %s face %s: %s, was %s", e, ib, f_, y, x)


def check_re2_bytes(raw, m, c):
    """the file itself follows the re2 layout (read by Nek5000, not only by pymech)"""
    en = "<" if c["endian"] == "little" else ">"
    nd, ne = c["ndim"], c["nel"]
    h = raw[:80].decode()
    need(h[:5] == "#v002" and [int(h[5:14]), int(h[14:17]), int(h[17:26])] == [ne, nd, ne], "re2 header is %r", h)
    exp = struct.pack(en + "f", 6.54321)
    seq = [(0, 0), (0, 1), (1, 1), (1, 0)]
    for el in m.elem:
        v = [0.0]
        for d in range(nd):
            for iz in range(nd - 1):
                v += [float(el.pos[d, iz, a, b]) for a, b in seq]
        exp += struct.pack(en + "%dd" % len(v), *v)
    cu = [(e, k) for e in range(ne) for k in range(12) if m.elem[e].ccurv[k] != ""]
    exp += struct.pack(en + "d", len(cu))
    for e, k in cu:
        exp += struct.pack(en + "7d", e + 1, k + 1, *[float(x) for x in m.elem[e].curv[k]]) + m.elem[e].ccurv[k].encode()[:1]
        exp += raw[80 + len(exp): 80 + len(exp) + 7]  # padding after the type is free
    for ib in range(c["nbc"]):
        bs = [(e, k) for e in range(ne) for k in range(2 * nd) if m.elem[e].bcs[ib, k][0] not in ("", "E")]
        exp += struct.pack(en + "d", len(bs))
        for e, k in bs:
            b = m.elem[e].bcs[ib, k]
            exp += struct.pack(en + "7d", e + 1, k + 1, *[float(b[j]) for j in range(3, 8)]) + b[0].encode().ljust(8)
    need(raw[80:] == exp, "the bytes of the file do not follow the re2 layout (%s bytes, expected %s)", len(raw) - 80, len(exp))


# ------------------------------------------------------------------ rea
def gen_C07(rng, tier):
    for i in range(40 if tier == "quick" else 300):
        yield dict(seed=int(rng.integers(2**31)), ndim=2 + i % 2, nel=int(rng.choice([1, 2, 5, 12])), nbc=int(rng.choice([0, 1, 1, 2, 3, 4])), pcurv=float(rng.choice([0, 0.2, 0.9])))
    for nel in (999, 1000, 1001) + ((2500, 99999, 100000) if tier == "thorough" else ()):
        yield dict(seed=nel, ndim=2, nel=nel, nbc=1, pcurv=0.1)
    yield dict(seed=77, ndim=3, nel=1000, nbc=2, pcurv=0.1)
    yield dict(seed=5, ndim=2, nel=1000000, nbc=1, pcurv=0.02, light=True)


def g7(x):
    return float("%.6e" % x)


def run_C07(c):
    from pymech.neksuite.mesh import readrea, writerea

    if c.get("light"):
        return run_C07_light(c)
    m = U.random_mesh(rng_of(c), c["ndim"], c["nel"], c["nbc"], pcurv=c["pcurv"])
    rea_trip(m, c)


def run_C07_light(c):
    """a million elements: the same few element contents over and over, to save time and memory"""
    m = U.random_mesh(rng_of(c), c["ndim"], 7, c["nbc"], pcurv=0.3)
    base = m.elem
    for el in base:
        for ib in range(c["nbc"]):
            for f in range(4):
                if el.bcs[ib, f][0] in ("E", "P"):
                    el.bcs[ib, f][3] = 999999.0
                if el.bcs[ib, f][0] != "":
                    el.bcs[ib, f][1] = 999000 + 10 * f
    m.elem = [base[i % 7] for i in range(c["nel"])]
    m.nel = c["nel"]
    m.ncurv = sum(sum(t != "" for t in base[i % 7].ccurv) for i in range(c["nel"]))
    rea_trip(m, c)


def rea_trip(m, c):
    from pymech.neksuite.mesh import readrea, writerea

    with Tmp() as f:
        writerea(f(), m)
        r = readrea(f())
    need((r.ndim, r.nel, len(r.elem), r.nbc, r.ncurv) == (c["ndim"], c["nel"], c["nel"], c["nbc"], m.ncurv), "metadata %s, expected %s", (r.ndim, r.nel, r.nbc, r.ncurv), (c["ndim"], c["nel"], c["nbc"], m.ncurv))
    nd = c["ndim"]
    small = c["nel"] < 1000 or c["nel"] >= 10**6
    v7 = np.vectorize(g7, otypes=[float])
    tol = dict(rtol=6e-7, atol=0)
    some = range(c["nel"])
    if c.get("light"):  # 2000 of the elements
        some = [*range(300), *np.random.default_rng(c["seed"]).integers(0, c["nel"], 1400).tolist(), *range(c["nel"] - 300, c["nel"])]
    for e in some:
        a, b = m.elem[e], r.elem[e]
        need(a.pos[:nd].shape == b.pos[:nd].shape and np.allclose(a.pos[:nd], b.pos[:nd], **tol), "element %s: vertices differ", e)
        need(list(a.ccurv) == list(b.ccurv), "element %s: curvature types %s, were %s", e, b.ccurv, a.ccurv)
        for k in range(12):
            if a.ccurv[k] != "":
                need(np.allclose(a.curv[k], b.curv[k], **tol), "element %s edge %s: curvature %s, was %s", e, k, b.curv[k], a.curv[k])
            else:
                need(not b.curv[k].any(), "element %s edge %s: straight edge has parameters", e, k)
        for ib in range(c["nbc"]):
            for f_ in range(2 * nd):
                x, y = tuple(a.bcs[ib, f_]), tuple(b.bcs[ib, f_])
                need(x[0] == y[0], "element %s field %s face %s: condition %r, was %r", e, ib, f_, y[0], x[0])
                need(np.allclose(x[3:8], y[3:8], **tol), "element %s field %s face %s: parameters %s, were %s", e, ib, f_, y[3:], x[3:])
                if x[0] in ("E", "P"):
                    need(x[3:5] == y[3:5], "element %s field %s face %s: connection %s, was %s", e, ib, f_, y[3:5], x[3:5])
                if x[0] != "":
                    need((y[1], y[2]) == ((x[1], x[2]) if c.get("light") else (e + 1, f_ + 1)), "element %s field %s face %s: own indices are %s", e, ib, f_, y[1:3])


# ------------------------------------------------------------------ ma2, SIMSON
def gen_C21(rng, tier):
    for i in range(60 if tier == "quick" else 400):
        yield dict(seed=int(rng.integers(2**31)), nel=int(rng.choice([1, 2, 3, 7, 30])), nvert=[4, 8][i % 2], en="<>"[(i // 2) % 2], hi=int(rng.choice([50, 2**31 - 1])))
    yield dict(seed=1, nel=2, nvert=4, en="<", hi=10, bad=1)


def run_C21(c):
    from pymech.neksuite.map import readma2

    rng = rng_of(c)
    own = [int(k) for k in rng.integers(0, c["hi"], c["nel"])]
    ver = [[int(k) for k in rng.integers(1, c["hi"], c["nvert"])] for _ in own]
    ne, nv = c["nel"], c["nvert"]
    h = "#v001%12d%12d%12d%12d%12d%12d%12d" % (ne, ne, 3, 8, ne * nv, 5, 0)
    raw = h.encode().ljust(132) + struct.pack(c["en"] + "f", 1.0 if c.get("bad") else 6.54321)
    for o, v in zip(own, ver):
        raw += struct.pack(c["en"] + "%di" % (nv + 1), o, *v)
    with Tmp() as f:
        open(f(), "wb").write(raw)
        try:
            cell, pm = readma2(f())
        except ValueError:
            if c.get("bad"):
                return
            raise
    need(not c.get("bad"), "a wrong tag is accepted")
    need(cell.shape == (ne, nv) and pm.shape == (ne,), "shapes %s %s", cell.shape, pm.shape)
    need([int(x) for x in pm] == own and all(float(x).is_integer() for x in pm), "ranks %s, stored %s", list(pm), own)
    need([[int(x) for x in r] for r in cell] == ver, "vertices differ")


def gen_C22(rng, tier):
    for i in range(30 if tier == "quick" else 200):
        nd = 1 + i % 3
        yield dict(kind="plane", seed=int(rng.integers(2**31)), nn=[int(k) for k in rng.integers(1, 7, nd)], en="<>"[(i // 3) % 2])
    for i in range(16 if tier == "quick" else 100):
        yield dict(kind="dns", seed=int(rng.integers(2**31)), lr1=[2 * int(rng.integers(2, 5)), int(rng.integers(2, 6)), 2 * int(rng.integers(1, 5))], en="<>"[i % 2],
                   nscal=int(rng.choice([0, 0, 1, 2, 5])), fltype=int(rng.choice([0, 1, 2, 3, -1, -2, 6, 20, -20])))


def run_C22(c):
    import contextlib
    import io

    with contextlib.redirect_stdout(io.StringIO()):
        (run_plane if c["kind"] == "plane" else run_dns)(c)


def run_plane(c):
    from pymech.simsonsuite import readplane

    rng, en, nn = rng_of(c), c["en"], c["nn"]
    nd = len(nn)
    n = int(np.prod(nn))
    rec = lambda b: struct.pack(en + "i", len(b)) + b + struct.pack(en + "i", len(b))
    xs = [rng.standard_normal(n) for _ in range(nd)]
    d = rng.standard_normal(n)
    raw = rec(struct.pack(en + "%di" % nd, *nn)) + b"".join(rec(struct.pack(en + "%dd" % n, *x)) for x in xs) + rec(struct.pack(en + "%dd" % n, *d))
    with Tmp() as f:
        open(f(), "wb").write(raw)
        x, dd, n2, ndim = readplane(f())
    need(list(n2) == nn and ndim == nd, "extents %s, dimensions %s", n2, ndim)
    need(np.array_equal(np.asarray(dd), np.reshape(d, nn, "F")), "data differ")
    x = np.asarray(x)
    if nd == 1:
        need(np.array_equal(x.reshape(nn), xs[0]), "coordinates differ")
    else:
        for k in range(nd):
            need(np.array_equal(x[k], np.reshape(xs[k], nn, "F")), "coordinates %s differ", k)


def run_dns(c):
    from pymech.simsonsuite import readdns

    rng, en = rng_of(c), c["en"]
    nx, ny, nz = c["lr1"]
    ns, fl = c["nscal"], c["fltype"]
    rec = lambda b: struct.pack(en + "i", len(b)) + b + struct.pack(en + "i", len(b))
    D = lambda *v: struct.pack(en + "%dd" % len(v), *v)
    I = lambda *v: struct.pack(en + "%di" % len(v), *v)
    Re, xl, zl, t = [float(abs(v)) + 0.5 for v in rng.standard_normal(4)]
    prm = [(float(a), float(b)) for a, b in rng.standard_normal((ns, 2))]
    raw = rec(D(Re) + I(0) + D(xl, zl, t, 0.0) + b"".join(D(*p) for p in prm))
    dstar = 0.37
    raw += rec(I(nx, ny, nz) + I(0)) + rec(I(fl) + D(dstar))
    if fl == -1:
        raw += rec(D(0.1))
    if fl == -2:
        raw += rec(D(0.1, 0.2))
    if 6 <= fl <= 9:
        raw += rec(D(0.1, 0.2, 0.3, 0.4))
    if abs(fl) == 20:
        raw += rec(D(*([0.5] * ns)))
    fields = []
    body = b""
    for v in range(3 + ns):
        # band limited physical field without the oddball modes
        x = np.arange(nx) * 2 * np.pi / nx
        z = np.arange(nz) * 2 * np.pi / nz
        F = np.zeros((nz, ny, nx))
        for kx in range(nx // 2):
            for kz in range(-(nz // 2) + 1, nz // 2):
                a, b = rng.standard_normal((2, ny))
                F += (a * np.cos(kx * x[None, :, None] + kz * z[:, None, None]) + b * np.sin(kx * x[None, :, None] + kz * z[:, None, None])).transpose(0, 2, 1)
        fields.append(F)
        H = np.fft.rfft2(F, axes=(0, 2)) if False else np.fft.fft(np.fft.rfft(F, axis=2), axis=0) / (nx * nz)
        sgn = (-1) ** v if v < 3 else 1
        for iz in range(nz):
            # SIMSON stores z modes as 0..nz/2, then the negative ones in the order used by the format
            izf = iz if iz < nz / 2 else nz // 2 * 3 - (iz + 1)
            for iy in range(ny):
                row = []
                for ix in range(nx // 2):
                    q = H[izf, iy, ix] * sgn
                    row += [float(q.real), float(q.imag)]
                body += rec(D(*row))
    raw += body
    # records are separated by end and start markers; the reader starts inside the first record
    with Tmp() as f:
        open(f(), "wb").write(raw)
        r = readdns(f())
    need(not isinstance(r, int), "the file is refused (%s)", r)
    need(r.time == t and tuple(r.lr1) == (nx, ny, nz) and r.nel == 1, "metadata %s", (r.time, r.lr1))
    need(r.var[4] == ns and r.elem[0].scal.shape[0] == ns, "scalars %s", r.var)
    el = r.elem[0]
    need(np.allclose(el.pos[0], (xl / nx * np.arange(nx))[None, None, :]), "x grid")
    need(np.allclose(el.pos[1], (2 / dstar * (1 - np.cos(np.pi * np.arange(ny) / (ny - 1))) / 2)[None, :, None]), "y grid")
    need(np.allclose(el.pos[2], (zl / nz * (np.arange(nz) - nz / 2))[:, None, None]), "z grid")
    for v in range(3 + ns):
        got = el.vel[v] if v < 3 else el.scal[v - 3]
        need(np.allclose(got, fields[v], atol=1e-9), "field %s differs from the stored coefficients (max %s)", v, float(np.abs(got - fields[v]).max()))


# ------------------------------------------------------------------ dataset
def gen_C23(rng, tier):
    good = ["a.f00001", "a.fld", "/x/y.z/abc0.f12345", "chan.f00000.f00009", "c .fld", "a\nb.f00001", "a\n.fld", "..f00001", "a.fld.fld", ".fld", "d.fld/a.f54321"]
    bad = ["a.f90", "a.f", "a.fort", "a.f0000", "a.f000001", "x.f00001/a.nc", "a.fld.nc", "a.f00001.bak", "af00001", "a.F00001", "a.fldx", "a.f1234x", "fld", "a.re2", "a.f0000l", "a.f00001 ", "a.f00001~", "a.fld\n", "a.f00001\n", "a.f00001\nb"]
    for p in good:
        yield dict(kind="ext", path=p, ok=True)
    for p in bad:
        yield dict(kind="ext", path=p, ok=False)
    al = "f.ld019a/"
    for i in range(300 if tier == "quick" else 5000):
        s = "".join(al[int(k)] for k in rng.integers(0, len(al), 4)) + str(rng.choice([".f00012", ".fld", "", ".f1", "."])) + "".join(al[int(k)] for k in rng.integers(0, len(al), int(rng.integers(0, 3))))
        import re

        ok = len(s) >= 4 and (s.endswith(".fld") or (len(s) >= 7 and s[-7:-5] == ".f" and all(ch in "0123456789" for ch in s[-5:])))
        yield dict(kind="ext", path=s, ok=ok)
    for i in range(16 if tier == "quick" else 120):
        n = [int(k) for k in rng.integers(1, 4, 3)]
        d = 2 if i % 4 == 3 else 3
        lr = [int(k) for k in rng.integers(2, 5, 3)]
        turn = i % 8 == 5
        if i % 3 == 0 or turn:
            lr = [lr[0]] * 3
        if d == 2:
            lr[2] = n[2] = 1
        # axes of the box that run backwards; an element turned against the axes
        flip = [bool(k) for k in rng.integers(0, 2, 3)] if i % 2 else [False] * 3
        sc = int(rng.choice([0, 1, 3, 11]))
        yield dict(kind="box", seed=int(rng.integers(2**31)), n=n, lr=lr, dim=d, flip=flip, turn=turn, var=[d, int(rng.choice([0, d, d])), int(rng.integers(0, 2)), int(rng.integers(0, 2)), sc],
                   wdsz=int(rng.choice([4, 8])), endian=str(rng.choice(["little", "big"])), drop=i % 4, files=1 + i % 2)


def run_C23(c):
    import pathlib

    import pymech.dataset as pd

    if c["kind"] == "ext":
        for p in (c["path"], pathlib.PurePosixPath(c["path"]) if c["path"].strip("/.") and not c["path"].endswith(("/", ".")) and "//" not in c["path"] and "/." not in c["path"] and not c["path"].startswith("./") else c["path"]):
            got = bool(pd.can_open_nek_dataset(p))
            need(got == c["ok"], "%r is %s", str(p), "recognised" if got else "not recognised")
            need(bool(pd.PymechXarrayBackend().guess_can_open(p)) == c["ok"], "%r: the backend disagrees", str(p))
        if not c["ok"]:
            try:
                pd.open_dataset(c["path"])
            except NotImplementedError:
                return
            need(False, "%r is opened", c["path"])
        return
    rng = rng_of(c)
    n, lr = c["n"], c["lr"]
    nel = n[0] * n[1] * n[2]
    m = U.random_field(rng, c["dim"], nel, lr, c["var"], c["wdsz"], c["endian"])
    ax = []
    for d in range(3):
        gl = np.linspace(0, 1, lr[d]) ** 1.3
        ax.append([(i + gl - 0.7 * d) * (1.0 + d) for i in range(n[d])])
        if c["flip"][d]:
            ax[d] = [-x for x in ax[d]]
    num = [int(k) for k in rng.permutation(nel)]
    it = 0
    for k in range(n[2]):
        for j in range(n[1]):
            for i in range(n[0]):
                el = m.elem[num[it]]
                it += 1
                el.pos[0] = ax[0][i][None, None, :]
                el.pos[1] = ax[1][j][None, :, None]
                el.pos[2] = ax[2][k][:, None, None] if c["dim"] == 3 else 0
                if c["turn"]:
                    el.pos[0], el.pos[1] = ax[0][i][None, :, None], ax[1][j][None, None, :]
    with Tmp() as f:
        from pymech.neksuite import readnek, writenek

        writenek(f("b0.f00001"), m)
        drop = [None, "uy", ["uy", "xmesh"], ["ux"]][c["drop"]]
        kw = dict(drop_variables=drop) if drop else {}
        m2 = readnek(f("b0.f00001"))
        # values on shared faces: the elements disagree there, so make the points distinct by shrinking
        for el in m2.elem:
            for d in range(c["dim"]):
                cc = el.pos[d].mean()
                el.pos[d] = cc + (el.pos[d] - cc) * 0.9
        t = [1.5, 2.25]
        read = []
        for k in range(2):
            m2.time = t[k]
            for el in m2.elem:
                el.temp[...] += k
            writenek(f("b0.f0000%d" % (2 + k)), m2)
            read.append(readnek(f("b0.f0000%d" % (2 + k))))
        try:
            dss = [pd.open_dataset(f("b0.f00002"), **kw).load()]
            if c["files"] == 2:
                ds = pd.open_mfdataset([f("b0.f00002"), f("b0.f00003")], **kw).load()
                need(ds.sizes["time"] == 2, "%s times in two files", ds.sizes["time"])
                dss += [ds.isel(time=0), ds.isel(time=1)]
        except NotImplementedError:
            need(c["turn"] and lr[0] > 1, "refused")
            return
    for ds, k in zip(dss, (0, 0, 1)):
        box(c, ds, read[k], drop)


def box(c, ds, m2, drop):
    n, lr = c["n"], c["lr"]
    need(float(ds.time) == m2.time, "time %s, file has %s", float(ds.time), m2.time)
    names = {"xmesh": ("pos", 0), "ymesh": ("pos", 1), "zmesh": ("pos", 2), "ux": ("vel", 0), "uy": ("vel", 1), "uz": ("vel", 2)}
    if c["var"][2]:
        names["pressure"] = ("pres", 0)
    if c["var"][3]:
        names["temperature"] = ("temp", 0)
    for s in range(c["var"][4]):
        names["s%02d" % (s + 1)] = ("scal", s)
    for v in [] if drop is None else [drop] if isinstance(drop, str) else drop:
        need(v not in ds, "dropped variable %s is present", v)
        names.pop(v)
    need(set(ds.data_vars) == set(names), "variables %s, expected %s", sorted(ds.data_vars), sorted(names))
    if c["turn"]:
        for e, el in enumerate(m2.elem):
            for q in np.ndindex(*el.pos.shape[1:]):
                at = dict(zip("xyz", (float(el.pos[d][q]) for d in range(3))))
                for nm, (a, k) in names.items():
                    need(float(ds[nm].sel(at, method="nearest")) == getattr(el, a)[k][q], "%s at %s differs from the file", nm, at)
        return
    lens = [n[d] * lr[d] for d in range(3)]
    X, Y, Z = (np.asarray(ds[a]) for a in "xyz")
    need([X.size, Y.size, Z.size] == lens, "grid sizes %s", (X.size, Y.size, Z.size))
    for el in m2.elem:
        ix = [int(np.argmin(abs(X - v))) for v in el.pos[0, 0, 0, :]]
        iy = [int(np.argmin(abs(Y - v))) for v in el.pos[1, 0, :, 0]]
        iz = [int(np.argmin(abs(Z - v))) for v in el.pos[2, :, 0, 0]]
        need(np.allclose(X[ix], el.pos[0, 0, 0, :], atol=1e-7) and np.allclose(Y[iy], el.pos[1, 0, :, 0], atol=1e-7) and np.allclose(Z[iz], el.pos[2, :, 0, 0], atol=1e-7), "coordinates differ")
        for nm, (a, k) in names.items():
            v = ds[nm].transpose("z", "y", "x").values[np.ix_(iz, iy, ix)]
            need(np.array_equal(v, getattr(el, a)[k]), "%s differs from the file", nm)
