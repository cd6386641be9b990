"""Independent encoders of the Nek5000 field format (written from the format's description)."""
import struct


def token_header(wdsz, orders, nel, nelf, time, istep, fid, nf, vs, loose=False):
    t = ["#std", str(wdsz)] + [str(o) for o in orders] + [str(nel), str(nelf), "%.13E" % time, str(istep), str(fid), str(nf), vs]
    s = (" " if not loose else "  ").join(t)
    return s.encode().ljust(132)


def varstring(var):
    return "".join(s for s, v in zip(("X", "U", "P", "T", "S%02d" % var[4]), var) if v)


def floats(vals, wdsz, en):
    return struct.pack(en + str(len(vals)) + ("f" if wdsz == 4 else "d"), *vals)


def encode(fld, ndim, orders, var, wdsz, en, elmap, vals, time, istep, nel=None, fid=0, nf=1, meta=True, loose=False):
    """vals: dict (name, element number starting at 1, component) -> flat list, x fastest"""
    out = [token_header(wdsz, orders, nel or len(elmap), len(elmap), time, istep, fid, nf, varstring(var), loose)]
    out.append(struct.pack(en + "f", 6.54321))
    out.append(struct.pack(en + "%di" % len(elmap), *elmap))
    order = elmap if fld is None else fld
    names = ("pos", "vel", "pres", "temp")
    for n, k in zip(names, var[:4]):
        for e in order:
            for c in range(k):
                out.append(floats(vals[n, e, c], wdsz, en))
    for c in range(var[4]):
        for e in order:
            out.append(floats(vals["scal", e, c], wdsz, en))
    if meta and ndim == 3:
        for n, k in zip(names + ("scal",), var):
            for e in order:
                for c in range(k):
                    v = vals[n, e, c]
                    out.append(struct.pack(en + "2f", min(v), max(v)))
    return b"".join(out)
