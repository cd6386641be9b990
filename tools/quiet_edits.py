"""name -> {props, edits: [(file under src/pymech, old, new)]}"""
F, M = "neksuite/field.py", "neksuite/map.py"
EDITS = {
    "read-with-helper-indices": {"props": ["C02", "C03"], "all": True, "edits": [
        (F, "def readnek(fname, dtype=\"float64\", skip_vars=()):", '''def _element_order(elmap, nel):
    """Indices of the elements in the order of the file"""
    if 0 in elmap:
        return range(nel)
    return [idx - 1 for idx in elmap]


def readnek(fname, dtype="float64", skip_vars=()):'''),
        (F, '''            if 0 in elmap:
                element_idxs = range(h.nb_elems_file)
            else:
                element_idxs = (idx - 1 for idx in elmap)

            for iel in element_idxs:
''', '''            for iel in _element_order(elmap, h.nb_elems_file):
''')]},
    "read-with-statement": {"props": ["C03", "C04"], "edits": [
        (F, '''    etagb = infile.read(4)
    etagL = struct.unpack("<f", etagb)[0]
    etagL = int(etagL * 1e5) / 1e5
    etagB = struct.unpack(">f", etagb)[0]
    etagB = int(etagB * 1e5) / 1e5
    if etagL == 6.54321:
        logger.debug("Reading little-endian file\\n")
        emode = "<"
    elif etagB == 6.54321:
        logger.debug("Reading big-endian file\\n")
        emode = ">"
    else:
        raise ValueError("Could not interpret endianness")

    #
    # read element map for the file
    elmap = infile.read(4 * h.nb_elems_file)''', '''    emode = _endian_mode(infile.read(4))

    #
    # read element map for the file
    elmap = infile.read(4 * h.nb_elems_file)'''),
        (F, '''# ==============================================================================
def readnek(''', '''def _endian_mode(etagb):
    for mode in "<", ">":
        tag = struct.unpack(mode + "f", etagb)[0]
        if int(tag * 1e5) / 1e5 == 6.54321:
            return mode
    raise ValueError("Could not interpret endianness")


# ==============================================================================
def readnek(''')]},
    "read-while-loop": {"props": ["C03"], "edits": [
        (F, '''                el = data.elem[iel]
                for idim in range(nb_vars):
                    if skip_condition[idim]:
                        skip_elements()
                    else:
                        read_file_into_data(el.pos, idim)
''', '''                idim = 0
                while idim < nb_vars:
                    if not skip_condition[idim]:
                        read_file_into_data(data.elem[iel].pos, idim)
                    else:
                        skip_elements()
                    idim += 1
''')]},
    "read-fromfile": {"props": ["C03"], "edits": [
        (F, '''        fi = infile.read(bytes_elem)
        fi = np.frombuffer(fi, dtype=emode + h.realtype, count=h.nb_pts_elem)
''', '''        fi = np.fromfile(infile, dtype=emode + h.realtype, count=h.nb_pts_elem)
''')]},
    "read-loop-elements-by-field": {"props": ["C03"], "edits": [
        (F, '''                for ivar in range(nb_vars):
                    read_file_into_data(el.pres, ivar)
''', '''                pres = el.pres
                for ivar in range(len(pres)):
                    read_file_into_data(pres, ivar)
''')]},
    "read-elmap-numpy": {"props": ["C03"], "edits": [
        (F, '''    elmap = infile.read(4 * h.nb_elems_file)
    elmap = struct.unpack(emode + h.nb_elems_file * "i", elmap)
''', '''    elmap = np.frombuffer(infile.read(4 * h.nb_elems_file), dtype=emode + "i4")
''')]},
    "read-elmap-fstring": {"props": ["C03"], "edits": [
        (F, '''struct.unpack(emode + h.nb_elems_file * "i", elmap)''', '''struct.unpack(f"{emode}{h.nb_elems_file}i", elmap)''')]},
    "read-data-order": {"props": ["C04"], "edits": [
        (F, '''    data.time = h.time
    data.istep = h.istep
    data.wdsz = h.wdsz
    data.elmap = np.array(elmap, dtype=np.int32)
    if emode == "<":
        data.endian = "little"
    elif emode == ">":
        data.endian = "big"
''', '''    data.endian = "little" if emode == "<" else "big"
    data.elmap = np.array(elmap, dtype=np.int32)
    data.wdsz, data.istep, data.time = h.wdsz, h.istep, h.time
''')]},
    "write-one-helper": {"props": ["C01", "C02"], "edits": [
        (F, '''    for iel in data.elmap:
        for idim in range(data.var[0]):  # if var[0] == 0, geometry is not written
            write_ndarray_to_file(data.elem[iel - 1].pos[idim, :, :, :])
''', '''    elements = [data.elem[iel - 1] for iel in data.elmap]

    def write_field(name, nvar):
        for el in elements:
            values = getattr(el, name)
            for i in range(nvar):
                write_ndarray_to_file(values[i, :, :, :])

    write_field("pos", data.var[0])
'''),
        (F, '''    for iel in data.elmap:
        for idim in range(data.var[1]):  # if var[1] == 0, velocity is not written
            write_ndarray_to_file(data.elem[iel - 1].vel[idim, :, :, :])
''', '''    write_field("vel", data.var[1])
'''),
        (F, '''    for iel in data.elmap:
        for ivar in range(data.var[2]):  # if var[2] == 0, pressure is not written
            write_ndarray_to_file(data.elem[iel - 1].pres[ivar, :, :, :])
''', '''    write_field("pres", data.var[2])
''')]},
    "write-tobytes": {"props": ["C01", "C02"], "edits": [
        (F, '''        if data.wdsz == 4:
            correct_endianness(a.astype(np.float32)).tofile(outfile)
        else:
            correct_endianness(a.astype(np.float64)).tofile(outfile)
''', '''        dtype = np.float32 if data.wdsz == 4 else np.float64
        outfile.write(correct_endianness(a.astype(dtype)).tobytes())
''')]},
    "write-tag-struct": {"props": ["C02"], "edits": [
        (F, '''    endianbytes = np.array([6.54321], dtype=np.float32)
    correct_endianness(endianbytes).tofile(outfile)
''', '''    outfile.write(struct.pack((">" if data.endian == "big" else "<" if data.endian == "little" else "=") + "f", 6.54321))
''')]},
    "write-with": {"props": ["C01"], "edits": [
        (F, '''    # close file
    outfile.close()
''', '''    # flush and close file
    outfile.flush()
    outfile.close()
''')]},
    "header-format-method": {"props": ["C02", "C05"], "edits": [
        (F, '''        header = "#std %1i %2i %2i %2i %10i %10i %20.13E %9i %6i %6i %s" % (
            self.wdsz,
            self.orders[0],
            self.orders[1],
            self.orders[2],
            self.nb_elems,
            self.nb_elems_file,
            self.time,
            self.istep,
            self.fid,
            self.nb_files,
            self.variables,
        )
        return header.ljust(132).encode("utf-8")
''', '''        lx, ly, lz = self.orders
        header = (
            f"#std {self.wdsz:1d} {lx:2d} {ly:2d} {lz:2d} {self.nb_elems:10d} {self.nb_elems_file:10d}"
            f" {self.time:20.13E} {self.istep:9d} {self.fid:6d} {self.nb_files:6d} {self.variables}"
        )
        return f"{header:132s}".encode()
''')]},
    "header-nb-vars": {"props": ["C05"], "edits": [
        (F, '''        def nb_scalars():
            index_s = variables.index("S")
            return int(variables[index_s + 1 :])

        nb_vars = (
            nb_dims if "X" in variables else 0,
            nb_dims if "U" in variables else 0,
            1 if "P" in variables else 0,
            1 if "T" in variables else 0,
            nb_scalars() if "S" in variables else 0,
        )

        return nb_vars
''', '''        nb_scalars = 0
        if "S" in variables:
            _, digits = variables.split("S")
            nb_scalars = int(digits)

        return (
            nb_dims * ("X" in variables),
            nb_dims * ("U" in variables),
            int("P" in variables),
            int("T" in variables),
            nb_scalars,
        )
''')]},
    "header-variables-loop": {"props": ["C05", "C02"], "edits": [
        (F, '''        str_vars = ("X", "U", "P", "T", f"S{nb_vars[4]:02d}")
        variables = (str_vars[i] if nb_vars[i] > 0 else "" for i in range(5))
        return "".join(variables)
''', '''        variables = ""
        for letter, nb in zip("XUPT", nb_vars):
            if nb > 0:
                variables += letter
        if nb_vars[4] > 0:
            variables += "S%02d" % nb_vars[4]
        return variables
''')]},
    "read-header-open": {"props": ["C05", "C04"], "edits": [
        (F, '''    if isinstance(path_or_file_obj, (str, os.PathLike)):
        with Path(path_or_file_obj).open("rb") as fp:
            header = fp.read(132).split()
    elif isinstance(path_or_file_obj, io.BufferedReader):
        fp = path_or_file_obj
        header = fp.read(132).split()
    else:
        raise ValueError("Should be a path or opened file object in 'rb' mode.")

    logger.debug(b"Header: " + b" ".join(header))
    if len(header) < 12:
''', '''    if isinstance(path_or_file_obj, io.BufferedReader):
        raw = path_or_file_obj.read(132)
    elif isinstance(path_or_file_obj, (str, os.PathLike)):
        with open(path_or_file_obj, "rb") as fp:
            raw = fp.read(132)
    else:
        raise ValueError("Should be a path or opened file object in 'rb' mode.")

    header = raw.split()
    if not len(header) >= 12:
''')]},
    "map-single-array": {"props": ["C21"], "edits": [
        (M, '''    for iel in range(nel):
        fi = np.frombuffer(
            buf,
            dtype=emode + inttype,
            count=nvert + 1,
            offset=(nvert + 1) * wdsz * iel,
        )
        procmap[iel] = fi[0]
        cell[iel, :] = fi[1:]
''', '''    table = np.frombuffer(buf, dtype=emode + inttype, count=(nvert + 1) * nel).reshape(nel, nvert + 1)
    procmap[:] = table[:, 0]
    cell[:, :] = table[:, 1:]
''')]},
    "map-unpack": {"props": ["C21"], "edits": [
        (M, '''    nvert = int(npts / nel)  # 2**ldim
    buf = infile.read((nvert + 1) * wdsz * nel)
''', '''    nvert = npts // nel  # 2**ldim
    record = (nvert + 1) * wdsz
    buf = infile.read(nel * record)
'''),
        (M, '''    for iel in range(nel):
        fi = np.frombuffer(
            buf,
            dtype=emode + inttype,
            count=nvert + 1,
            offset=(nvert + 1) * wdsz * iel,
        )
        procmap[iel] = fi[0]
        cell[iel, :] = fi[1:]
''', '''    for iel in range(nel):
        values = struct.unpack_from(emode + (nvert + 1) * inttype, buf, record * iel)
        procmap[iel] = values[0]
        for ivert in range(nvert):
            cell[iel, ivert] = values[ivert + 1]
''')]},
    "map-read-per-element": {"props": ["C21"], "edits": [
        (M, '''    buf = infile.read((nvert + 1) * wdsz * nel)
''', ''''''),
        (M, '''        fi = np.frombuffer(
            buf,
            dtype=emode + inttype,
            count=nvert + 1,
            offset=(nvert + 1) * wdsz * iel,
        )
''', '''        fi = np.frombuffer(infile.read((nvert + 1) * wdsz), dtype=emode + inttype)
''')]},
}

from quiet_edits_mesh import EDITS as MESH_EDITS

EDITS.update(MESH_EDITS)
