"""more edits: mesh functions; name -> {props, edits}"""
C, T = "core.py", "meshtools.py"

EDITS = {
    "merge-helper": {"props": ["C12", "C20"], "edits": [
        (C, '''                            for ibc in range(nbc):
                                elem0.bcs[ibc, iface0][0] = "E"
                                elem1.bcs[ibc, iface1][0] = "E"
                                elem0.bcs[ibc, iface0][3] = iel1 + 1
                                elem1.bcs[ibc, iface1][3] = iel0 + 1
                                elem0.bcs[ibc, iface0][4] = iface1 + 1
                                elem1.bcs[ibc, iface1][4] = iface0 + 1
                            nchanges = nchanges + 1
''', '''                            self._connect(nbc, "E", iel0, iface0, iel1, iface1)
                            nchanges += 1
'''),
        (C, '''                                for ibc in range(nbc):
                                    elem_p0_bcs = self.elem[iel_p0].bcs[ibc, iface_p0]
                                    elem_p1_bcs = self.elem[iel_p1].bcs[ibc, iface_p1]

                                    elem_p0_bcs[0] = "P"
                                    elem_p1_bcs[0] = "P"
                                    elem_p0_bcs[3] = iel_p1 + 1
                                    elem_p1_bcs[3] = iel_p0 + 1
                                    elem_p0_bcs[4] = iface_p1 + 1
                                    elem_p1_bcs[4] = iface_p0 + 1
''', '''                                self._connect(nbc, "P", iel_p0, iface_p0, iel_p1, iface_p1)
'''),
        (C, '''    def get_points(self):
''', '''    def _connect(self, nbc, kind, iel, iface, jel, jface):
        for ibc in range(nbc):
            bc_i = self.elem[iel].bcs[ibc, iface]
            bc_j = self.elem[jel].bcs[ibc, jface]
            bc_i[0], bc_j[0] = kind, kind
            bc_i[3], bc_i[4] = jel + 1, jface + 1
            bc_j[3], bc_j[4] = iel + 1, iface + 1

    def get_points(self):
''')]},
    "merge-nested-loops": {"props": ["C12"], "edits": [
        (C, '''        for iel0, iface0 in product(range(nel1, self.nel), range(nfaces)):
            elem0 = self.elem[iel0]
            bc0 = elem0.bcs[0, iface0][0]

            if bc0 != "E" and not (ignore_empty and bc0 == ""):
''', '''        faces = [(iel, iface) for iel in range(nel1, self.nel) for iface in range(nfaces)]
        for iel0, iface0 in faces:
            elem0 = self.elem[iel0]
            bc0 = elem0.bcs[0, iface0][0]

            if bc0 != "E" and not (ignore_empty and bc0 == ""):
''')]},
    "merge-renamed": {"props": ["C12"], "all": True, "edits": [
        (C, "iel0", "iel_new"), (C, "iface1", "jface")]},
    "merge-continue": {"props": ["C12"], "edits": [
        (C, '''                    bc1 = elem1.bcs[0, iface1][0]

                    if bc1 != "E" and not (ignore_empty and bc1 == ""):
''', '''                    bc1 = elem1.bcs[0, iface1][0]
                    candidate = bc1 != "E"
                    if ignore_empty and bc1 == "":
                        candidate = False

                    if candidate:
'''),
        (C, '''                        dist = np.sqrt((x1 - x0) ** 2 + (y1 - y0) ** 2 + (z1 - z0) ** 2)
                        dist_ref = min(elem0.smallest_edge(), elem1.smallest_edge())
                        if dist <= tol * dist_ref:
                            # reconnect''', '''                        dx, dy, dz = x0 - x1, y0 - y1, z0 - z1
                        max_dist = min(elem1.smallest_edge(), elem0.smallest_edge()) * tol
                        if not np.sqrt(dx * dx + dy * dy + dz * dz) > max_dist:
                            # reconnect''')]},
    "merge-hoisted": {"props": ["C12"], "edits": [
        (C, '''                # boundary element, look if it can be connected to something
''', '''                # boundary element, look if it can be connected to something
                centre0 = elem0.face_center(iface0)
                length0 = elem0.smallest_edge()
'''),
        (C, '''                        x0, y0, z0 = elem0.face_center(iface0)
                        x1, y1, z1 = elem1.face_center(iface1)
                        dist =''', '''                        x0, y0, z0 = centre0
                        x1, y1, z1 = elem1.face_center(iface1)
                        dist ='''),
        (C, '''                        dist_ref = min(elem0.smallest_edge(), elem1.smallest_edge())
                        if dist <= tol * dist_ref:
                            # reconnect''', '''                        dist_ref = min(length0, elem1.smallest_edge())
                        if dist <= tol * dist_ref:
                            # reconnect''')]},
    "generate-helper": {"props": ["C14"], "edits": [
        (T, '''                                for ibc in range(mesh.nbc):
                                    # increment counter for diagnostics
                                    nconnect = nconnect + 1
                                    # write the connectivity information in both directions
                                    el1.bcs[ibc, iface1][0] = "E"
                                    el1.bcs[ibc, iface1][1] = iel1 + 1
                                    el1.bcs[ibc, iface1][2] = iface1 + 1
                                    el1.bcs[ibc, iface1][3] = iel2 + 1
                                    el1.bcs[ibc, iface1][4] = iface2 + 1
                                    el2.bcs[ibc, iface2][0] = "E"
                                    el2.bcs[ibc, iface2][1] = iel2 + 1
                                    el2.bcs[ibc, iface2][2] = iface2 + 1
                                    el2.bcs[ibc, iface2][3] = iel1 + 1
                                    el2.bcs[ibc, iface2][4] = iface1 + 1
''', '''                                nconnect += mesh.nbc
                                for ibc in range(mesh.nbc):
                                    # write the connectivity information in both directions
                                    set_internal(el1.bcs[ibc, iface1], iel1, iface1, iel2, iface2)
                                    set_internal(el2.bcs[ibc, iface2], iel2, iface2, iel1, iface1)
'''),
        (T, '''    # generate lookup tables for face centers and the faces that are already connected
''', '''    def set_internal(bc, iel, iface, jel, jface):
        bc[0] = "E"
        for i, val in enumerate((iel, iface, jel, jface)):
            bc[i + 1] = val + 1

    # generate lookup tables for face centers and the faces that are already connected
''')]},
    "generate-enumerate": {"props": ["C14"], "edits": [
        (T, '''    for iel1 in range(mesh.nel):
        el1 = mesh.elem[iel1]
        lmin1 = scales[iel1]
        for iface1''', '''    for iel1, el1 in enumerate(mesh.elem):
        lmin1 = scales[iel1]
        for iface1''')]},
    "generate-vector-distance": {"props": ["C14"], "edits": [
        (T, '''                            xf1, yf1, zf1 = fc[iel2, iface2, :]
                            dist = np.sqrt(
                                (xf1 - xf0) ** 2 + (yf1 - yf0) ** 2 + (zf1 - zf0) ** 2
                            )
''', '''                            delta = fc[iel2, iface2, :] - fc[iel1, iface1, :]
                            dist = np.sqrt(np.sum(delta**2))
'''),
        (T, '''                xf0, yf0, zf0 = fc[iel1, iface1, :]
''', '')]},
    "generate-norm": {"props": ["C14"], "edits": [
        (T, '''                            dist = np.sqrt(
                                (xf1 - xf0) ** 2 + (yf1 - yf0) ** 2 + (zf1 - zf0) ** 2
                            )
''', '''                            dist = np.linalg.norm((xf1 - xf0, yf1 - yf0, zf1 - zf0))
''')]},
    "delete-nonzero": {"props": ["C14", "C08"], "edits": [
        (T, '''    for ibc in range(mesh.nbc):
        for el in mesh.elem:
            for iface in range(6):
                bc = el.bcs[ibc, iface]
                if bc[0] == "E":
                    ndelete = ndelete + 1
                    bc[0] = ""
                    for i in range(1, 8):
                        bc[i] = 0
''', '''    for el in mesh.elem:
        for ibc, iface in product(range(mesh.nbc), range(6)):
            bc = el.bcs[ibc, iface]
            if bc[0] != "E":
                continue
            bc[0] = ""
            for i in range(7):
                bc[i + 1] = 0
            ndelete += 1
''')]},
    "keep-comprehension": {"props": ["C13", "C20"], "edits": [
        (T, '''    new_elems = []
    for iel in elems:
        new_elems.append(mesh.elem[iel])
    mesh.elem = new_elems
''', '''    mesh.elem = [mesh.elem[iel] for iel in elems]
''')]},
    "keep-order-of-writes": {"props": ["C13"], "edits": [
        (T, '''        offset = offsets[iel]
        bc = mesh.elem[iel].bcs[ibc, iface][0]
        mesh.elem[iel].bcs[ibc, iface][1] = iel - offset + 1
        if bc == "E" or bc == "P":
            connected_iel = int(mesh.elem[iel].bcs[ibc, iface][3]) - 1
            if kept[connected_iel]:
                # update the index of the connected element
                mesh.elem[iel].bcs[ibc, iface][3] -= offsets[connected_iel]
            else:
                # delete the boundary condition or replace it with an external one
                mesh.elem[iel].bcs[ibc, iface][0] = external_bc
                mesh.elem[iel].bcs[ibc, iface][3] = 0
                mesh.elem[iel].bcs[ibc, iface][4] = 0
''', '''        face = mesh.elem[iel].bcs[ibc, iface]
        face[1] = 1 + iel - offsets[iel]
        if face[0] in ("E", "P"):
            jel = int(face[3]) - 1
            if not kept[jel]:
                # delete the boundary condition or replace it with an external one
                face[3] = 0
                face[4] = 0
                face[0] = external_bc
            else:
                face[3] = face[3] - offsets[jel]
''')]},
    "update-ncurv-sum": {"props": ["C13", "C17", "C20"], "edits": [
        (C, '''        ncurv = 0
        for el in self.elem:
            for iedge in range(12):
                if el.ccurv[iedge] != "":
                    ncurv = ncurv + 1
        self.ncurv = ncurv
''', '''        self.ncurv = sum(1 for el in self.elem for ccurv in el.ccurv if ccurv != "")
''')]},
    "offset-helper": {"props": ["C10", "C12"], "edits": [
        (C, '''            bc = el.bcs[ibc, iface][0]
            if bc == "E" or bc == "P":
                if (
                    int(el.bcs[ibc, iface][3]) > iel_min
                ):  # the connected element number is 1-indexed
                    el.bcs[ibc, iface][3] += offset
''', '''            face = el.bcs[ibc, iface]
            connected = face[0] in ["E", "P"]
            if connected and int(face[3]) > iel_min:
                # the connected element number is 1-indexed
                face[3] = face[3] + offset
''')]},
    "rotate-matrix": {"props": ["C16"], "edits": [
        (T, '''    cost = cos(theta)
    sint = sin(theta)
    for el in mesh.elem:
''', '''    cost = cos(theta)
    sint = sin(theta)

    def turned(x, y):
        return x0 + cost * (x - x0) - sint * (y - y0), y0 + sint * (x - x0) + cost * (y - y0)

    for el in mesh.elem:
'''),
        (T, '''        x = el.pos[0, ...] - x0
        y = el.pos[1, ...] - y0
        el.pos[0, ...] = x0 + cost * x - sint * y
        el.pos[1, ...] = y0 + sint * x + cost * y
''', '''        el.pos[0, ...], el.pos[1, ...] = turned(el.pos[0, ...], el.pos[1, ...])
'''),
        (T, '''                x = el.curv[edge, 0] - x0
                y = el.curv[edge, 1] - y0
                el.curv[edge, 0] = x0 + cost * x - sint * y
                el.curv[edge, 1] = y0 + sint * x + cost * y
''', '''                el.curv[edge, :2] = turned(*el.curv[edge, :2])
''')]},
    "box-set-helper": {"props": ["C11"], "edits": [
        (T, '''            # bottom face
            if j != 0:
                el.bcs[ibc, 0][0] = "E"
                el.bcs[ibc, 0][1] = elnum(i, j, nx, ny) + 1
                el.bcs[ibc, 0][2] = 1
                el.bcs[ibc, 0][3] = elnum(i, j - 1, nx, ny) + 1
                el.bcs[ibc, 0][4] = 3
''', '''            # bottom face
            if j > 0:
                below = elnum(i, j - 1, nx, ny)
                for k, val in enumerate(["E", elnum(i, j, nx, ny) + 1, 1, below + 1, 3]):
                    el.bcs[ibc, 0][k] = val
'''),
        (T, '''        x0 = xmin + lx * i / nx
        x1 = xmin + lx * (i + 1) / nx
        y0''', '''        x0, x1 = (xmin + lx * k / nx for k in (i, i + 1))
        y0''')]},
    "box-element-loop": {"props": ["C11", "C20"], "edits": [
        (T, '''    for i, j in product(range(nx), range(ny)):
        # coordinates of corners
''', '''    for iel, el in enumerate(box.elem):
        i, j = iel % nx, iel // nx
        # coordinates of corners
'''),
        (T, '''        # assign the coordinates
        el = box.elem[elnum(i, j, nx, ny)]
        el.pos[0, 0, :, 0] = x0
''', '''        # assign the coordinates
        el.pos[0, 0, :, 0] = x0
''')]},
    "extrude-zip": {"props": ["C09"], "edits": [
        (T, '''            mesh3d.elem[iel].pos = np.zeros((3, 2, 2, 2))
            mesh3d.elem[iel].pos[:, :1, :, :] = mesh.elem[i].pos
            mesh3d.elem[iel].pos[:, 1:2, :, :] = mesh.elem[i].pos

            # fill in the z location
            z1 = z[k]
            z2 = z[k + 1]
            mesh3d.elem[iel].pos[2, 0, :, :] = z1
            mesh3d.elem[iel].pos[2, 1, :, :] = z2
''', '''            z1, z2 = z[k], z[k + 1]
            el3d = mesh3d.elem[iel]
            el3d.pos = np.concatenate((mesh.elem[i].pos, mesh.elem[i].pos), axis=1)
            el3d.pos[2, 0] = z1
            el3d.pos[2, -1] = z2
''')]},
    "extrude-divmod": {"props": ["C09", "C10"], "edits": [
        (T, '''    for k in range(nz):
        for i in range(nel2d):
            iel = i + nel2d * k
            # replace the position''', '''    for k, i in product(range(nz), range(nel2d)):
            iel = k * nel2d + i
            # replace the position''')]},
    "extrude-ends-helper": {"props": ["C10"], "edits": [
        (T, '''            if bc2[ibc] == "P":
                mesh3d.elem[i1].bcs[ibc, 5][3] = i + 1
                mesh3d.elem[i1].bcs[ibc, 5][4] = 5
            else:
                mesh3d.elem[i1].bcs[ibc, 5][3] = 0
                mesh3d.elem[i1].bcs[ibc, 5][4] = 0
''', '''            top = mesh3d.elem[i1].bcs[ibc, 5]
            top[3], top[4] = (i + 1, 5) if bc2[ibc] == "P" else (0, 0)
''')]},
    "extrude-one-copy": {"props": ["C09", "C10"], "edits": [
        (T, '''        mesh3d.elem = mesh3d.elem + mesh_add.elem
''', '''        mesh3d.elem.extend(mesh_add.elem)
''')]},
    "connectivity-locals": {"props": ["C15"], "edits": [
        (C, '''            if cbc == "E" or cbc == "P":
                connected_iel = int(el.bcs[ibc, iface][3]) - 1
''', '''            if cbc in ("E", "P"):
                connected_iel = int(el.bcs[ibc, iface][3]) - 1
'''),
        (C, '''                    cbc1 = self.elem[connected_iel].bcs[ibc, connected_face][0]
                    iel1 = int(self.elem[connected_iel].bcs[ibc, connected_face][3]) - 1
                    iface1 = (
                        int(self.elem[connected_iel].bcs[ibc, connected_face][4]) - 1
                    )
                    xc1, yc1, zc1 = self.elem[connected_iel].face_center(connected_face)
''', '''                    other = self.elem[connected_iel]
                    back = other.bcs[ibc, connected_face]
                    cbc1 = back[0]
                    iel1, iface1 = int(back[3]) - 1, int(back[4]) - 1
                    xc1, yc1, zc1 = other.face_center(connected_face)
''')]},
    "connectivity-errors-list": {"props": ["C15"], "edits": [
        (C, '''        dim = self.ndim
        err = False
        for (iel, el), ibc, iface in product(
            enumerate(self.elem), range(self.nbc), range(2 * dim)
        ):
''', '''        dim = self.ndim
        err = False
        for iel, ibc, iface in product(range(len(self.elem)), range(self.nbc), range(2 * dim)):
            el = self.elem[iel]
''')]},
    "bcs-present-any": {"props": ["C15"], "edits": [
        (C, '''            if el.bcs[ibc, iface][0] == "":
                res = False
''', '''            if not el.bcs[ibc, iface][0]:
                res = False
''')]},
    "map2D-helper": {"props": ["C17"], "edits": [
        (T, '''            if (
                curvature
                or el.ccurv[iedge] != ""
                or (
                    boundary_curvature
                    and mesh.nbc > 0
                    and el.bcs[0][iedge][0] not in ["", "E"]
                )
            ):
                mapped_el.ccurv[iedge] = "m"
''', '''            on_boundary = mesh.nbc > 0 and el.bcs[0, iedge][0] not in ("", "E")
            if curvature or el.ccurv[iedge] != "" or (boundary_curvature and on_boundary):
                mapped_el.ccurv[iedge] = "m"
''')]},
    "edge-mid-table": {"props": ["C18", "C17"], "edits": [
        (T, '''        if iedge == 0:
            pos1 = el.pos[:, 0, 0, 0]
            pos2 = el.pos[:, 0, 0, -1]
        elif iedge == 1:
            pos1 = el.pos[:, 0, 0, -1]
            pos2 = el.pos[:, 0, -1, -1]
        elif iedge == 2:
''', '''        if iedge < 2:
            pos1, pos2 = (
                (el.pos[:, 0, 0, 0], el.pos[:, 0, 0, -1]),
                (el.pos[:, 0, 0, -1], el.pos[:, 0, -1, -1]),
            )[iedge]
        elif iedge == 2:
''')]},
    "smallest-edge-min": {"props": ["C19", "C15"], "edits": [
        (C, '''        # the dimension is not stored but we can cheat
        if self.pos.shape[1] > 1:
            ndim = 3
        else:
            ndim = 2
        if ndim > 2:
''', '''        # the dimension is not stored but we can cheat
        if len(self.pos[0]) > 1:
'''),
        (C, '''            return np.sqrt(edges_l2[:4].min())
''', '''            return np.sqrt(min(edges_l2[:4]))
''')]},
    "face-center-loop": {"props": ["C19"], "edits": [
        (C, '''        return (
            0.25 * (x1 + x2 + x3 + x4),
            0.25 * (y1 + y2 + y3 + y4),
            0.25 * (z1 + z2 + z3 + z4),
        )
''', '''        xs, ys, zs = (x1, x2, x3, x4), (y1, y2, y3, y4), (z1, z2, z3, z4)
        return sum(xs) / 4, sum(ys) / 4, sum(zs) / 4
''')]},
    "points-reshape": {"props": ["C19", "C08"], "edits": [
        (C, '''        for el, lxyz in zip(self.elem, xyz):
            for idim in range(3):
                lxyz[:, idim] = el.pos[idim, ...].ravel()
''', '''        for iel, el in enumerate(self.elem):
            xyz[iel] = el.pos.reshape(3, nxyz).T
''')]},
    "lims-loop": {"props": ["C19"], "edits": [
        (C, '''                np.minimum(l1[var][0], l2[var][0]),
''', '''                np.where(l1[var][0] < l2[var][0], l1[var][0], l2[var][0]),
''')]},
}
