"""Writes /verif/properties.jsonl (kept as a script so that the texts stay reviewable)."""
import json, pathlib
F="src/pymech/neksuite/field.py"; C="src/pymech/core.py"; M="src/pymech/meshtools.py"; K="src/pymech/neksuite/mesh.py"
P="src/pymech/neksuite/map.py"; D="src/pymech/dataset.py"; S="src/pymech/simsonsuite.py"; V="src/pymech/vtksuite.py"
props=[]
def add(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m} for n,m in state]
    if observe: a["observe_at"]=observe
    props.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

NODATA="The tests that read or write files need data files that are not shipped, so none of them runs here; and a sampled file fixes one size, byte order and variable set."
add("C01","Writing a field file and reading it back returns the same data",
 "Saving flow data as a Nek5000 field file and reading that file returns the same dimension, polynomial orders, element count, variable counts, element order, step, byte order and word size, and the time to the 14 digits the header holds. Every stored variable of every element (geometry, velocity, pressure, temperature, each scalar) comes back bit for bit at double word size, and rounded once to single precision at word size 4, whatever floating point type the arrays in memory have.",
 ["inputs","configurations"],"every 2D or 3D data set with at least one stored variable: any element count, any orders, any permutation as element map, any combination of variables with up to 99 scalars, both word sizes, both byte orders, single or double arrays in memory",
 NODATA,[F,C],[("writenek",F+": writenek"),("readnek",F+": readnek"),("Header",F+": Header, read_header")])
add("C02","Field files are written in the exact Nek5000 binary layout",
 "A saved field file is exactly: a 132-byte text header, the 4-byte tag 6.54321, the element map as 32-bit integers, then geometry, velocity, pressure and temperature, each element by element in map order with all components of an element together, then the scalars one whole field after another; for 3D data it ends with the single precision minimum and maximum of each component of each element, variable after variable and element by element. Numbers have the requested word size and byte order, point values vary fastest in x and slowest in z, and there is not one byte more.",
 ["inputs","configurations"],"every data set as in C01",
 "A round trip through the same library cannot see a layout on which reader and writer agree but Nek5000 does not; no test compares the bytes.",[F],[("writenek",F+": writenek"),("Header.as_bytestring",F)])
add("C03","Reading a conforming field file returns exactly the values it stores",
 "For any file in the Nek5000 field layout, of either byte order and either word size, the reader puts each stored number at the element (numbered by the file's element map), component and grid point it belongs to, in the requested floating point type, and returns the header's time, step, dimension and element count; elements that the file does not contain (a file of a multi-file set) stay zero. If the element map contains a zero, the elements are taken in natural order instead; a wrong endianness tag or a too short header raises an error.",
 ["inputs","configurations"],"every conforming file: any element count and map, any part of a multi-file set, any orders and variables, both word sizes and byte orders, trailing metadata present or not",
 NODATA,[F],[("readnek",F+": readnek"),("read_header",F)])
add("C04","Skipping variables on reading changes only the skipped variables",
 "Reading a field file with any set of variable names to skip returns the same data as a full read for every variable not named, and zeros for the named ones. This holds for every documented name and alias, alone or combined, names the file does not contain included, and for files that hold only part of the elements.",
 ["inputs","configurations"],"every conforming file and every subset of the valid names x y z ux uy uz vx vy vz p pressure t temperature s01..s99",
 NODATA+" The subsets of names cannot be enumerated by examples.",[F],[("skip handling",F+": readnek")])
add("C05","The field file header encodes and decodes without loss",
 "A header turned into text occupies exactly 132 bytes, and parsing those bytes gives back the word size, orders, element counts, step, file id, file count, variable string and derived counts, and the time to 14 significant digits. The variable string and the variable counts always agree with each other in both directions (X and U stand for one value per dimension, P and T for one, Snn for nn scalars); a word size other than 4 or 8, the absence of both forms, or a header with missing fields is rejected.",
 ["inputs"],"every header with field values that fit their columns, every subset of the variables and 0 to 99 scalars, from a path or an open file",
 "One test covers the rejection of missing variables; the mapping for all variable sets, counts and number widths is untested.",[F],[("Header",F+": Header"),("read_header",F)])
add("C06","Binary meshes (.re2) round-trip exactly",
 "Writing a mesh as .re2 and reading it back gives the same dimension and element count, bit-identical vertices, the same curvature types and parameters, the correct number of curved sides, and for every field the same boundary condition type, parameters, element and face numbers on each face. Faces whose condition is empty or internal ('E') come back empty; both byte orders work; meshes that do not have two points per direction are refused.",
 ["inputs","configurations"],"every 2D or 3D vertex mesh with any number of elements, curved sides and boundary condition fields (at least one), any condition names of up to 3 characters, both byte orders",
 NODATA,[K],[("writere2",K+": writere2"),("readre2",K+": readre2")])
add("C07","Ascii meshes (.rea) round-trip to the printed precision",
 "Writing a mesh as .rea and reading it back gives the same dimension and element count, every vertex, curvature parameter and boundary condition parameter to the 7 significant digits of the format (element numbers in conditions exactly), the same curvature types and count, the same number of fields and the same condition type on every face. This holds in each of the column layouts the format uses below a thousand, below a million and from a million elements on; empty conditions come back empty.",
 ["inputs","configurations"],"every 2D or 3D mesh, element counts across the two layout thresholds, any number of fields, condition names of up to 3 characters",
 NODATA,[K],[("writerea",K+": writerea"),("readrea",K+": readrea")])
add("C08","Saving, querying and deriving never alter their inputs",
 "Writing a mesh or field to any format, asking for its limits, points, centroids, edges or connectivity checks, printing it, extruding or mapping it, and merging it into another mesh all leave the argument (and, for merging, the mesh that was added) exactly as it was: every coordinate, field value, curvature, condition and metadata entry. Later changes to a derived or merged mesh do not show through in the mesh it came from.",
 ["inputs","histories"],"every mesh, every one of the named operations, any order of calls",
 "The tests never look at the argument after a call.",[C,M,K,F],[("writers",K+": writerea, writere2; "+F+": writenek"),("derivations",M+": extrude, map2D, edge_mid, edge_circle"),("merge, checks, queries",C)])
add("C09","Extrusion produces the right layers: geometry and curvature",
 "Extruding a 2D mesh along z-coordinates z0..zn gives, for each layer k and each 2D element i, the element number i + nel*k whose corners have the 2D element's x and y and lie at z = zk below and z = zk+1 above. The four curved edges of the 2D element appear on both ends with their type and parameters, midpoints being moved to the z of their end, and the count of curved sides doubles per layer; input that is not a 2D vertex mesh with geometry is refused.",
 ["inputs"],"every 2D vertex mesh, any number of layers, any z values, any curvature types",
 "One cylinder mesh with one layer count is extruded by the tests.",[M],[("extrude",M+": extrude")])
add("C10","Extrusion produces a correctly connected mesh",
 "In an extruded mesh, neighbouring layers are connected face 6 to face 5, the two ends carry the requested conditions (periodic ends pointing at each other, other ends at nothing), and each side face keeps its 2D condition, with internal and periodic connections leading to the matching element of the same layer. A valid 2D mesh therefore extrudes to one whose connections are all mutual and geometrically matching; with internal conditions switched off no internal condition remains anywhere; a periodic end facing a non-periodic one is refused.",
 ["inputs"],"every validly connected 2D vertex mesh, any number of layers and fields, any end conditions, internal conditions on or off",
 "One cylinder mesh with one layer count is extruded by the tests.",[M,C],[("extrude",M+": extrude"),("offset_connectivity",C)])
add("C11","A generated box tiles its rectangle and is correctly connected",
 "The box generator gives nx*ny elements, number i + nx*j covering exactly the cell [xmin + i*lx/nx, xmin + (i+1)*lx/nx] x [ymin + j*ly/ny, ymin + (j+1)*ly/ny]. Each internal face is connected to the facing face of its neighbour in every field (or left empty if internal conditions are not requested), each outer face carries the condition requested for its side, and periodic faces point at the opposite face; there is one field per velocity, temperature and scalar, and a box with xmax <= xmin or ymax <= ymin is refused.",
 ["inputs"],"every nx, ny >= 1, all bounds, all variable lists, all condition lists, internal conditions on or off",
 "The test checks one box size.",[M],[("gen_box",M+": gen_box")])
add("C12","Merging joins two meshes conformingly",
 "Merging appends the other mesh's elements unchanged in order, with their connections renumbered, adds up element and curved side counts, and connects a face of the first mesh to a face of the second, mutually and in every field, exactly when both are eligible (not internal, and not empty if empty faces are ignored) and their centres coincide within the tolerance relative to the smaller of both elements' shortest edges. When both faces were periodic their former partners become each other's; all other conditions stay as they were, the number of joined pairs is returned, and meshes of different dimension or order are refused.",
 ["inputs","histories"],"every pair of meshes with the same number of fields in which a face coincides with at most one other face, any tolerance, chains of merges",
 "The tests merge one or two fixed meshes.",[C],[("HexaData.merge",C+": merge, offset_connectivity, face_center, smallest_edge")])
add("C13","Keeping a subset of elements leaves exactly that mesh, renumbered",
 "Reducing a mesh to a set of elements leaves exactly those elements, in ascending order and otherwise unchanged, with element counts, curved side count and element order updated. Connections between kept elements are renumbered and still refer to the same element and face; connections to removed elements get the given external condition and lose their target; all other conditions stay; a number beyond the mesh is refused.",
 ["inputs"],"every mesh with valid connections, every subset (in any order) of its elements, every external condition name",
 "No test calls it with checked results; subsets cannot be enumerated.",[M,C],[("keep_elements",M),("offset_connectivity",C)])
add("C14","Internal conditions are generated and deleted exactly",
 "Deleting internal conditions empties exactly the internal ones, in all fields, and returns their number; every other condition is untouched. Generating them connects, mutually and in every field, exactly the pairs of faces of different elements that have no condition yet and whose centres coincide within the tolerance relative to the smaller of both elements' shortest edges, leaves everything else as it was, returns the number of connections made, and refuses a mesh with a zero-length edge.",
 ["inputs"],"every mesh with at least one field in which a face coincides with at most one other face, any tolerance",
 "No stable test calls them with checked results.",[M],[("delete_internal_bcs",M),("generate_internal_bcs",M)])
add("C15","The mesh checks accept exactly the valid meshes",
 "The connectivity check succeeds if and only if every internal or periodic condition names an existing element and face that carries the same kind of condition pointing back at it and, for internal ones, the two face centres are within the tolerance times the shortest edge of the two elements. The completeness check succeeds if and only if no face of any field lacks a condition; both return true on success, raise a ValueError on failure, and never fail in another way.",
 ["inputs"],"every mesh, valid or corrupted in any condition entry (element or face numbers out of range included), any tolerance",
 "Tests only see the checks pass on a few valid meshes; that each kind of corruption is rejected is untested.",[C],[("check_connectivity",C),("check_bcs_present",C)])
add("C16","Rotation turns the whole mesh rigidly about the given point",
 "Rotating a mesh by an angle about a point maps every vertex, and every curvature midpoint, to its image under that rotation in the x-y plane. z-coordinates, curvature radii and all other data stay the same.",
 ["inputs"],"every mesh, every centre and angle, any curvature",
 "Rotation is exercised only about the origin, inside one generator test.",[M],[("rotate_2d",M)])
add("C17","Mapping a mesh applies the transformation and curves the right edges",
 "Mapping a 2D mesh returns a new mesh with each vertex at the image of the original vertex. Each edge that was curved, each boundary edge if requested, and every edge if requested gets a midpoint at the image of the original edge's midpoint (taken on the arc or the sphere if it was curved); every other edge and all conditions stay, the count of curved sides is right, and the original mesh is untouched.",
 ["inputs"],"every 2D vertex mesh, every transformation function, all flag combinations, edges straight or curved by midpoint, arc or sphere",
 "The test maps one box and checks little of the result.",[M],[("map2D",M),("edge_mid",M)])
add("C18","Reported limits are the exact extrema over all elements",
 "The limits of a mesh are, for each component of each variable, the smallest and the largest value over all points of all elements, for any number of elements starting from one; they cannot be modified. The list of all points contains every grid point of every element once, in storage order.",
 ["inputs"],"every data set with at least one element, any orders and variables",
 "Tests need data files for it; none runs.",[C],[("DataLims",C),("get_points",C)])
add("C19","Element geometry queries return the true geometric values",
 "For any element the centre of each face is the mean of that face's four corners, the shortest edge is the smallest distance between the end points of the element's edges (4 in 2D, 12 in 3D), and the centroid is the mean of all points. The midpoint of an edge is the average of its ends, the stored midpoint, the point on the arc of the given signed radius, or the point on the given sphere, according to the edge's curvature.",
 ["inputs"],"every element with any coordinates and any order, every face and edge number, every curvature",
 "Used only indirectly, on axis-aligned meshes.",[C,M],[("Elem.face_center, smallest_edge, centroid",C),("edge_mid, edge_circle",M)])
add("C20","Every operation leaves a consistent mesh",
 "After generating, extruding, merging, mapping, rotating, reducing or reading a mesh, its element count equals the number of elements, its element order is a permutation of 1..count, its curved side count equals the number of curved edges, and each element's condition table has one row per field. So the result of any sequence of operations can be saved in any format and read back as the same mesh.",
 ["histories","inputs"],"every finite sequence of mesh operations starting from generated or read meshes",
 "Tests run one operation at a time and do not check the metadata.",[M,C,K],[("metadata upkeep",M+": extrude, keep_elements, gen_circle, map2D; "+C+": merge, update_ncurv")],
 [("nel, ncurv, elmap, nbc","metadata of a mesh, stored next to the element list")])
add("C21","Partition maps (.ma2) are read exactly",
 "Reading a .ma2 file returns, for each element in file order, the owning rank and the vertex ids stored for it, for either byte order and both 4 and 8 vertices per element. A wrong endianness tag raises an error.",
 ["inputs"],"every conforming file, any number of elements, ids up to the full 32-bit range",
 NODATA,[P],[("readma2",P)])
add("C22","SIMSON files are read exactly",
 "Reading a SIMSON plane file returns the stored coordinates, data, extents and number of dimensions for 1, 2 and 3 dimensions and either byte order. Reading a SIMSON velocity file returns time, grid and the physical fields whose Fourier coefficients the file stores, passive scalars included.",
 ["inputs"],"every conforming plane file; every velocity file without a flow-type record or with those of flow types -1, -2, 6 and 20",
 "No SIMSON test data is shipped.",[S],[("readplane",S),("readdns",S)])
add("C23","Opening a field file as a dataset shows the stored values",
 "A path is recognised as a field file exactly when it ends in .f followed by five digits or in .fld, and anything else is refused. The dataset of a rectilinear mesh holds, at each grid point's coordinates, exactly the velocity, pressure, temperature, scalar and mesh values of the file, with the file's time, and drops the variables asked for.",
 ["inputs"],"every path string; every field file of an axis-aligned box mesh",
 "The extension test uses a few short names; the others need data files.",[D],[("can_open_nek_dataset, open_dataset",D),("_NekDataStore",D)])
add("C24","Refining extrusion yields a conforming mesh",
 "Extruding with splitting functions gives a mesh that is well-formed, whose connections are all mutual and geometrically matching, that has no missing conditions if the 2D mesh had none, and that fills the 2D domain times the z range without gaps or overlaps. Without splitting functions it equals the plain extrusion, missing parameters count as zeros, and layer counts that do not divide are refused.",
 ["inputs"],"every 2D mesh and splitting functions that cut elements into two corner pairs, every admissible layer count and refinement index, internal conditions on or off",
 "No stable test calls it.",[M],[("extrude_refine",M),("extrude_mid",M)])
add("C25","A generated disc mesh is a conforming mesh of the disc",
 "The disc generator gives ns*ns + 4*ns*no right-handed, correctly connected elements: the outer edges carry the requested condition and a circular curvature of the disc's radius, their ends lie on the circle, the inner block is the requested square, and no other boundary is left. The curved side count is 4*ns.",
 ["inputs"],"every radius and square ratio, every ns and no, default or given stretching and curvature functions, any fields",
 "One test generates one disc.",[M],[("gen_circle",M)])
add("C26","The geometric refinement parameter solves its defining equation",
 "The parameter returned for a first length, a total length and a number of elements makes the lengths of the geometric progression add up to the total.",
 ["inputs"],"all positive lengths and element counts",
 "Used on one configuration.",[M],[("exponential_refinement_parameter",M)])
add("C27","Visualisation export represents the same mesh and fields",
 "Converting data to a visualisation grid gives one cell per sub-element with the data's points and point values.",
 ["inputs"],"every data set, with or without downsampling",
 "The optional visualisation library is not installed, so no test imports the module.",[V],[("hexa2vtk, writevtk",V)])
out=pathlib.Path("/verif/properties.jsonl")
for p in props: assert len(p["title"])<=80,(p["id"],len(p["title"]))
out.write_text("".join(json.dumps(p,ensure_ascii=False)+"\n" for p in props))
print(len(props))
