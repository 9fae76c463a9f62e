"""Table of checks: harness, modules of /repo compiled into it, workload rule."""
GEO = ["base", "geometry"]
MESH = GEO + ["mesh"]
REF = MESH + ["refinement", "matlab"]
FEM = MESH + ["quad", "assemble", "fe", "uscalfe"]

CHECKS = {}


def add(pid, harness, modules, rule, **kw):
    CHECKS[pid] = dict(harness=harness, modules=modules, rule=rule, **kw)


add("B01", "h_base", ["base"],
    "every sub-entity index of every reference element (exhaustive) plus random copies; non-trivial: a (type, codim, index) triple or value pair was inspected")
add("B02", "h_diag", ["base"],
    "random matrices, arrays and expressions of four scalar types formatted with default and given precision inside other text, random single- and multi-line messages under random patterns through the line feed formatter and its clones compared with the plain formatter, table of concept decisions; non-trivial: distinct matrix or message")
add("T01", "h_base", ["base"],
    "random histories of timer operations with injected busy/sleep delays, conversions between all integer types at boundary values; non-trivial: distinct operation history or conversion class")
add("G01", "h_geom", GEO,
    "random regular shapes of all eight kinds (straight, curved, 1D-3D world, scales 1e-4..1e4, offsets, both orientations) evaluated at batches of points; non-trivial: distinct shape")
add("G02", "h_geom", GEO,
    "random regular shapes of all kinds with every side and corner, plus pairs of neighbouring cells sharing a curved side; non-trivial: distinct shape or pairing")
add("G03", "h_refpat", GEO + ["refpat"],
    "every refinement pattern and anchor of every element type (exhaustive, exact integer arithmetic) and random shapes of all kinds refined repeatedly by random patterns; non-trivial: distinct pattern or shape")
add("M01", "h_mesh", MESH + ["annulus", "testmesh"],
    "random hybrid meshes (grids, random triangulations with merged quads, rings, fans, holes, disconnected, closed surfaces, book-like non-manifold ones; 2D/3D; straight, curved, omitted shapes; supplied edges) audited entity by entity; non-trivial: distinct mesh description")
add("M02", "h_mesh", MESH + ["annulus", "testmesh"],
    "random mesh descriptions fed to one factory three times in random interleavings, built mesh compared with an independent description; refused inputs; non-trivial: distinct mesh description")
add("M03", "h_mesh", MESH + ["annulus", "testmesh"],
    "random meshes: flags and counts compared with counts over the node lists of the description; random write/read histories of data sets; non-trivial: distinct mesh description")
add("M04", "h_mesh", MESH + ["annulus", "testmesh"],
    "structured builders over cell counts (all small ones) and random extents; non-trivial: distinct builder and cell counts")
add("R01", "h_hier", REF,
    "random initial meshes (as M01, incl. curved, 3D, closed, book-like) x random histories of regular, barycentric and edge-marked steps (none/one/all/boundary/random/one cell/near a point, overwritten markings); non-trivial: distinct mesh and history")
add("R02", "h_hier", REF,
    "histories as R01; every entity of every level compared through parent, child and position records; non-trivial: distinct mesh and history")
ASM = MESH + ["assemble"]
add("A01", "h_assemble", ASM,
    "random meshes x random dof layouts (uniform per type with missing types, per-entity functors incl. zero and many, non-reversing mode, moved handlers); non-trivial: distinct mesh and layout")
add("A02", "h_assemble", ASM,
    "random meshes x pairs of layouts x codimension x activity pattern x scalar type x oversized poisoned local matrices x repeated accumulation; non-trivial: distinct mesh, layouts and activity pattern")
add("A03", "h_assemble", ASM,
    "random histories of add/grow/zero/zero-by-predicate/product/copy/move/print on triplet matrices of four scalar types; non-trivial: distinct history")
add("A04", "h_assemble", ASM,
    "random diagonally dominant systems (symmetric, unsymmetric, hermitian; split triplets) x flag sets incl. none and all; non-trivial: distinct size, style and flag set")
add("Q01", "h_quad", ["base", "quad"],
    "all reference elements x degrees 0..several hundred (tabulated and tensor/Duffy rules), named, nodal and Gauss-Jacobi rules tested against an orthonormal polynomial basis; random request/move histories to caches; non-trivial: distinct rule or history",
    opt={"quick": "-O1"})
FEM = REF + ["quad", "assemble", "fe", "uscalfe"]
add("R03", "h_trans", FEM,
    "random initial meshes x random refinement histories x coarse/fine levels x random finite element functions and functions of position; compared at physical points located in the coarse mesh by Newton's method; non-trivial: distinct history and pair of levels or spaces")
add("F01", "h_elem", FEM,
    "all Lagrange elements x random batches of points, sides, polynomials, precomputed variants, scalar types; non-trivial: distinct element")
add("F02", "h_elem", FEM,
    "random degrees per side and interior (1..20, segments to 30) x orientations, Legendre/Jacobi functions against recurrences and integrals; non-trivial: distinct element or parameter set")
add("F03", "h_fefun", FEM,
    "random meshes (as M01) x random spaces (Lagrange 1-3, hierarchic uniform and per-entity degree) x random coefficients, real/complex; traces, gradients by spectral differentiation, polynomial reproduction; non-trivial: distinct mesh and space")
add("F04", "h_fefun", FEM,
    "random meshes x spaces x coefficients x cell and edge selections (none, all, boundary, random); non-trivial: distinct mesh and space")
add("F05", "h_integ", FEM,
    "random meshes x polynomial integrands of 11 value types x codimension x selections (empty, all, with/without first) x caller's rules; non-trivial: distinct mesh, type, selection")
EL = MESH + ["quad", "assemble", "fe", "uscalfe"]
add("U01", "h_cellmat", EL,
    "random meshes (straight, curved, 2D/3D) x spaces x coefficients (constant, function, polynomial, finite element function, tensor, real/complex) x default and caller's rules; element matrices compared with own high-order integrals; non-trivial: distinct mesh, space, coefficient")
add("U02", "h_edgemat", EL,
    "random meshes x spaces x coefficients x edge selections (all, boundary, random, single, half plane; predicates and data sets) x default and caller's rules; edge matrices/vectors compared with own integrals over the edge and, assembled, with integrals over the sides of either adjacent cell; non-trivial: distinct mesh, space, coefficient, selection")
add("U03", "h_bvp", EL,
    "random planar meshes (affine, bilinear, curved) x spaces x polynomial solutions x tensor diffusion, reaction, impedance coefficients x random partitions of the boundary; residual of the exact solution and error of the discrete solution; non-trivial: distinct mesh, space, problem")
add("U04", "h_renum", FEM,
    "random meshes and the same mesh with nodes, cells and supplied edges renumbered, edges reversed, cells rotated or reversed; boundary flags, shapes, integrals, uniform refinement, Lagrangian operators, loads and functions (entrywise) and discrete solutions in spaces of varying degree (as functions) compared; non-trivial: distinct renumbered mesh and degree")
add("N01", "h_mf", EL,
    "pairs of mesh functions of scalar, vector, matrix, array (static, dynamic, row-major, real/complex) and user-defined value types and random expression trees over constants, global, finite element and entity-wise functions, evaluated on random entities of every codimension and compared point by point with coefficient loops; non-trivial: distinct mesh and expression")
IO = MESH + ["io"]
add("I01", "h_gmsh", IO,
    "generated files of meshes with groups, auxiliary nodes, points as elements, names (ambiguous, absent), partitions, periodic and foreign sections in six encodings (2.2 and 4.1; text, little and big endian) read and compared with the description; non-trivial: distinct mesh description")
add("I02", "h_gmsh", IO,
    "generated files of six encodings cut at every kind of position, with damaged markers, counts, references, removed or doubled fields and random bytes; an independent checker decides which are no longer well-formed; non-trivial: distinct mesh description and encoding")
add("I05", "h_gmshraw", IO,
    "generated contents of Gmsh files (names, entities, partitioned and ghost entities, node blocks, element blocks of all 33 types with arbitrary tags, periodic links with and without transformation, ghost elements, foreign sections) written in six encodings, read with ReadGmshFile and compared record by record; non-trivial: distinct file contents")
add("I03", "h_vtk", FEM + ["io"],
    "random meshes x cells or edges x order 1..10 x text/binary x random data sets (all types, partially defined, mesh functions, finite element functions, global data) and files put together by hand, read back by an independent parser of the legacy format; non-trivial: distinct mesh, order and codimension")
add("I04", "h_export", FEM + ["io"],
    "random planar meshes and refinement histories written as Matlab, CSV and TikZ under random names (with and without extension or directory), flags and selectors, read back by independent parsers; non-trivial: distinct mesh and flags")
DPG = MESH + ["quad", "assemble", "fe", "uscalfe", "dpg"]
add("D01", "h_dpg", DPG,
    "random meshes x random lists of component layouts (missing and empty types included) and factory call sequences with several products from one factory; numbering compared with one put together independently, functions with polynomials and their restrictions to sides; non-trivial: distinct mesh and component list")
add("D02", "h_dpg", DPG,
    "random planar meshes (clockwise cells, curved ones for volume terms) x random product spaces, sub-blocks and coefficients; blocks, condensed systems and estimators compared with own integrals, exact polynomial solutions inserted into primal and ultraweak formulations; normals, signs, flags, essential conditions; non-trivial: distinct mesh, spaces, blocks")
add("S01", "h_stokes", EL + ["ipdg"],
    "random planar triangular meshes (clockwise cells, holes, several components, node contacts) x penalty, forcing, boundary data, both penalty variants; local blocks, assembled and solved problems and norms compared with own geometry and integrals; non-trivial: distinct mesh and variant")
add("E01", "h_fisher", EL + ["fisher"],
    "random planar meshes x coefficients, boundary exchange, non-local terms, growth factors, capacities, numbers of steps (1 to 64); matrices, single steps and whole evolutions compared with own dense ones, with the logistic law and with a high-accuracy solution; non-trivial: distinct mesh and number of steps")
add("X01", "h_life", FEM + ["io"],
    "random programs making, querying, moving, copying, refining and destroying 25 kinds of objects in random order; every survivor asked again for the answers it gave at first; repeated programs for leaks; a part of this and other workloads again under memcheck; non-trivial: distinct program",
    memcheck={"quick": [("X01", 0.05), ("F02", 0.01), ("R02", 0.01)],
              "thorough": [(p, 0.002) for p in sorted(CHECKS)] + [("X01", 0.03)]})
add("X02", "h_threads", FEM + ["io"],
    "2 to 6 threads asking random questions about shared objects, or running programs of their own (with shared meshes and spaces), in fresh and in warm processes, with random yields and delays; answers compared with a twin asked by one thread; non-trivial: distinct programs and interleavings",
    config="tsan", shards=6)
NOT_APPLICABLE = {}
