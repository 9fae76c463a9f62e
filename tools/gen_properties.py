#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/gen_properties.py)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
                               observe_at=observe, hook_needed=None)))
L = "lib/lf/"
p("B01", "Reference element topology tables are mutually consistent",
  "For every reference element, the numbers, types, corner coordinates and sub-sub-entity indices of its sub-entities describe one and the same polytope: sub-entities of sub-entities coincide as point sets, every edge joins the two corners it reports, and composing index maps through intermediate dimensions gives the same entity as the direct map.",
  ["inputs"], "all reference elements x all (sub-codimension, sub-index, relative codimension, relative index) tuples, and random corner coordinates for every geometry type",
  "Tests spot-check a few tuples with hand-written constants; consistency is a relation among all table entries and between the tables and the geometry classes.",
  [L+"base/ref_el.h", L+"base/ref_el.cc", L+"geometry/segment_o1.cc", L+"geometry/tria_o1.cc", L+"geometry/quad_o1.cc"],
  [("static sub-entity tables", L+"base/ref_el.h")], ["results of the reference element queries", "corner positions of sub-geometries"])
p("M01", "Every built mesh is a topologically consistent cell complex",
  "After a mesh is built from any admissible sequence of points, edges and cells, incidence is consistent: cells, edges and nodes have dense unique indices that invert the index lookup, every edge of a cell joins exactly the two corners the local numbering prescribes, two entities with the same corner set are the same entity, every node and edge belongs to a cell, and the stored relative orientation of each edge equals the comparison of its end points with the cell's corners.",
  ["inputs", "histories"], "all admissible factory call sequences: any mix of triangles/quadrilaterals, any local corner rotation or reflection, any global numbering, any subset of explicitly supplied edges in any direction, non-manifold vertices, holes, several components, closed surfaces, planar or embedded in 3D, repeated use of one factory",
  "Tests check nine fixed meshes and a few regular grids, always with one orientation convention.",
  [L+"mesh/hybrid2d/mesh.cc", L+"mesh/hybrid2d/mesh_factory.cc", L+"mesh/hybrid2d/triangle.cc", L+"mesh/hybrid2d/quad.cc", L+"mesh/hybrid2d/segment.cc"],
  [("edge identification by sorted end points", L+"mesh/hybrid2d/mesh.cc"), ("relative orientation initialisation", L+"mesh/hybrid2d/triangle.cc, quad.cc")],
  ["entity iteration, sub-entity access, orientation and index queries of the built mesh"],
  [("edge map", "unordered end point pair -> edge with adjacent cells", L+"mesh/hybrid2d/mesh.cc")])
p("M02", "A built mesh is exactly the mesh that was described to the factory",
  "The built mesh contains exactly the described points, supplied edges and cells: nodes keep the returned indices and coordinates, supplied edges and cells come in the order of insertion with their corner order and shape, every shape passed explicitly is used unchanged and every omitted one is deduced so that cells interpolate their corners and edges coincide with the matching side of an adjacent cell. Building leaves the factory empty and usable for an independent next mesh.",
  ["inputs", "histories"], "all admissible factory call sequences incl. omitted/explicit, straight and curved shapes, factory reuse, cells interleaved with points and edges",
  "Tests only build small fixed meshes and inspect few of their coordinates; none reuses a factory or mixes curved, supplied and deduced shapes under arbitrary numbering.",
  [L+"mesh/hybrid2d/mesh_factory.cc", L+"mesh/hybrid2d/mesh.cc"],
  [("geometry deduction for edges/cells", L+"mesh/hybrid2d/mesh.cc"), ("insertion queues", L+"mesh/hybrid2d/mesh_factory.cc")],
  ["node coordinates, entity corner lists, entity shape maps of the built mesh vs. an independent description"])
p("M03", "Boundary flags, adjacency counts and per-entity data follow the mesh",
  "An edge is flagged as boundary exactly if one and only one cell touches it and a node exactly if it is an end point of such an edge (likewise for the requested codimension only), the reported super-entity counts equal the true incidence counts, and values stored per entity are returned for exactly the entity they were stored for and no others, independently of how the mesh numbers its entities.",
  ["inputs"], "arbitrary hybrid meshes incl. holes, pinch vertices, closed surfaces and refined meshes; arbitrary per-entity data of any value type incl. boolean",
  "Tests use one or two fixed grids with known boundary.",
  [L+"mesh/utils/special_entity_sets.cc", L+"mesh/utils/codim_mesh_data_set.h", L+"mesh/utils/all_codim_mesh_data_set.h"],
  [("super-entity counting", L+"mesh/utils/special_entity_sets.cc"), ("index based storage", L+"mesh/utils/codim_mesh_data_set.h")],
  ["flags, counts and stored values vs. brute-force recomputation"])
p("M04", "Structured mesh builders produce the advertised exact tilings",
  "For every number of cells per direction and every admissible extent, the tensor-product triangle and quadrilateral builders produce conforming positively oriented meshes that tile exactly the requested rectangle with the advertised numbers of cells, edges and nodes and with all boundary nodes on the rectangle up to rounding, the torus builder produces a closed mesh with the advertised counts on the requested torus, and the annulus builder a conforming mesh between the requested radii around the requested centre. The meshes of the catalogue of small hybrid meshes are conforming, without overlap, of the documented kind and domain, and scale exactly with the given factor.",
  ["inputs", "configurations"], "all cell counts (1..N) x extents incl. tiny, huge, offset and anisotropic ones x both radii ordering admissible",
  "Tests build one or two sizes of one unit-size grid.",
  [L+"mesh/utils/tp_triag_mesh_builder.cc", L+"mesh/utils/tp_quad_mesh_builder.cc", L+"mesh/utils/torus_mesh_builder.cc", "projects/ipdg_stokes/mesh/annulus_triag_mesh_builder.cc", L+"mesh/test_utils/test_meshes.cc"],
  [("index arithmetic of the builders", L+"mesh/utils/*_mesh_builder.cc")], ["counts, coordinates, areas, boundary of the produced mesh"])
p("G01", "Shape mappings and their derivative quantities agree everywhere",
  "For every element shape, the returned Jacobian is the derivative of the returned mapping, the inverse Gramian equals J(JᵀJ)⁻¹, the integration element equals sqrt(det JᵀJ), shapes reported affine have constant Jacobian and volume/corner queries agree with the mapping. Evaluating many points at once equals evaluating each point alone.",
  ["inputs"], "all shape types (point, straight/quadratic segment, triangle, quadrilateral, parallelogram), world dimension 1-3 where admissible, random, anisotropic, nearly degenerate and orientation-reversed corner data, arbitrary batches of reference points",
  "Tests evaluate fixed shapes at few points.",
  [L+"geometry/point.cc", L+"geometry/segment_o1.cc", L+"geometry/segment_o2.cc", L+"geometry/tria_o1.cc", L+"geometry/tria_o2.cc", L+"geometry/quad_o1.cc", L+"geometry/quad_o2.cc", L+"geometry/geometry_interface.cc"],
  [("precomputed coefficient matrices", L+"geometry/tria_o2.cc, quad_o2.cc, segment_o2.cc"), ("closed forms for Jacobians", L+"geometry/*.cc")],
  ["mapping, Jacobian, inverse Gramian, integration element values"])
p("G02", "The shape of a sub-entity is the restriction of its parent's shape",
  "For every element shape and every one of its sides and corners, the sub-entity's mapping equals the parent mapping restricted to that side in the canonical direction, for straight and for curved shapes alike, so that neighbouring curved cells that share their side nodes share the side as a point set.",
  ["inputs"], "all shape types x sub-entities x random corner/midpoint data in 2D and 3D x reference points",
  "Tests compare a handful of shapes at end points or midpoints only.",
  [L+"geometry/tria_o1.cc", L+"geometry/tria_o2.cc", L+"geometry/quad_o1.cc", L+"geometry/quad_o2.cc"],
  [("SubGeometry node selection", L+"geometry/*.cc")], ["sub-geometry mapping vs. parent mapping"])
p("G03", "Refinement patterns tile the element and child shapes restrict the parent",
  "For every refinement pattern and anchor, the children of each dimension are congruent images of reference elements that tile the reference element without gaps or overlap (together with the pattern's interior edges and nodes), and the shape of each child interpolates the parent's mapping composed with the child's placement at its nodes and on the parent's sides and equals it wherever the composition is again a shape of the child's kind, so that volumes of children then add up to the parent's volume.",
  ["inputs", "configurations"], "all patterns x all admissible anchors x all shape types x random shapes (straight and curved, 2D and 3D)",
  "Tests check child counts and some lattice tables; tiling and exact composition for each shape is not covered for all anchors.",
  [L+"geometry/refinement_pattern.cc", L+"refinement/hybrid2d_refinement_pattern.cc", L+"geometry/tria_o1.cc", L+"geometry/tria_o2.cc", L+"geometry/quad_o1.cc", L+"geometry/quad_o2.cc", L+"geometry/segment_o1.cc", L+"geometry/segment_o2.cc"],
  [("child polygon tables", L+"refinement/hybrid2d_refinement_pattern.cc"), ("ChildGeometry", L+"geometry/*.cc")],
  ["child polygons on the lattice", "child geometry mappings"])
p("R01", "Refinement yields conforming watertight meshes covering the same domain",
  "After any sequence of regular, barycentric and edge-marked refinement steps, every level of a mesh hierarchy is a conforming mesh (no hanging nodes, no duplicated nodes or edges, no cell overlap) that covers exactly the same domain with the same boundary as the initial mesh, all marked edges have been split (a step without any marked edge changes nothing), and earlier levels are unchanged.",
  ["histories", "inputs"], "all initial hybrid meshes x all sequences of uniform, barycentric and marking steps with arbitrary marker sets",
  "Tests run a few fixed marking patterns on fixed meshes; conformity depends on the interplay of all edge patterns accumulated over the whole history.",
  [L+"refinement/mesh_hierarchy.cc", L+"refinement/hybrid2d_refinement_pattern.cc"],
  [("closure of edge markers", L+"refinement/mesh_hierarchy.cc"), ("child cell tables", L+"refinement/mesh_hierarchy.cc")],
  ["incidence, areas, boundary length, node coordinates of every level"],
  [("edge_marked_", "edges to be refined", L+"refinement/mesh_hierarchy.h"), ("refinement edges", "per-cell edge for bisection", L+"refinement/mesh_hierarchy.h")])
p("R02", "Parent, child and position-in-parent records agree with the geometry",
  "Across any two consecutive levels of a refinement hierarchy, parent and child records invert each other, every entity is the child of exactly one parent entity of equal or higher dimension, children's dimensions and numbers agree with the recorded pattern, and mapping an entity through its position-in-parent into the parent's shape reproduces the entity's own corners, and its whole shape wherever the child's shape is exactly representable (affine parents, edges, triangles, parallelogram children of quadrilaterals).",
  ["histories", "inputs"], "all hierarchies as for the conformity property, all entities of all levels, straight and curved shapes",
  "Tests check relations on few small hierarchies.",
  [L+"refinement/mesh_hierarchy.cc", L+"refinement/mesh_hierarchy.h"],
  [("parent info construction", L+"refinement/mesh_hierarchy.cc"), ("geometry in parent", L+"refinement/mesh_hierarchy.cc")],
  ["ParentInfos, PointChildInfos/EdgeChildInfos/CellChildInfos, GeometryInParent, ParentEntity"])
p("R03", "Functions keep their values when transferred to finer levels",
  "A function given on a coarse level and transferred to any finer level of the same hierarchy has the same value at the same physical location, reports the finer level's mesh as its own, and prolongating a finite element function between nested levels reproduces the function exactly whenever the fine space contains it.",
  ["histories", "inputs"], "all hierarchies x all level pairs x arbitrary mesh functions and finite element functions of all supported degrees",
  "Tests transfer one function on one or two hierarchies.",
  [L+"refinement/mesh_function_transfer.h", L+"fe/prolongation.h"],
  [("composition of position-in-parent maps", L+"refinement/mesh_function_transfer.h")], ["transferred values vs. coarse values at the same points"])
p("A01", "Degree-of-freedom numbering is a bijection shared consistently by neighbours",
  "Every degree-of-freedom handler numbers 0..N-1 without gaps, each number belongs to exactly one mesh entity which lists it as interior, the list of a cell or edge is the concatenation (corners, edges, interior) of the interior numbers of its sub-entities in the canonical order with edge numbers reversed for oppositely oriented edges, counts agree with lists, and the layout requested per entity type or per entity is respected.",
  ["inputs", "configurations"], "arbitrary hybrid meshes x arbitrary dof layouts (uniform per type, per-entity functors incl. zero and many dofs), incl. non-reversing mode, move and copy of handlers",
  "Tests print or check few layouts on the fixed test meshes.",
  [L+"assemble/dofhandler.cc", L+"assemble/dofhandler.h"],
  [("uniform index initialisation", L+"assemble/dofhandler.cc"), ("dynamic index initialisation", L+"assemble/dofhandler.cc")],
  ["dof counts, index lists, dof-to-entity map"],
  [("dofs_", "per-entity index vectors", L+"assemble/dofhandler.h")])
p("A02", "Assembly is the exact sum of local contributions of active entities",
  "Assembling a matrix or vector adds, to whatever the target already holds, exactly the local contributions of each active entity of the requested codimension at the positions given by test (rows) and trial (columns) index lists, queries inactive entities for nothing, and equals the dense reference sum for any pair of trial/test spaces, provider and scalar type.",
  ["inputs", "configurations"], "arbitrary meshes, pairs of different dof layouts, activity predicates, rectangular and over-sized local matrices, real and complex values, repeated accumulation into one target",
  "Tests assemble fixed providers on fixed meshes and compare few entries.",
  [L+"assemble/assembler.h", L+"assemble/coomatrix.h"],
  [("assembly loops", L+"assemble/assembler.h")], ["assembled matrix/vector vs. reference accumulation", "calls observed by an instrumented provider"])
p("A03", "Triplet matrices behave as the sum of their entries",
  "A triplet-format matrix always represents the sum of all entries added since creation or the last reset, independent of the order of additions: conversion to sparse and dense form, scaled and accumulating matrix-vector products, selective and complete zeroing and dimension queries all agree with that sum for real and complex entries.",
  ["histories", "inputs"], "all sequences of add / zero / zero-by-predicate / multiply / convert operations, repeated positions, empty and rectangular matrices, growth by out-of-range additions",
  "Tests do one short fixed sequence with real numbers.",
  [L+"assemble/coomatrix.h", L+"assemble/coomatrix.cc"],
  [("triplet storage", L+"assemble/coomatrix.h")], ["makeSparse, makeDense, MatVecMult results vs. dense reference model"])
p("A04", "Fixing solution components enforces them and preserves the other equations",
  "Eliminating prescribed components from a linear system yields a system whose solution has exactly the prescribed values in the flagged components and satisfies, in all other rows, the original equations with those values inserted; the symmetric variant keeps a symmetric matrix symmetric, and all offered variants lead to the same solution.",
  ["inputs"], "arbitrary sparse systems (symmetric or not, real or complex, duplicated triplets), any flag subset incl. none and all, prescribed values, and vectors of (index,value) pairs",
  "Tests solve one or two small systems.",
  [L+"assemble/fix_dof.h", L+"assemble/fix_dof.cc"],
  [("symmetric elimination", L+"assemble/fix_dof.h"), ("row replacement", L+"assemble/fix_dof.h")], ["solutions of the modified system, residual of the original one"])
p("Q01", "Quadrature rules integrate exactly up to their declared degree",
  "For every reference element and every requested degree the delivered rule declares at least that degree, integrates all polynomials of its declared degree exactly, places all points inside the element, has weights summing to the reference volume, and equals the rule delivered on any repeated or cached request, references handed out by a cache staying valid for the cache's lifetime.",
  ["inputs", "histories"], "all reference elements x all degrees up to several hundred x all named rules x arbitrary request sequences to a cache",
  "Tests check degrees up to a few dozens for some elements and never interleave cache requests.",
  [L+"quad/make_quad_rule.cc", L+"quad/quad_rules_tria.cc", L+"quad/gauss_quadrature.cc", L+"quad/quad_rule_cache.cc", L+"quad/make_quad_rule_nodal.cc", L+"quad/quad_rule.h"],
  [("tabulated rules", L+"quad/quad_rules_tria.cc"), ("Newton iteration for Gauss points", L+"quad/gauss_quadrature.cc"), ("cache storage", L+"quad/quad_rule_cache.h")],
  ["points, weights, declared order/degree, addresses of cached rules"])
p("F01", "Lagrangian reference elements are nodal bases consistent across dimensions",
  "For each Lagrangian element of degree 1 to 3 on segments, triangles and quadrilaterals the shape functions form the cardinal basis of the full polynomial space for the advertised evaluation nodes (partition of unity, gradients equal derivatives, reproduction of all polynomials), values-to-coefficients conversion inverts evaluation, counts per sub-entity are consistent, and the restriction to each side equals the segment element's functions in the canonical order.",
  ["inputs"], "all elements x all reference points x all polynomials of the space",
  "Tests evaluate at a few points.",
  [L+"uscalfe/lagr_fe.h", L+"uscalfe/precomputed_scalar_reference_finite_element.h", L+"fe/scalar_reference_finite_element.h"],
  [("closed form shape functions", L+"uscalfe/lagr_fe.h")], ["shape function values/gradients, evaluation nodes, nodal conversion"])
p("F02", "Hierarchic elements of any degree span the right space with exact duality",
  "For every combination of positive polynomial degrees on a cell and its sides and every side orientation, the hierarchic shape functions are linearly independent polynomials whose gradients equal their derivatives, vanish on sides they do not belong to, restrict on each side to the segment functions seen from the side's own direction, span all polynomials of the smallest degree involved, and values-to-coefficients conversion inverts evaluation.",
  ["inputs", "configurations"], "all reference elements x degrees (edge and interior degrees independently) up to 20 x all orientation patterns x reference points",
  "Tests cover selected uniform degrees and points; mixed degrees and orientations form an unbounded family.",
  [L+"fe/hierarchic_fe.h", L+"fe/hierarchic_fe.cc"],
  [("Legendre/Jacobi recursions", L+"fe/hierarchic_fe.cc"), ("dual evaluation by quadrature", L+"fe/hierarchic_fe.h")], ["shape function values/gradients, nodal conversion"])
p("F03", "Finite element functions are globally continuous and reproduce polynomials",
  "On every mesh and for every scalar space (Lagrangian degree 1-3, hierarchic with uniform or per-entity degree), any coefficient vector defines a function that takes the same value from both sides of every edge and at every shared node and agrees with its value when evaluated on the edge or node itself; its reported gradient is the gradient of that function; and polynomials of the space's degree are represented exactly on affine meshes.",
  ["inputs", "configurations"], "arbitrary hybrid meshes with arbitrary edge directions and local numberings, planar or embedded, straight or curved x spaces x coefficient vectors",
  "Tests use fixed meshes and few degrees; continuity depends on orientation handling for each possible local configuration.",
  [L+"fe/mesh_function_fe.h", L+"fe/mesh_function_grad_fe.h", L+"fe/hierarchic_scalar_fe_space.h", L+"uscalfe/uniform_scalar_fe_space.h", L+"uscalfe/fe_space_lagrange_o1.h", L+"uscalfe/fe_space_lagrange_o2.h", L+"uscalfe/fe_space_lagrange_o3.h", L+"assemble/dofhandler.cc"],
  [("orientation dependent dof order / shape functions", L+"assemble/dofhandler.cc, fe/hierarchic_fe.h")], ["function values and gradients at matching physical points"])
p("F04", "Nodal projection and boundary interpolation are exact on the space",
  "Projecting any function that lies in the finite element space returns exactly its coefficients (hence projection is idempotent), also when only selected cells are visited, and interpolating essential boundary data flags exactly the degrees of freedom of the selected edges and their end points with the coefficients of the interpolated data.",
  ["inputs", "configurations"], "arbitrary meshes x all scalar spaces x functions in the space x arbitrary edge/cell selections",
  "Tests check one function on one mesh per space.",
  [L+"fe/fe_tools.h"],
  [("local nodal conversion and scatter", L+"fe/fe_tools.h")], ["coefficient vectors, flag/value pairs"])
p("F05", "Integration of mesh functions is exact, additive and selection-faithful",
  "Integrating a function over a mesh equals the sum over exactly the selected entities of the integrals over their shapes, is exact for polynomials up to the requested degree on affine entities, is additive over disjoint selections (zero for an empty one) and independent of entity numbering, for scalar, complex, vector and matrix valued functions.",
  ["inputs", "configurations"], "arbitrary meshes (2D/3D embedded), codimensions 0 and 1, arbitrary selections, arbitrary degrees and per-entity rules",
  "Tests integrate fixed functions over all entities.",
  [L+"fe/fe_tools.h"], [("summation with selection predicate", L+"fe/fe_tools.h")], ["integral values vs. independent reference integration"])
p("U01", "Cell matrices and load vectors equal the variational integrals",
  "On every cell, the element matrices of diffusion, reaction and mass type and the element load vectors equal the integrals of the defining bilinear and linear forms of the given coefficients over the element's true shape (exactly when quadrature is exact), for scalar and tensor, real and complex coefficients; symmetric coefficients give symmetric matrices, constants span the kernel of pure diffusion and entries of mass matrices sum to the coefficient's integral.",
  ["inputs", "configurations"], "arbitrary cells of hybrid meshes (affine, bilinear, curved, embedded in 3D) x all spaces and degrees x coefficients",
  "Tests compare fixed reference matrices on few cells.",
  [L+"fe/loc_comp_ellbvp.h", L+"uscalfe/loc_comp_ellbvp.h", L+"uscalfe/loc_comp_ellbvp.cc", L+"uscalfe/lin_fe.cc", L+"uscalfe/lin_fe.h"],
  [("quadrature loops with pulled-back gradients", L+"fe/loc_comp_ellbvp.h, uscalfe/loc_comp_ellbvp.h")], ["element matrices/vectors vs. independently integrated forms"])
p("U02", "Edge matrices and edge loads equal the boundary integrals on selected edges",
  "On every selected edge the edge mass matrix and edge load vector equal the line integrals of the given coefficient against the restricted shape functions over the edge's true shape, are consistent with the traces of the adjacent cells' functions, and only selected edges are active.",
  ["inputs", "configurations"], "arbitrary meshes and edge selections x all spaces and degrees x coefficients x straight and curved edges",
  "Tests use a single mesh and full boundary.",
  [L+"fe/loc_comp_ellbvp.h", L+"uscalfe/loc_comp_ellbvp.h"], [("edge quadrature loops", L+"fe/loc_comp_ellbvp.h, uscalfe/loc_comp_ellbvp.h")], ["edge matrices/vectors, activity predicate"])
p("U03", "The full pipeline solves problems exactly when the solution is representable",
  "Discretising and solving a second-order elliptic problem with mixed essential, natural and impedance boundary conditions on any mesh reproduces the exact solution up to rounding whenever it lies in the finite element space and the data are integrated exactly.",
  ["programs", "inputs", "configurations"], "arbitrary affine hybrid meshes incl. adaptively refined ones x spaces (Lagrange 1-3, hierarchic uniform and variable degree) x polynomial solutions x coefficient tensors x boundary partitions",
  "Tests check convergence rates on regular grids, which tolerate local errors.",
  [L+"assemble", L+"fe", L+"uscalfe", L+"refinement"], [("assembly + elimination + projection pipeline", L+"assemble, fe, uscalfe")], ["error of the computed solution"])
p("U04", "Results do not depend on numbering, orientation or local corner order",
  "Renumbering nodes and cells, reversing edges or rotating or reversing the local corner order of cells of a mesh changes assembled operators, integrals, boundary flags and discrete solutions only by the induced permutation of degrees of freedom.",
  ["inputs", "configurations"], "pairs of differently described but identical meshes x spaces x problems",
  "No test compares two descriptions of the same mesh.",
  [L+"mesh", L+"assemble", L+"fe", L+"uscalfe"], [("orientation handling", L+"assemble/dofhandler.cc, fe/hierarchic_fe.h")], ["solutions, energies, integrals for two descriptions of one mesh"])
p("N01", "Mesh function algebra is pointwise arithmetic",
  "Every mesh function built from others by the offered unary and binary operators, wrappers and constants evaluates, at every set of points of every entity, to the corresponding pointwise arithmetic of the operands' values, for scalar, vector, matrix and mixed real/complex value types.",
  ["inputs", "programs"], "random expression trees over all operators and value types x entities x point batches (incl. a single point)",
  "Tests check each operator once on constant-like data.",
  [L+"mesh/utils/mesh_function_binary.h", L+"mesh/utils/mesh_function_unary.h", L+"mesh/utils/mesh_function_constant.h", L+"mesh/utils/mesh_function_global.h", L+"mesh/utils/mesh_function_traits.h"],
  [("vectorised operator kernels", L+"mesh/utils/mesh_function_binary.h, mesh_function_unary.h")], ["evaluated values vs. pointwise arithmetic"])
p("I01", "Reading a Gmsh file yields the same mesh and groups in every encoding",
  "Reading a well-formed Gmsh file of either supported format version, text or binary, yields the described mesh (points used by cells, straight or second-order cells and edges with their coordinates) and for each entity exactly the physical groups assigned to it in ascending order, with name and number lookups mutually inverse and failing for absent names; all encodings of the same mesh give equal results.",
  ["inputs", "configurations"], "generated meshes x {2.2, 4.1} x {text, binary} x sparse node tags, auxiliary nodes, multiple groups per entity, points as elements, comment sections, periodic sections, ambiguous names",
  "Tests read a few files exported by one version of Gmsh and compare entity counts.",
  [L+"io/gmsh_reader.cc", L+"io/gmsh_file_v2.cc", L+"io/gmsh_file_v4.cc", L+"io/gmsh_file_v4_text.cc", L+"io/gmsh_file_v4_binary.cc", L+"io/gmsh_file_v4_detail.h"],
  [("spirit grammars", L+"io/gmsh_file_v2.cc, gmsh_file_v4_text.cc, gmsh_file_v4_binary.cc"), ("group assignment", L+"io/gmsh_reader.cc")], ["mesh, group queries vs. the generator's description"])
p("I02", "Damaged Gmsh files are rejected instead of yielding a wrong mesh",
  "A Gmsh file cut off at any point before the end of its element section, or whose section markers, counts or numeric fields are corrupted so that it is no longer well-formed, is refused with a reported error; it never produces a mesh, an endless loop or an invalid memory access.",
  ["inputs", "fault_sequences"], "every truncation point and marker/count corruption of generated files in all encodings",
  "No test feeds a damaged file.",
  [L+"io/gmsh_file_v2.cc", L+"io/gmsh_file_v4.cc", L+"io/gmsh_file_v4_text.cc", L+"io/gmsh_file_v4_binary.cc", L+"io/gmsh_reader.cc"],
  [("expectation points in the grammars, success verification", L+"io/gmsh_file_v2.cc, gmsh_file_v4.cc")], ["outcome of reading a damaged file (error vs. mesh), sanitizer reports"])
p("I05", "The in-memory representation of a Gmsh file holds all its records",
  "ReadGmshFile turns a well-formed file of format 2.2 or 4.1, in text or binary of either byte order, into a data structure with exactly the records of the file in their order: physical names, (partitioned) entities with coordinates, groups, parents, partitions and boundaries, nodes, elements of every Gmsh type with number, tags, partitions and complete node list, periodic links with optional transformation and node pairs, ghost entities and elements. Foreign sections are skipped. Node number, dimension and reference element of every type agree with the Gmsh manual.",
  ["inputs"], "arbitrary contents: any number of records per section (including none), all 33 element types, arbitrary tags, negative numbers, names with any printable characters, optional sections present or absent, six encodings",
  "Tests read a few fixed two-dimensional files and look at single records.",
  [L+"io/gmsh_file_v2.cc", L+"io/gmsh_file_v4.cc", L+"io/gmsh_file_v4_text.cc", L+"io/gmsh_file_v4_binary.cc", L+"io/gmsh_reader.cc"],
  [("grammars of both formats, tables of element types", L+"io/gmsh_file_v2.cc, gmsh_file_v4*.cc")], ["records of the returned GMshFileV2/GMshFileV4 vs. the generated contents"])
p("I03", "VTK output describes the mesh and data faithfully in every mode",
  "A written VTK file, text or binary, of any order and for cells or edges, is a valid legacy file whose points, connectivity, cell types and point/cell/global data sets describe exactly the mesh (high-order nodes at the standard equidistant positions in the standard order) and the supplied values, missing values being replaced by the given default; text and binary variants agree up to the text precision.",
  ["inputs", "configurations"], "arbitrary meshes (2D/3D embedded, curved) x order 1-10 x text/binary x codimension x all data types, mesh functions and data sets",
  "Tests write files but never parse them back.",
  [L+"io/vtk_writer.h", L+"io/vtk_writer.cc"], [("grammar based generation", L+"io/vtk_writer.cc"), ("auxiliary node layout", L+"io/vtk_writer.cc")], ["parsed file content vs. mesh and data"])
p("I04", "Matlab, CSV and TikZ exports describe exactly the mesh",
  "The Matlab, CSV and TikZ exports of any planar mesh contain every node, edge and cell exactly once with correct connectivity, index and coordinates up to text precision, under the requested file name completed by the documented extension, and selection and flags restrict the output to exactly what was requested.",
  ["inputs", "configurations"], "arbitrary planar hybrid meshes x file names x TikZ flag combinations and selectors",
  "Tests only run the writers.",
  [L+"io/write_matlab.cc", L+"io/write_matplotlib.cc", L+"io/write_tikz.cc"], [("output loops", L+"io/write_matlab.cc, write_matplotlib.cc, write_tikz.cc")], ["parsed output vs. mesh"])
p("D01", "Product and discontinuous spaces number and restrict components correctly",
  "A product space of several components numbers every component's degrees of freedom as a disjoint contiguous block, local index lists are the concatenation of the components' lists with the advertised local offsets, component and entity queries invert the numbering, and discontinuous or trace components are uncoupled between cells respectively vanish in cell interiors as advertised.",
  ["inputs", "configurations"], "arbitrary meshes x arbitrary component layouts and factory call sequences",
  "Tests use two fixed layouts.",
  ["projects/dpg/product_dofhandler.cc", "projects/dpg/product_fe_space.h", "projects/dpg/product_fe_space_factory.h", "projects/dpg/discontinuous_fe_constant.h", "projects/dpg/trace_scalar_reference_finite_element.h", "projects/dpg/discontinuous_scalar_reference_finite_element.h"],
  [("offset based index arrays", "projects/dpg/product_dofhandler.cc")], ["index lists and inverse queries"])
p("D02", "Petrov-Galerkin local blocks equal the forms they are built from",
  "Element matrices and vectors of product-space providers equal the sums of the added sub-blocks integrated over the cell (including edge flux terms with true outer normals and per-edge signs that are opposite on the two sides), flux functions are single-valued on the edges between cells, exact polynomial solutions satisfy the assembled primal and ultraweak equations, and the condensed minimal-residual matrix equals BᵀG⁻¹B of those blocks, symmetric positive semidefinite on every cell.",
  ["inputs", "configurations"], "arbitrary cells incl. clockwise and non-convex ones x sub-block combinations x coefficients",
  "Tests check convergence on regular grids.",
  ["projects/dpg/loc_comp_dpg.h", "projects/dpg/dpg_tools.cc", "projects/dpg/dpg_element_matrix_provider.h", "projects/dpg/dpg_element_vector_provider.h", "projects/dpg/product_element_matrix_provider.h", "projects/dpg/product_element_matrix_provider_builder.h"],
  [("block scatter with local offsets", "projects/dpg/product_element_matrix_provider.h"), ("normals and signs", "projects/dpg/dpg_tools.cc")], ["element matrices vs. reference integration"])
p("S01", "The Stokes discretisation is divergence-free, consistent and symmetric",
  "On every straight-sided planar triangular mesh the interior-penalty Stokes system is symmetric, its element blocks and load vectors equal the defining integrals and tangential components irrespective of local corner order (in the plain and the modified penalty variant), and its solution satisfies the interior-penalty weak equation: the extracted velocity is the piecewise constant curl of the stream function, divergence free with continuous normal component across every inner edge, has zero normal component on the boundary in the no-flow setting and the prescribed one in the in/out-flow setting (compatible data, one simple closed boundary curve), where constant flows are reproduced exactly. The L2 norm and the broken DG norm (cell gradients plus jumps over inner edges scaled by 1/|e|) equal their defining integrals.",
  ["inputs", "configurations"], "arbitrary triangular meshes (any orientation/numbering, holes, several components) x penalty, forcing, boundary data, both penalty variants",
  "Tests check one mesh and element matrix; none solves a problem or checks a norm (the norm tests are not even built).",
  ["projects/ipdg_stokes/assemble/piecewise_const_element_matrix_provider.cc", "projects/ipdg_stokes/assemble/piecewise_const_element_vector_provider.cc", "projects/ipdg_stokes/assemble/build_system_matrix.cc", "projects/ipdg_stokes/assemble/offset_function.cc", "projects/ipdg_stokes/mesh/utils.cc", "projects/ipdg_stokes/post_processing/solution_to_mesh_data_set.cc", "projects/ipdg_stokes/post_processing/norms.h", "projects/ipdg_stokes/post_processing/mesh_function_velocity.h"],
  [("outward normals", "projects/ipdg_stokes/mesh/utils.cc"), ("curl basis", "projects/ipdg_stokes/assemble")], ["element blocks, system matrix, extracted velocities, norms"])
p("E01", "The Fisher/KPP evolution advances by exactly the requested time, second order",
  "For every mesh, positive diffusion coefficient, boundary exchange coefficient, non-local boundary matrix, growth factor, capacity and number of steps m (including one and two), the Galerkin matrices equal stiffness plus boundary mass minus the non-local matrix, and the mass matrix; a diffusion step is the two-stage SDIRK step of length T/m or half of it; and an evolution composes half a diffusion step, m full reaction steps separated by full diffusion steps, and half a diffusion step, so that it approximates the solution at time T with second order, follows the logistic law exactly for constant states without boundary exchange, keeps equilibria and extinct states, and preserves the total amount without growth and exchange. Repeated calls give the same result.",
  ["inputs", "configurations"], "planar meshes x coefficients x growth factors, capacities, initial states x numbers of steps",
  "No test exists for this part; the order and the final time of the evolution are relations between runs with different numbers of steps.",
  ["projects/fisher_kpp/strangsplitting.cc", "projects/fisher_kpp/strangsplitting.h"],
  [("splitting loop", "projects/fisher_kpp/strangsplitting.cc"), ("Galerkin matrices, precomputed factorisations", "projects/fisher_kpp/strangsplitting.h")], ["matrices, results of single steps and of whole evolutions"])
p("X01", "No memory or undefined-behaviour error in any admissible use",
  "Admissible programs that build, refine, copy, move, share and destroy meshes, hierarchies, spaces, handlers, functions, caches, readers and writers in any order permitted by their documented ownership never access invalid or uninitialised memory, leak, or execute undefined arithmetic.",
  ["programs", "histories"], "random programs over the public API with random object lifetimes and destruction orders",
  "Tests run uninstrumented with one lifetime order.",
  [L+"mesh", L+"refinement", L+"assemble", L+"fe", L+"uscalfe", L+"io", L+"quad"],
  [("shared ownership of meshes and spaces", L+"mesh, fe, uscalfe"), ("non-owning views (spans, reference to rules)", L+"assemble/dofhandler.h, fe/hierarchic_fe.h")], ["AddressSanitizer, LeakSanitizer, UndefinedBehaviorSanitizer, Valgrind reports"])
p("X02", "Concurrent read-only use gives sequential results without data races",
  "Any number of threads that only query shared meshes, hierarchies, spaces and functions, or that build and use objects of their own, obtain exactly the results of a sequential run and never race on hidden shared state.",
  ["schedules", "programs"], "all interleavings of read-only queries, local assembly and independent constructions from several threads",
  "All tests are single threaded.",
  [L+"mesh", L+"fe", L+"uscalfe", L+"quad", L+"geometry", L+"refinement", L+"base"],
  [("absence of mutable shared state / static initialisation", L+"base/ref_el.h, quad, fe")], ["ThreadSanitizer reports, per-thread results vs. sequential results"])
p("B02", "Formatted matrices and log messages keep their complete content",
  "Formatting an Eigen matrix, array or expression yields one bracketed line per row with every entry to the requested number of significant digits (default 4). A logger from InitLogger is registered under its unique name; its formatter prints the first line of a message exactly like the wrapped formatter and every further line complete and indented by the width of the prefix, and single-line messages unchanged. The EigenMatrix/EigenArray concepts hold exactly for the documented types.",
  ["inputs", "configurations"], "all scalar types, sizes, storage orders, expressions and precisions; all messages with any number of (empty) lines, levels and patterns whose text ends with the message",
  "Tests format two fixed matrices and do not check the line feed formatter's output.",
  [L+"base/eigen_tools.h", L+"base/spdlog_utils.cc"],
  [("formatter of Eigen types", L+"base/eigen_tools.h"), ("indentation of continued lines", L+"base/spdlog_utils.cc")], ["formatted strings and log output vs. an independent rendering"])
p("T01", "Timers and utility conversions are faithful",
  "Timers report non-negative, additive wall and CPU times that survive stop/resume sequences, and the checked narrowing conversion returns the value unchanged exactly when it is representable and reports an error otherwise.",
  ["histories", "inputs"], "all start/stop/resume/format sequences; all source values and integer/floating type pairs",
  "Tests run one sequence and few values.",
  [L+"base/timer.cc", L+"base/timer.h", L+"base/narrow.h"],
  [("accumulated tick counts", L+"base/timer.cc"), ("round trip comparison", L+"base/narrow.h")], ["elapsed values, formatted strings, conversion outcomes"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        for fn in x["anchors"]["files"]:
            if not os.path.exists("/repo/" + fn): print("missing", x["id"], fn)
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
