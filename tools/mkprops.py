#!/usr/bin/env python3
"""Generates properties.jsonl (kept so that the list is reviewable as text)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))

L='lib/lf/'
p('P01','Built meshes reproduce the supplied topology and numbering',
 'For every sequence of points, edges and cells handed to a mesh factory, the built mesh contains exactly those entities plus exactly one edge per remaining distinct cell side; points, user-supplied edges and cells keep the consecutive index the factory returned for them, and a factory can be reused after a build as if it were new. Every cell lists its nodes in the supplied order and its edges in the order of the reference element, shared sides are one and the same edge object, and the reported relative orientation of an edge is positive exactly when the edge runs in the direction of the cell side. Looking up an entity by index and asking an entity for its index are inverse bijections onto 0..N-1 for each codimension, and counts by codimension and by element type agree with the entities enumerated.',
 ['inputs','histories'],'all planar hybrid triangle/quadrilateral complexes, all insertion orders, all subsets of user supplied edges in either direction, repeated use of one factory',
 'The tests build a dozen fixed meshes; numbering, orientation and edge identification depend on insertion order and on which edges are supplied, a combinatorial space they sample a few points of.',
 [L+'mesh/hybrid2d/mesh.cc',L+'mesh/hybrid2d/mesh_factory.cc',L+'mesh/hybrid2d/triangle.cc',L+'mesh/hybrid2d/quad.cc',L+'mesh/hybrid2d/segment.cc',L+'mesh/hybrid2d/point.h'],
 [('edge map keyed by unordered endpoint pair','lib/lf/mesh/hybrid2d/mesh.cc Mesh::Mesh'),('index arrays entity_pointers_','lib/lf/mesh/hybrid2d/mesh.cc'),('orientation determination','lib/lf/mesh/hybrid2d/triangle.cc, quad.cc')],
 [('nodes_/edges_/elements_','entities registered so far','lib/lf/mesh/hybrid2d/mesh_factory.h')],
 ['return values of the factory','mesh entity/sub-entity/index/orientation queries'])
p('P02','Geometries in a mesh agree with each other and with what was supplied',
 'In every built mesh the shape of each entity agrees with the positions of its nodes in their listed order, and the shape of each edge as a curve, traversed from its first to its second node, coincides with the trace of every adjacent cell whose geometry is as curved as that edge. A geometry supplied for an entity is used for that entity; a missing one is deduced from an adjacent cell that has one and otherwise is the straight segment, affine triangle or bilinear quadrilateral through the nodes.',
 ['inputs','configurations'],'all mixes of straight and curved (second order), supplied and missing geometries for cells and edges, in any insertion order and edge direction',
 'Tests use meshes in which either all geometries are given and straight or none are; the direction bookkeeping for deduced geometries is only exercised by particular orders.',
 [L+'mesh/hybrid2d/mesh.cc',L+'geometry/tria_o2.cc',L+'geometry/quad_o2.cc',L+'geometry/segment_o2.cc',L+'geometry/tria_o1.cc',L+'geometry/quad_o1.cc'],
 [('geometry inheritance and edge reversal','lib/lf/mesh/hybrid2d/mesh.cc Mesh::Mesh')],
 [],['Entity::Geometry()->Global at corners, midpoints and quarter points'])
p('P03','Ill-formed meshes are rejected instead of being built',
 'Building a mesh fails with an error, and never returns a mesh, when an entity refers to a node that was not added, when the number of nodes does not match the element type, when an edge is supplied twice or joins a node to itself, or when the completeness check is on and some edge belongs to no cell or some node to no edge. Any well-formed input is accepted.',
 ['inputs','fault_sequences'],'all single-defect mutations of well-formed construction sequences, with the completeness check on and off',
 'Tests cover two incomplete meshes; each kind of defect in each position is an input the suite does not contain.',
 [L+'mesh/hybrid2d/mesh.cc',L+'mesh/hybrid2d/mesh_factory.cc'],
 [('LF_ASSERT/LF_VERIFY guards and completeness check','lib/lf/mesh/hybrid2d/mesh.cc, mesh_factory.cc')],[],['error raised or mesh returned'])
p('P04','Structured mesh builders produce the documented tensor-product mesh',
 'For every grid size and bounding box, the structured triangle, quadrilateral and torus builders produce a valid conforming mesh with the node, edge and cell counts implied by the grid; nodes are numbered lexicographically at equispaced positions, and cells cover each grid square exactly once with positive orientation (the torus identifies opposite sides).',
 ['inputs','configurations'],'all numbers of cells per direction and all bounding boxes',
 'Tests build a handful of sizes and mostly check counts.',
 [L+'mesh/utils/tp_triag_mesh_builder.cc',L+'mesh/utils/tp_quad_mesh_builder.cc',L+'mesh/utils/torus_mesh_builder.cc',L+'mesh/utils/structured_mesh_builder.h'],
 [('index arithmetic of the builders','lib/lf/mesh/utils/*_builder.cc')],[],['mesh topology and geometry queries'])
p('P05','Boundary flags, super-entity counts and mesh data sets are exact',
 'On every mesh, for every pair of codimensions, the super-entity count of an entity is the number of entities containing it; an edge is flagged as boundary exactly when a single cell contains it, a node exactly when a boundary edge contains it, and the flags can be restricted to one codimension; a selection by the position of the centers of entities picks exactly those whose center satisfies the predicate. Data attached to mesh entities is returned for exactly the entity it was stored for, holds its initial value elsewhere, and is defined exactly for the requested entities.',
 ['inputs','histories'],'all hybrid meshes and all sequences of writes to data sets',
 'Tests check one mesh; wrong results for interior holes, quads or mixed meshes would pass.',
 [L+'mesh/utils/special_entity_sets.cc',L+'mesh/utils/special_entity_sets.h',L+'mesh/utils/codim_mesh_data_set.h',L+'mesh/utils/all_codim_mesh_data_set.h',L+'refinement/mesh_hierarchy.h'],
 [('CountNumSuperEntities, flagEntitiesOnBoundary','lib/lf/mesh/utils/special_entity_sets.cc')],[('data sets','per-entity value arrays','lib/lf/mesh/utils/*_mesh_data_set.h')],['flags, counts and stored values'])
p('P06','Uniform refinement yields the conforming refinement of every cell',
 'Refining a mesh hierarchy uniformly, regularly or barycentrically and any number of times, produces for each straight-sided or curved hybrid mesh a finer conforming mesh in which every cell is replaced by its regular (four similar or half-size) or barycentric children, every edge by its two halves, nothing overlaps or is lost, and the boundary of the finer mesh is the halved boundary of the coarser one.',
 ['inputs','histories'],'all hybrid meshes and sequences of regular/barycentric refinement steps',
 'Tests check selected meshes with generic consistency helpers, not that the finer mesh is the exact refinement.',
 [L+'refinement/mesh_hierarchy.cc',L+'refinement/hybrid2d_refinement_pattern.cc'],
 [('RefineRegular, PerformRefinement','lib/lf/refinement/mesh_hierarchy.cc')],[('meshes_','sequence of nested meshes','lib/lf/refinement/mesh_hierarchy.h')],['getMesh(level)'])
p('P07','Local refinement is conforming, honours marks and is minimal',
 'After any history of marking edges and refining, the finest mesh is conforming and nested in the previous one, every marked edge has been split at its midpoint, and an edge is split only if it was marked or some triangle with a split edge forces it as its refinement edge. Each cell is subdivided by the documented pattern for its set of split edges, cells without split edges are copied unchanged, and every triangle has a refinement edge: a longest one on the coarsest level, kept by copied triangles and parallel to that of the parent for similar children of regular refinement.',
 ['histories','inputs'],'all hybrid meshes and all sequences of marking sets, including interleaving with uniform refinement',
 'The closure depends on the marking history; tests run a few random or fixed markings and check only generic mesh sanity.',
 [L+'refinement/mesh_hierarchy.cc',L+'refinement/hybrid2d_refinement_pattern.cc'],
 [('MarkEdges, RefineMarked closure loop, PerformRefinement','lib/lf/refinement/mesh_hierarchy.cc')],
 [('edge_marked_, refinement_edges_','marking state and per-triangle refinement edge','lib/lf/refinement/mesh_hierarchy.h')],['getMesh(level)','RefinementEdges(level)'])
p('P08','Parent/child records link consecutive levels exactly',
 'In every mesh hierarchy, each entity of a finer level names exactly one parent entity of the next coarser level and its position among that parent\'s children, and each coarser entity lists exactly those children by codimension together with the pattern used. The relative geometry recorded for a child describes its location in the parent\'s reference element: mapping it by the parent\'s geometry gives the child\'s geometry.',
 ['histories','inputs'],'all histories of uniform and local refinement on hybrid meshes',
 'Tests check counts and a few sampled relations; a mix-up for one pattern/anchor/orientation combination shows only for specific histories.',
 [L+'refinement/mesh_hierarchy.cc',L+'refinement/mesh_hierarchy.h'],
 [('initialisation of ParentInfo and ChildInfo','lib/lf/refinement/mesh_hierarchy.cc PerformRefinement, initGeometryInParent')],
 [('parent_infos_, *_child_infos_','links between levels','lib/lf/refinement/mesh_hierarchy.h')],['ParentInfos, ChildInfos, GeometryInParent'])
p('P09','Reference refinement patterns tile the reference element',
 'For every reference element, refinement pattern and admissible anchor edge, the child polygons listed for codimension 0 tile the reference element without overlap, the announced numbers of children agree with the polygons listed, and the polygons of codimension 1 and 2 are exactly the new interior edges and points of that tiling. The edges of the element touched by the pattern are split at their midpoints and no others.',
 ['configurations'],'all element types, patterns, anchors and codimensions (a finite set)',
 'Tests check areas of some patterns, which misses wrong shapes of equal area and wrong codimension 1/2 children.',
 [L+'refinement/hybrid2d_refinement_pattern.cc',L+'geometry/refinement_pattern.cc'],
 [('ChildPolygons tables','lib/lf/refinement/hybrid2d_refinement_pattern.cc')],[],['NumChildren, ChildPolygons'])
p('P10','Sub- and child geometries are restrictions of the parent geometry',
 'For every geometry type and every sub-entity, the geometry of the sub-entity is the parent mapping restricted to that sub-entity with the direction of the reference element; for every refinement pattern, the child geometries are in the order of the pattern\'s child polygons and their corners (and for second order shapes also their edge midpoints) are images of the polygon points under the parent mapping, in any world dimension.',
 ['inputs','configurations'],'all geometry types (point, segment, triangle, quadrilateral, parallelogram; first and second order), all coordinates, all patterns, anchors and codimensions',
 'Tests sample one or two instances per type with tolerances.',
 [L+'geometry/tria_o1.cc',L+'geometry/tria_o2.cc',L+'geometry/quad_o1.cc',L+'geometry/quad_o2.cc',L+'geometry/segment_o1.cc',L+'geometry/segment_o2.cc',L+'geometry/point.cc'],
 [('SubGeometry, ChildGeometry','lib/lf/geometry/*.cc')],[],['Global of sub and child geometries'])
p('P11','Geometry mappings and their metric quantities are mutually consistent',
 'For every geometry type and every point of the reference element, the mapping interpolates its nodes by the shape functions of its order, the reported Jacobian is the derivative of the mapping, the integration element is the square root of the Gram determinant of the Jacobian and the inverse Gramian matrix is J times the inverse of its Gram matrix. Affine types report constant Jacobians, volume equals the measure for affine shapes, and evaluation at several points equals evaluation at each.',
 ['inputs'],'all coordinates, evaluation points and batches of points for all geometry types in world dimension 1 to 3',
 'Tests compare with finite differences on a few instances; they do not cover second order shapes in 3D, batches or orientation-reversed elements.',
 [L+'geometry/tria_o1.cc',L+'geometry/tria_o2.cc',L+'geometry/quad_o1.cc',L+'geometry/quad_o2.cc',L+'geometry/segment_o1.cc',L+'geometry/segment_o2.cc',L+'geometry/geometry_interface.cc'],
 [('Global, Jacobian, JacobianInverseGramian, IntegrationElement','lib/lf/geometry/*.cc')],[],['those methods'])
p('P12','Uniform dof handlers number all shape functions consistently',
 'For every mesh and every assignment of numbers of shape functions to element types, global indices form 0..N-1, every entity owns exactly its announced number of interior dofs, and the dofs of an entity are those of its nodes, then edges, then interior, with dofs of an edge listed in the direction of the element\'s side. Adjacent elements see the same global index for the same shape function of a shared sub-entity, dof-to-entity lookup inverts ownership, and the local counts agree with the index lists.',
 ['inputs','configurations'],'all hybrid meshes (including any edge orientation) and all dof layouts',
 'Tests check fixed meshes with one or two layouts; ordering and orientation errors for several dofs per edge appear only with particular orientations.',
 [L+'assemble/dofhandler.cc',L+'assemble/dofhandler.h'],
 [('UniformFEDofHandler::initIndexArrays','lib/lf/assemble/dofhandler.cc')],[('dofs_, internal_dofs_, dof_entities_','index tables','lib/lf/assemble/dofhandler.h')],['GlobalDofIndices, InteriorGlobalDofIndices, NumLocalDofs, NumInteriorDofs, NumDofs, Entity'])
p('P13','Dynamic dof handlers honour per-entity dof counts',
 'For every mesh and every function assigning a number of interior dofs to each individual entity, the dynamic dof handler satisfies the same numbering contract: indices 0..N-1, each entity owning exactly the requested number, local lists ordered nodes, edges, interior with edge dofs in the direction of the element\'s side, shared entities shared, and dof-to-entity lookup inverse to ownership.',
 ['inputs','configurations'],'all hybrid meshes and all per-entity dof count functions',
 'One test with one layout exists; non-uniform counts (for example zero on some entities) are sampled once.',
 [L+'assemble/dofhandler.cc',L+'assemble/dofhandler.h'],
 [('DynamicFEDofHandler constructor','lib/lf/assemble/dofhandler.h')],[('dofs_, offsets_','index tables','lib/lf/assemble/dofhandler.h')],['GlobalDofIndices, InteriorGlobalDofIndices, NumLocalDofs, NumInteriorDofs, NumDofs, Entity'])
p('P14','Triplet matrices behave as the matrix they accumulate',
 'After every history of adding entries, clearing, selective clearing and multiplying, a triplet-format matrix represents the matrix in which the contributions to each position are summed: conversion to sparse, conversion to dense and scaled matrix-vector products all agree with it, and its dimensions are the initial ones enlarged to cover every index ever added.',
 ['histories'],'all sequences of operations on a triplet matrix',
 'Tests use one or two short sequences.',
 [L+'assemble/coomatrix.h',L+'assemble/coomatrix.cc'],
 [('COOMatrix','lib/lf/assemble/coomatrix.h')],[('triplets_, rows_, cols_','accumulated entries and size','lib/lf/assemble/coomatrix.h')],['makeSparse, makeDense, MatVecMult, rows, cols'])
p('P15','Assembly adds exactly the local contributions of active entities',
 'For every mesh, codimension, pair of dof handlers and local provider, assembling a matrix or vector adds to the destination, at the global positions given by the dof handlers, exactly the element matrix or vector of each entity the provider declares active, each exactly once, and leaves all other content as it was. Assembling twice or in parts accumulates.',
 ['inputs','configurations','histories'],'all meshes, codimensions, trial/test dof handlers and activity patterns, all sequences of assembly calls on one destination',
 'Tests assemble on one mesh with equal trial and test spaces.',
 [L+'assemble/assembler.h'],
 [('AssembleMatrixLocally, AssembleVectorLocally','lib/lf/assemble/assembler.h')],[],['contents of the destination matrix/vector'])
p('P16','Fixing solution components preserves the solution of the constrained system',
 'For every square system and every selection of components with prescribed values, the modified system has exactly the solution that takes the prescribed values and satisfies the remaining original equations (or, in the variant that only replaces rows, whose fixed rows are identity rows with the value on the right); entries and right-hand sides not involved are unchanged, and the symmetric variant keeps symmetry.',
 ['inputs'],'all matrices with duplicate and off-range-free triplets, all selections (none to all) and values, all three interfaces',
 'Tests solve one assembled system.',
 [L+'assemble/fix_dof.h'],
 [('FixFlaggedSolutionComponents, FixFlaggedSolutionCompAlt, FixSolutionComponentsLse','lib/lf/assemble/fix_dof.h')],[],['resulting matrix and right-hand side'])
p('P17','Quadrature rules are exact up to their announced degree',
 'Every quadrature rule handed out for any reference element and requested degree announces at least that degree, integrates all polynomials of its announced degree exactly (total degree on triangles, degree in each variable on quadrilaterals), and has as many points as weights, all inside the reference element, with weights summing to its area. The named special rules and rules based on element nodes satisfy the same contract.',
 ['configurations'],'all element types, all requested degrees and all named rules',
 'Tests check monomials with loose tolerances for part of the degrees.',
 [L+'quad/make_quad_rule.cc',L+'quad/quad_rules_tria.cc',L+'quad/gauss_quadrature.cc',L+'quad/make_quad_rule_nodal.cc',L+'quad/make_quad_rule.h'],
 [('rule tables and tensor/Duffy construction','lib/lf/quad')],[],['Points, Weights, Degree'])
p('P18','Cached quadrature rules are stable and equal to fresh ones',
 'For every history of requests to a quadrature rule cache, the rule returned has the requested element type, equals the rule produced directly for that element and degree, repeated requests return the same object, and references handed out earlier stay valid and unchanged.',
 ['histories'],'all sequences of (element type, degree) requests',
 'The test issues a few requests and does not re-inspect earlier references.',
 [L+'quad/quad_rule_cache.cc',L+'quad/quad_rule_cache.h'],
 [('QuadRuleCache::Get','lib/lf/quad/quad_rule_cache.cc')],[('cache_','rules by element and degree','lib/lf/quad/quad_rule_cache.h')],['references returned by Get'])
p('P19','Lagrangian reference elements are nodal bases of the full polynomial space',
 'For each Lagrangian element of degree one to three on segment, triangle and quadrilateral, the reference shape functions take value one at their own evaluation node and zero at the others, sum to one, span all polynomials of the degree, and the reported gradients are their derivatives. Numbers of shape functions per sub-entity are consistent, restriction of the element to a side is the Lagrangian element of the segment in the side\'s order, and the nodal-values-to-coefficients map is inverse to evaluation at the evaluation nodes.',
 ['configurations','inputs'],'all degrees and element types, all evaluation points and coefficient vectors',
 'Tests compare selected hard-coded values.',
 [L+'uscalfe/lagr_fe.h',L+'fe/scalar_reference_finite_element.h',L+'uscalfe/precomputed_scalar_reference_finite_element.h'],
 [('FeLagrangeO1/O2/O3*','lib/lf/uscalfe/lagr_fe.h')],[],['EvalReferenceShapeFunctions, GradientsReferenceShapeFunctions, EvaluationNodes, NodalValuesToDofs'])
p('P20','Finite element spaces are globally continuous and reproduce polynomials',
 'On every hybrid mesh, each coefficient vector of a Lagrangian space of degree one to three or of a hierarchic space of any (also locally varying) degree describes a function that is continuous across every edge, and the nodal projection of a polynomial of at most the space\'s degree on affine cells reproduces that polynomial and its gradient everywhere.',
 ['inputs','configurations'],'all hybrid meshes with arbitrary edge orientations, all degrees, coefficient vectors and polynomials',
 'Continuity depends on the relative orientation of shared edges in particular meshes; tests check fixed meshes and mostly uniform degree.',
 [L+'fe/hierarchic_fe.h',L+'fe/hierarchic_scalar_fe_space.h',L+'uscalfe/lagr_fe.h',L+'uscalfe/uniform_scalar_fe_space.h',L+'fe/fe_tools.h',L+'fe/mesh_function_fe.h',L+'fe/mesh_function_grad_fe.h',L+'assemble/dofhandler.cc'],
 [('orientation dependent dof order and shape functions','lib/lf/fe/hierarchic_fe.h, lib/lf/assemble/dofhandler.cc')],[],['MeshFunctionFE, MeshFunctionGradFE, NodalProjection'])
p('P21','Hierarchic reference elements form nested, dual bases of full degree',
 'For every degree and every combination of edge degrees and edge orientations, the hierarchic shape functions on segment, triangle and quadrilateral are linearly independent and span all polynomials of the common degree, gradients are their derivatives, functions of interior of a sub-entity vanish on the sub-entities not containing it, lower degree bases are contained in higher degree ones, the nodal-values-to-coefficients map is inverse to evaluation at the evaluation nodes, and the numbers of shape functions reported per sub-entity (one per vertex) add up to their total.',
 ['configurations','inputs'],'all degrees up to a bound per sub-entity and all orientation patterns',
 'Tests run uniform degrees with random orientation at a few points.',
 [L+'fe/hierarchic_fe.h',L+'fe/hierarchic_fe.cc'],
 [('FeHierarchic*','lib/lf/fe/hierarchic_fe.h')],[],['EvalReferenceShapeFunctions, GradientsReferenceShapeFunctions, EvaluationNodes, NodalValuesToDofs'])
p('P22','Element matrices and vectors are the exact integrals of their bilinear forms',
 'For affine cells and edges in any position and orientation, and for polynomial coefficients and degrees covered by the quadrature used, the local matrices and vectors delivered by the diffusion, mass, reaction-diffusion, edge mass, load and edge load providers and by the linear-element specialisations equal the integrals of the bilinear or linear forms they stand for. Providers restricted by an edge or cell selection are active exactly on the selection.',
 ['inputs','configurations'],'all affine cells and edges, all supported degrees, scalar and matrix-valued coefficients, all selections',
 'Tests compare with stored matrices on the reference or a few elements with constant coefficients.',
 [L+'fe/loc_comp_ellbvp.h',L+'uscalfe/loc_comp_ellbvp.h',L+'uscalfe/lin_fe.cc',L+'uscalfe/lin_fe.h'],
 [('Eval methods of the providers','lib/lf/fe/loc_comp_ellbvp.h, lib/lf/uscalfe/loc_comp_ellbvp.h')],[],['Eval, isActive'])
p('P23','Integration and boundary interpolation use exactly the selected entities',
 'Integrating a mesh function sums the integrals over exactly the entities of the requested codimension that satisfy the selection predicate, with the exact value whenever the quadrature is exact. Initialising essential conditions fixes exactly the dofs associated with the selected edges and their endpoints, with coefficients that make the finite element function agree with the given function on those edges whenever it is representable.',
 ['inputs','configurations'],'all meshes, predicates (including empty and those excluding the first entity), integrands and edge selections',
 'Tests integrate over all entities or predicates that include the first entity.',
 [L+'fe/fe_tools.h'],
 [('IntegrateMeshFunction, InitEssentialConditionFromFunction','lib/lf/fe/fe_tools.h')],[],['returned value, vector of (flag,value) pairs'])
p('P24','Mesh function arithmetic is pointwise',
 'Sums, differences, products, negation, squared norm, transpose, adjoint and conjugate of mesh functions, for scalar, vector and matrix valued operands of fixed or dynamic size, real or complex, evaluate at every entity and every set of local points to the pointwise operation on the operand values, with one value per point; global and constant mesh functions evaluate to the function at the mapped points.',
 ['inputs','programs'],'all expressions built from the operators over all operand value types, entities and point sets',
 'Tests cover individual operator/type pairs at few points.',
 [L+'mesh/utils/mesh_function_binary.h',L+'mesh/utils/mesh_function_unary.h',L+'mesh/utils/mesh_function_global.h',L+'mesh/utils/mesh_function_constant.h'],
 [('operator overload selection','lib/lf/mesh/utils/mesh_function_binary.h, mesh_function_unary.h')],[],['operator()(entity, local)'])
p('P25','Transfer to finer levels preserves functions',
 'For every mesh hierarchy and every pair of a level and a finer level, transferring a mesh function evaluates at any point of a fine entity to the coarse function at the corresponding point of its ancestor, and prolongation of a finite element function to a finer space that contains it represents the same function.',
 ['histories','inputs'],'all refinement histories (uniform, barycentric, local), all level pairs, all functions',
 'Tests use regular refinement of one mesh and neighbouring levels.',
 [L+'refinement/mesh_function_transfer.h',L+'fe/prolongation.h',L+'refinement/mesh_hierarchy.cc'],
 [('chain of GeometryInParent','lib/lf/refinement/mesh_function_transfer.h')],[],['values on fine entities'])
p('P26','Gmsh files are read into exactly the mesh they describe',
 'For every Gmsh mesh file of format 2 or 4, in text or in binary with either byte order, with arbitrary tags and ordering of nodes and elements, the reader produces the mesh whose nodes, edges, triangles and quadrilaterals (first and second order) and curved geometries are those described, in the order of the file; equivalent files yield the same mesh.',
 ['inputs'],'all valid files: node and element tags, section contents, element types, text/binary, versions',
 'The suite holds a few files produced by Gmsh with consecutive tags.',
 [L+'io/gmsh_reader.cc',L+'io/gmsh_file_v2.cc',L+'io/gmsh_file_v4.cc',L+'io/gmsh_file_v4_text.cc',L+'io/gmsh_file_v4_binary.cc',L+'io/gmsh_file_v4_detail.h'],
 [('parsers and node/element mapping','lib/lf/io')],[],['reader.mesh()'])
p('P27','Physical groups of Gmsh files are attributed exactly',
 'For every Gmsh file, each mesh entity reports exactly the physical group numbers the file assigns to it (several, if several), membership tests agree with that, and the translation between group names and numbers, optionally restricted by codimension, follows the file and fails when absent or ambiguous.',
 ['inputs'],'all assignments of physical groups to points, edges and cells, all name tables and queries',
 'Tests query a few names of fixed files.',
 [L+'io/gmsh_reader.cc',L+'io/gmsh_reader.h'],
 [('physical_nrs_, name tables','lib/lf/io/gmsh_reader.cc')],[],['PhysicalEntityNr, IsPhysicalEntity, PhysicalEntityNr2Name, PhysicalEntityName2Nr, PhysicalEntities'])
p('P28','VTK output is a faithful, well-formed image of mesh and data',
 'For every mesh, codimension, output order and attached point or cell data, the VTK file written, in text or binary, is well-formed: its points and cells reproduce the geometry of the mesh entities, connectivity refers to valid points in VTK order, and every data set has one value per point or cell equal to the attached function at that place.',
 ['inputs','configurations'],'all meshes, codimensions, orders, data types, text and binary',
 'Tests write files without reading them back.',
 [L+'io/vtk_writer.cc',L+'io/vtk_writer.h'],
 [('VtkWriter, WriteToFile','lib/lf/io/vtk_writer.cc')],[],['bytes of the file written'])
p('P29','MATLAB, matplotlib and TikZ exports list exactly the mesh entities',
 'For every planar mesh the MATLAB, matplotlib and TikZ writers produce files that list exactly the selected nodes, edges and cells of the mesh once each, with their coordinates, indices and incidences.',
 ['inputs','configurations'],'all hybrid meshes, output flags and selections',
 'Tests only check that a file was written.',
 [L+'io/write_matlab.cc',L+'io/write_matplotlib.cc',L+'io/write_tikz.cc'],
 [('writers','lib/lf/io/write_*.cc')],[],['bytes of the file written'])
p('P30','Reference element tables are mutually consistent',
 'For every reference element the numbers, types, node coordinates and incidence of sub-entities are consistent: sub-entities of sub-entities are the same however they are reached, node coordinates are those of the reference shapes, and ids, dimensions and names identify the element uniquely.',
 ['configurations'],'all reference elements, codimensions and sub-entity indices (finite)',
 'Tests check part of the table.',
 [L+'base/ref_el.h',L+'base/ref_el.cc'],
 [('RefEl tables','lib/lf/base/ref_el.h')],[],['RefEl queries'])
p('P31','Product spaces combine component dof numberings without collision',
 'For every mesh and list of component dof layouts, the dof handler of a product space numbers the dofs of all components jointly as 0..N-1 without collision, component offsets translate between local and global numbering, and the product element matrix and vector providers place the contribution of each component pair in the block of that pair.',
 ['inputs','configurations'],'all meshes, numbers of components and layouts',
 'Tests use one product on one mesh.',
 ['projects/dpg/product_dofhandler.cc','projects/dpg/product_dofhandler.h','projects/dpg/product_element_matrix_provider.h','projects/dpg/product_element_vector_provider.h'],
 [('ProductUniformFEDofHandler','projects/dpg/product_dofhandler.cc')],[],['GlobalDofIndices, Offset, LocalStartIndex, NumDofs'])
p('P32','Timers accumulate exactly the time spent running',
 'For every sequence of start, stop and resume calls, a timer reports whether it is running, its elapsed time does not change while stopped, grows while running, restarts from zero on start and continues from the stopped value on resume; formatted output prints the same values.',
 ['histories','schedules'],'all sequences of timer operations',
 'Tests run one sequence.',
 [L+'base/timer.h',L+'base/timer.cc'],
 [('Timer','lib/lf/base/timer.cc')],[('times_, is_stopped_','accumulated or start time','lib/lf/base/timer.h')],['Elapsed, IsStopped, Format'])

p('P33','Skeleton signs, normals, inflow boundary and error estimators are consistent',
 'For every planar mesh of triangles and simple quadrilaterals in any orientation, the normals of the sides of a cell are unit vectors pointing out of it, the prescribed signs single out exactly one adjacent cell per edge (the cell itself on the boundary), the flags of the inflow and outflow boundary partition the boundary edges according to the convection field, quadrature rules are carried to all sides of the reference cells, essential conditions on product spaces fix exactly the dofs of the selected edges at the prescribed values, and the local error estimators of the discontinuous Petrov-Galerkin method are the dual norms of the local residuals and sum up to the total.',
 ['inputs','configurations'],'all meshes, cell orientations, convection fields, selections, component orders and solution vectors',
 'Tests use a few convex, counter-clockwise cells.',
 ['projects/dpg/dpg_tools.h','projects/dpg/dpg_tools.cc',L+'uscalfe/uniform_scalar_fe_space.h'],
 [('OuterNormals, PrescribedSignProvider, flagEntitiesOnInflowBoundary, InitEssentialConditionsFromFunctions','projects/dpg/dpg_tools.h, dpg_tools.cc'),('ElementErrorEstimators, EvalPosteriorError','projects/dpg/dpg_tools.h')],
 [('maxElement_','cell responsible for the sign of an edge','projects/dpg/dpg_tools.h')],['OuterNormals, PrescribedSign, Flag*OnInflow/Outflow, EssentialConditions, ElementErrorEstimators'])
p('P34','DPG element matrices and vectors are the exact integrals of their forms',
 'On every affine cell, with either orientation of its edges, the diffusion, reaction, convection, trace, flux and load terms of discontinuous Petrov-Galerkin methods, for all pairs of continuous, discontinuous, trace and flux components and polynomial coefficients within the degree of the quadrature, give the exact integrals in terms of the global basis; the DPG element matrix and vector are B^T G^-1 B and B^T G^-1 l; the broken and trace reference elements have the shape functions of the element they wrap.',
 ['inputs','configurations','programs'],'all affine meshes, component lists, orders up to three, coefficients, real and complex scalars',
 'Tests compare a few element matrices on reference cells, with fluxes of low degree.',
 ['projects/dpg/loc_comp_dpg.h','projects/dpg/dpg_element_matrix_provider.h','projects/dpg/dpg_element_vector_provider.h','projects/dpg/discontinuous_scalar_reference_finite_element.h','projects/dpg/trace_scalar_reference_finite_element.h','projects/dpg/discontinuous_fe_constant.h'],
 [('sub-element providers','projects/dpg/loc_comp_dpg.h'),('Eval','projects/dpg/dpg_element_matrix_provider.h, dpg_element_vector_provider.h')],[],['element matrices and vectors, reference shape functions, nodes, dof counts'])

p('P35','The discontinuous Galerkin method for Stokes flow assembles its exact system',
 'On every triangular mesh with either orientation of cells and edges, the system of the interior penalty method for Stokes flow has the jumps of the tangential velocities of the curls of the hat functions, minus the reciprocal penalty, the exact loads and the prescribed tangential velocities as entries; boundary nodes are fixed; the offset function reproduces prescribed in- and outflow; normals, tangents, velocities, L2 and DG norms are exact; annulus meshes have the described topology and positions.',
 ['inputs','configurations','programs'],'all triangular meshes, forces, Dirichlet data, penalties, solution vectors, discontinuous functions, annuli',
 'Tests compare two element matrices and global matrices on one tiny mesh; tests of norms and offset functions do not exist or are not compiled.',
 ['projects/ipdg_stokes/assemble/'+x for x in ('build_system_matrix.cc','offset_function.cc','piecewise_const_element_matrix_provider.cc','piecewise_const_element_vector_provider.cc')]+['projects/ipdg_stokes/mesh/annulus_triag_mesh_builder.cc','projects/ipdg_stokes/mesh/utils.cc']+['projects/ipdg_stokes/post_processing/'+x for x in ('norms.h','mesh_function_velocity.h','solution_to_mesh_data_set.cc')],
 [('buildSystemMatrixNoFlow, buildSystemMatrixInOutFlow','projects/ipdg_stokes/assemble/build_system_matrix.cc'),('createOffsetFunction','projects/ipdg_stokes/assemble/offset_function.cc'),('DGnorm, L2norm','projects/ipdg_stokes/post_processing/norms.h'),('AnnulusTriagMeshBuilder::Build','projects/ipdg_stokes/mesh/annulus_triag_mesh_builder.cc')],[],['system matrices, right-hand sides, offset functions, velocities, norms, meshes'])

p('P36','Discrete solvers reproduce every solution contained in their space',
 'Whenever the exact solution of a boundary value problem lies in the trial space, the discrete solution is that solution: for second-order elliptic problems with Dirichlet, Neumann and impedance conditions on any parts of the boundary, solved with Lagrangian or hierarchic elements of uniform or variable degree and any of the eliminations of essential conditions, for L2 projections, for primal and ultraweak discontinuous Petrov-Galerkin methods (including fluxes, traces and vanishing error estimators), and for constant flows of the Stokes discretisation.',
 ['inputs','configurations','programs'],'all planar meshes, polynomial solutions within the space, coefficients, splittings of the boundary into conditions, component orders',
 'Tests solve single problems on single meshes and compare norms with tolerances that hide errors of single terms or orientations.',
 [L+x for x in ('assemble/fix_dof.h','assemble/assembler.h','fe/loc_comp_ellbvp.h','fe/fe_tools.h','fe/hierarchic_scalar_fe_space.h','uscalfe/loc_comp_ellbvp.h')]+['projects/dpg/dpg_element_matrix_provider.h','projects/dpg/dpg_element_vector_provider.h','projects/dpg/loc_comp_dpg.h','projects/dpg/dpg_tools.h','projects/ipdg_stokes/assemble/build_system_matrix.cc'],
 [('FixFlaggedSolutionComponents, FixFlaggedSolutionCompAlt, FixSolutionComponentsLse','lib/lf/assemble/fix_dof.h'),('NodalProjection, InitEssentialConditionFromFunction','lib/lf/fe/fe_tools.h'),('Eval','projects/dpg/dpg_element_matrix_provider.h')],[],['solution vectors, error estimators'])
p('P37','Strang splitting advances exactly the prescribed steps of Fisher/KPP dynamics',
 'For every triangular mesh, diffusion coefficient, non-local boundary term and time step, the evolution consists of a half step of diffusion, then logistic growth over the whole step separated by full steps of diffusion, and a final half step, so that growth and diffusion both act exactly up to the final time; growth is the exact logistic flow at each dof, diffusion the two-stage implicit method for the exact Galerkin matrices, conserving mass and constants; integrals over selected cells and edges are exact.',
 ['histories','inputs'],'all meshes, coefficients, numbers and lengths of steps, initial populations, selections',
 'The project has no tests at all.',
 ['projects/fisher_kpp/strangsplitting.cc','projects/fisher_kpp/strangsplitting.h'],
 [('StrangSplit::Evolution, diffusionEvolutionOperator','projects/fisher_kpp/strangsplitting.cc'),('assembleGalerkinMatrices','projects/fisher_kpp/strangsplitting.cc')],
 [('solver factorizations','factorizations for half and full diffusion steps','projects/fisher_kpp/strangsplitting.cc')],['populations after m steps, Galerkin matrices, integrals'])

with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x)+'\n')
print(len(P))
