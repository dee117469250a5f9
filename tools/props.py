prop("P01", "Counts of shared handles are exact",
     "At any moment the reference count of a shared resource equals the number of live handles bound to it, whatever "
     "sequence of construction, copy, move, assignment (self-assignment included) and destruction of handles led there. "
     "A handle is bound to the resource it was last given, or to none, and equality and ids of handles agree with that.",
     ["histories"], "every sequence of operations on any number of handles and resources",
     "The tests run one fixed sequence of six operations; aliasing (two handles on one resource), self-assignment, and "
     "operations on null handles only matter in particular histories.",
     [U + "SharedPointer.h", U + "SharedPointer.icc", U + "Shareable.icc"],
     [("acquire and release paired in every constructor, assignment and destructor", U + "SharedPointer.icc")],
     "Exhaustive over all transitions of 3 handles and 2 resources (4 in thorough), plus random histories of 60 operations "
     "over 4 handles and 3 resources, some with collections of up to 1000 handles; collections of up to 66000 handles in a few steps. Trusts the harness's reading of the count through the public accessor.",
     observe=["SharedPointer::references, is_nullptr, id, operator=="])
prop("P34", "What a handle makes lives until the last of its handles goes",
     "A resource made through a handle that makes it (nodes of meshes, nodes of finite elements) lives exactly as long as a handle of it does, in a variable or in a collection, whatever sequence of copies, moves and assignments, "
     "to itself included, passed it on; handles are equal, and have the same id, exactly when they are of the same resource; their order is total; and a hashed or ordered collection has one of each resource.",
     ["histories"], "every sequence of operations on any number of handles, resources and collections",
     "No test looks at when resources end, and none compares or collects handles but by the way.",
     [U + "StdSharedPointer.h", U + "StdSharedPointer.icc", U + "utilities.h"],
     [("copies, moves and the id", U + "StdSharedPointer.h"), ("hashes", U + "utilities.h")],
     "All transitions of 2 handles and 3 resources (3 handles in thorough); random histories of 60 operations over 4 handles and 20 resources, under the address sanitizer.",
     observe=["StdSharedPointer::id, operator->, operator==, operator<=>", "hash_function"])
prop("P02", "Segmented vectors hold exactly what was put in and not erased",
     "The size of a segmented vector and what any iteration over it visits (prefix or postfix increments, const or not, "
     "erasing on the way) are exactly the elements emplaced and not erased, each visited once, in slot order. "
     "Erasing an element a second time reports failure and changes nothing.",
     ["histories"], "every history of emplacements, erasures, moves, iterations, with every segment size and any length",
     "Tests fill one vector of a fixed segment size and erase a couple of elements; runs of erased elements at segment "
     "boundaries, at the end of the container or longer than the stack arise only in particular histories.",
     [U + "SegmentedVector.h", U + "SegmentedAllocator.h", U + "SegmentedAllocatorIterator.h", U + "SegmentedContainerIterator.h"],
     [("iterators jump between segments through the pointer left at the end of each", U + "SegmentedAllocatorIterator.h"),
      ("iterators skip invalid elements", U + "SegmentedContainerIterator.h")],
     "Exhaustive over two containers with segments of 2 and 4 objects (6 in thorough), random histories with segments of "
     "1, 3, 2 and 5 and up to 60 objects, and runs of 4000 erased elements on a small stack.")
prop("P03", "Elements of segmented containers keep their address; erased slots are reused",
     "An element of a segmented vector stays at its address, unchanged, until it is erased, whatever else is added, erased "
     "or moved. New elements take over erased slots before any new memory is allocated, and the capacity is the least "
     "number of whole segments that ever sufficed.",
     ["histories"], "every history of emplacements, erasures and moves of the container, with every segment size",
     "Tests check the capacity of one small container; reuse after erasing in several segments and after a move of the "
     "container is never observed.",
     [U + "SegmentedAllocator.h", U + "SegmentedVector.h"],
     [("queue of locations to reuse", U + "SegmentedAllocator.h"), ("segments are never reallocated", U + "SegmentedAllocator.h")],
     "As P02, observing addresses, slots, indexed access and capacity.")
prop("P04", "Every element of a segmented vector is destroyed exactly once",
     "Every object constructed in a segmented vector is destroyed exactly once: never while it is in the container, at the "
     "latest when its slot is reused or the container (or the one it was moved into) ends.",
     ["histories"], "every history of emplacements, erasures, moves and destructions of containers",
     "No test observes destructions, and a leak or a double destruction of a trivially destructible element is invisible.",
     [U + "SegmentedVector.h", U + "SegmentedAllocator.h"],
     [("destruction of the previous occupant when a location is reused", U + "SegmentedVector.h"),
      ("destruction of all locations with the container", U + "SegmentedVector.h")],
     "As P02, observing the numbered destructions; the elements own heap memory and the harness runs under the address sanitizer.")
prop("P05", "A repository erases only through the last handle, and loses nothing else",
     "A resource of a repository is erased, and destroyed, exactly when an erase is requested through its only handle; an "
     "erase through one of several handles, or through a null one, changes nothing and says so. Size, ids, and iteration "
     "over the resources in use reflect this at any moment, and every resource is destroyed exactly once.",
     ["histories"], "every history of emplacements, copies and drops of handles, look-ups by id, erasures, with every segment size",
     "The test erases three resources through their only handle; it never holds two handles, never looks up by id, and "
     "never observes the destructions.",
     [U + "Repository.h", U + "SharedPointer.icc", U + "SegmentedAllocator.h"],
     [("reference counts decide what may be erased", U + "Repository.h")],
     "Exhaustive over 2 handles (3 in thorough), 4 objects and segments of 1 and 2; random histories of 70 operations over 6 "
     "handles and 50 objects. Destructions are observed under the address sanitizer.")
prop("P06", "One simplex per oriented vertex set",
     "As long as a simplex exists, every request for the simplex with the same vertices and orientation, by vertices in any "
     "even permutation, by its facets in any consistent order, or by flipping its opposite, returns that very simplex; "
     "different vertices or orientations give different simplices, and opposite ones share their footprint.",
     ["histories", "inputs"], "every history of creations, flips, drops and erasures; every vertex and facet order",
     "Tests try a handful of orders on fresh simplices; after erasures, with facets first created in the opposite "
     "orientation, or in a tetrahedron's 24 orders, identity is untested.",
     [T + "OrientedSimplexFactory.h", T + "SimplexFactory.h", T + "Topology.icc"],
     [("one representative per sorted list of facet footprints", T + "SimplexFactory.h"),
      ("map from footprint and orientation to oriented simplex", T + "OrientedSimplexFactory.h")],
     "Exhaustive to depth 7 for 1 handle, 3 vertices, dimension 2 (thorough: depth 9, 2 handles, 4 vertices and tetrahedra), "
     "and random histories of 60 operations over 6 vertices and 6 handles in dimensions 0 to 3. Identity is observed pairwise "
     "among the live handles.",
     state=[("footprint", "vertex set with the orientation it was first created in", T + "Simplex.h"),
            ("oriented simplex", "footprint and sign", T + "OrientedSimplex.h")])
prop("P07", "The vertices of a simplex are always listed in its orientation",
     "The vertices a simplex reports are always an even permutation of those it was requested with, flipping a simplex gives "
     "an odd permutation of the same vertices, and flipping twice gives the simplex back; this does not depend on what was "
     "created or erased before.",
     ["histories", "inputs"], "every vertex order, in dimensions 1 to 3, in every history",
     "The tests check one order of a fresh triangle or tetrahedron.",
     [T + "OrientedSimplex.h", T + "Simplex.h", T + "OrientedSimplexFactory.h", "lib/mito/math/combinatorics.h"],
     [("parity of the composition relative to the footprint", T + "OrientedSimplexFactory.h"),
      ("swap of the first two vertices of a negative simplex", T + "OrientedSimplex.h")],
     "As P06, observing the vertex lists and orientations.")
prop("P08", "Existence queries answer for the complex as it is",
     "A simplex, its flipped twin, or a segment between two vertices is reported to exist if and only if it was created, in "
     "whatever way, and not erased since; the number of simplices of each dimension is the number of oriented simplices created "
     "and not erased.",
     ["histories"], "every history of creations, flips, drops and erasures",
     "The tests query right after one creation or one erasure, never for a segment that came about by flipping.",
     [T + "Topology.icc", T + "OrientedSimplexFactory.h"],
     [("look-up of composition and orientation", T + "OrientedSimplexFactory.h")],
     "As P06, observing exists for every pair of vertices at hand and every handle, exists_flipped and n_simplices after every operation.")
prop("P09", "A simplex is bounded by consistently oriented facets",
     "The facets of a simplex are the simplices on all its vertices but one, oriented so that they cancel pairwise; they are listed "
     "so that asking for the simplex they compose gives the simplex back. A set of facets that does not close up is recognised as "
     "invalid, and a simplex's edges are the segments between its vertices.",
     ["histories", "inputs"], "every simplex of dimension 1 to 3 in every history; every choice of facet orientations",
     "Tests check one valid and one invalid composition of triangles.",
     [T + "Simplex.h", T + "OrientedSimplex.h", T + "utilities.h", T + "Topology.icc"],
     [("composition of the footprint, with the first two facets swapped for a negative simplex", T + "OrientedSimplex.h"),
      ("cancellation count of codimension-2 faces", T + "utilities.h")],
     "As P06, observing the compositions, isValid, sanityCheck and edges of every handle; in the specification boundary-of-boundary "
     "is checked for all simplices on 5 vertices.")
prop("P10", "Erasing a simplex removes it and what only it used, nothing else",
     "Erasing a simplex through its only handle removes it along with those of its faces that nobody else uses, and no others; "
     "through one of several handles, or when another simplex is built on it, nothing changes. Whatever a handle is bound to stays "
     "intact, and no reference is leaked on the way.",
     ["histories"], "every history of creations, flips, drops and erasures in dimensions 0 to 3",
     "Tests erase one triangle of a pair and one isolated one; tetrahedra, flipped twins, shared faces held by users, and later "
     "re-creation are not reached.",
     [T + "Topology.icc", T + "OrientedSimplexFactory.h", T + "SimplexFactory.h", U + "Repository.h"],
     [("erasure cascades through the composition, guarded by reference counts", T + "Topology.icc")],
     "As P06, observing reference counts of all handles and the number of simplices of each dimension after every operation.")
prop("P11", "Flipping a diagonal keeps the outline and the orientation",
     "Flipping the diagonal of two consistently oriented triangles on an edge yields the two consistently oriented triangles on the other "
     "diagonal: with the same four outer edges, each in its orientation. Flipping again gives back the very triangles there were, as "
     "far as these still exist.",
     ["histories", "inputs"], "every pair of triangles on an edge, of any orientation, in every history",
     "The test flips one pair of positive triangles.",
     [T + "FlipDiagonal.h", T + "utilities.h"],
     [("new triangles composed of the outer edges and the new diagonal", T + "FlipDiagonal.h")],
     "Exhaustive for two triangles on 4 vertices with every vertex order; random histories of 60 operations on 6 vertices with other "
     "simplices at hand. In the specification the sum of the boundaries of the pair is checked to be invariant on all pairs.")
M = "lib/mito/mesh/"
prop("P16", "A mesh holds exactly the cells inserted and not erased",
     "A mesh visits every cell inserted and not erased, once each, with the simplex and the nodes (in their order) it was inserted with, "
     "and counts them; its nodes are those of its cells, once each. Erasing by topological or geometrical duplicates leaves exactly one "
     "cell of each set of duplicates and removes no other; moving a mesh moves its cells; other meshes on the same nodes are unaffected.",
     ["histories"], "every history of insertions, erasures (also of absent cells), duplicate removals and moves of meshes, cells of dimension 1 to 3",
     "The mesh tests are not among those that run here, and count cells of meshes that are only ever added to.",
     [M + "Mesh.h", M + "utilities.h", "lib/mito/geometry/GeometricSimplex.h"],
     [("cells kept in a segmented vector", M + "Mesh.h"), ("duplicates recognised by the ids of simplices", M + "utilities.h")],
     "Exhaustive over meshes of up to 3 segments on 3 nodes, 2 triangles on 4 nodes, 2 tetrahedra on 4 nodes; random histories of 50 operations on "
     "two meshes over 7 nodes, in dimensions 1 to 3 (triangles also in 3D).")
prop("P17", "The boundary of a mesh is its unmatched facets, outward oriented",
     "The boundary of a mesh consists of exactly the facets of its cells that no two cells lie on either side of, oriented as their cells "
     "induce, at their nodes; isOnBoundary says the same of each facet, boundary_size counts them, and the boundary of the boundary of "
     "a mesh without overlaps is empty - after any insertions and erasures, whatever the orientation of the cells.",
     ["histories", "inputs"], "every history of insertions and erasures of cells with any vertex order, in dimensions 1 to 3",
     "The mesh tests are not among those that run here; they take boundaries of a few hand-made meshes of positive cells.",
     [M + "Mesh.h", M + "Boundary.h", M + "Boundary.icc", T + "OrientedSimplex.h"],
     [("counts of each facet by orientation, kept up on insertion and erasure", M + "Mesh.h")],
     "As P16, observing boundary, boundary_size, isOnBoundary and the boundary of the boundary after every operation.")
prop("P18", "The faces of a mesh are listed with their incidences",
     "Filtering a mesh for its simplices of dimension k yields the faces of its cells of that dimension and no other, each "
     "once for every chain of faces leading down to it from a cell, at the nodes of its cells.",
     ["histories", "inputs"], "every history of insertions and erasures of cells with any vertex order, in dimensions 2 and 3",
     "The mesh tests are not among those that run here, and count the faces of two hand-made meshes.",
     [M + "Filter.icc", M + "Mesh.h"],
     [("recursion through the compositions", M + "Filter.icc")],
     "As P16, observing the filter for facets and edges after every operation.")
prop("P20", "Refining a mesh divides every cell alike and keeps neighbours joined",
     "Refining a mesh n times yields 2^(Nn) cells for each cell of dimension N: they fill it exactly, all of the same oriented volume, and "
     "match each other facet to facet. The refined mesh keeps the nodes of the mesh and has one node at each place, so cells that were "
     "neighbours still are, and its boundary is the boundary refined. Zero refinements copy the mesh; refining in steps is refining at once.",
     ["histories", "inputs"], "every mesh without overlaps, with cells in any vertex order, after any insertions and erasures, any number of refinements",
     "The mesh tests are not among those that run here, and check the number of cells and their total area only.",
     [M + "tetra.h", "lib/mito/geometry/CoordinateSystem.h"],
     [("recursive halving of edges at midpoints", M + "tetra.h")],
     "Exact, on integer coordinates. Every refinement of one cell in every vertex order (2 to 4 refinements), and of random meshes of up to 5 "
     "cells with erasures and refinements in steps, in dimensions 1 (in 1D, 2D), 2 (in 2D, 3D) and 3. How a tetrahedron is cut is left open.",
     observe=["mesh::tetra, mesh::boundary_size, CoordinateSystem::coordinates"])
prop("P12", "The sign of a permutation is its parity",
     "The sign of one order of distinct elements with respect to another is +1 if an even number of exchanges leads from one to the other "
     "and -1 otherwise, whatever the elements and either order; the number of exchanges counted in sorting has that parity, and two lists "
     "are said to have the same elements exactly if they are rearrangements of each other. The lists themselves are left as they were.",
     ["inputs"], "every two orders of up to 8 elements of any type, in any container",
     "The test checks two orders of three numbers against the ascending one.",
     ["lib/mito/math/combinatorics.h"],
     [("swaps counted in sorting one list like the other", "lib/mito/math/combinatorics.h")],
     "All orders of up to 5 elements and all swaps on them (a sample for 5 in quick), random histories of swaps, rotations and changes of the "
     "reference for up to 8, for vectors and arrays of integers and strings. The sign accumulated along the history is checked in the "
     "specification to be that of the number of inversions.")
prop("P13", "Forms obey the exterior algebra",
     "A form built from vectors and metrics by sums, multiples, tensor and wedge products is the multilinear map that algebra says: in particular "
     "the wedge product of one-forms, or of a one-form with a two-form, is the alternation of their tensor product, changes sign with any "
     "exchange of factors or arguments, and is associative. A form contracted with some of its arguments is the form in the others.",
     ["inputs"], "every expression over one-forms, in dimensions 2 to 4, with any vectors, metrics and pattern of open arguments",
     "The tests evaluate single products of orthonormal basis forms, in which most of the terms vanish.",
     ["lib/mito/tensor/wedge.h", "lib/mito/tensor/tensor.h", "lib/mito/tensor/Form.h", "lib/mito/tensor/forms_algebra.h", "lib/mito/tensor/factories.h"],
     [("cyclic and shuffle sums of products", "lib/mito/tensor/wedge.h"), ("contraction with dummy arguments", "lib/mito/tensor/Form.h")],
     "All products of basis one-forms with all patterns of open arguments (in 4D a sample in quick) - which by linearity determine the products - and "
     "random expressions of 30 operations with integer vectors and diagonal or symmetric metrics; forms are compared by all their coefficients. "
     "Arithmetic on small integers is exact in the code, so values are compared exactly.")
FN = "lib/mito/functions/"
prop("P25", "Functions evaluate to what they are composed of, and derivatives are derivatives",
     "A function composed of others by sums, differences, products, multiples, powers, compositions, transposition, inversion and the like evaluates, "
     "at every point, to that combination of their values; its derivative with respect to any of its arguments, of any order, evaluates to "
     "the partial derivative of that very function.",
     ["inputs"], "every expression of scalar, vector and matrix functions of a scalar or a vector, to any depth and order of differentiation",
     "The functions tests are not among those that run here, and evaluate single rules at single points.",
     [FN + "algebra.h", FN + "derivation_rules.h", FN + "function.h", FN + "library_functions.h", FN + "library_derivatives.h", FN + "partial_derivatives.h"],
     [("one rule of differentiation per kind of function", FN + "derivation_rules.h"), ("operators choosing the kind of function", FN + "algebra.h")],
     "Expressions are interpreted in the specification as Taylor polynomials with exact rational coefficients (order 3). Expressions of one or two "
     "operations are enumerated, deeper ones drawn at random; each is compiled against the library and evaluated with its derivatives up to the order at "
     "which it is told; what the code says is compared to within 1/1024.")
G = "lib/mito/geometry/"
prop("P21", "Points and vectors are those of Euclidean space, whatever the coordinates",
     "Positions survive a change of coordinates; the vector from one point to another, added to the first, leads to the second, and is as long as they are "
     "distant; midpoints, barycenters, directors and parametrizations of cells are those of the positions - in cartesian, polar and "
     "spherical coordinates alike, poles included. A coordinate system knows the points placed in it, and no others; the cloud knows all points.",
     ["inputs", "histories"], "all points and vectors in 1, 2 and 3 dimensions, however many systems of coordinates place them, in any history",
     "The geometry tests are not among those that run here; they sum and subtract a few points away from the poles.",
     [G + "CoordinateSystem.h", G + "coordinate_transformation.h", G + "cartesian/algebra.h", G + "polar/algebra.h", G + "spherical/algebra.h", G + "utilities.h",
      G + "GeometricSimplex.h", G + "PointCloud.h", "lib/mito/coordinates/Coordinates.h"],
     [("one formula per kind of coordinates", G + "spherical/algebra.h"), ("change of coordinates, point by point", G + "CoordinateSystem.h")],
     "The specification keeps positions as exact vectors; what the code says is told in cartesian components by formulas of the harness, and compared to within "
     "1/1024. Exhaustive for every two points of a grid (in 3D a sample in quick), random histories of 60 operations on up to five systems and 16 points, often on the axes.")
prop("P22", "Coordinate bases, metrics and forms are those of Euclidean space",
     "In each kind of coordinates the basis vectors are the derivatives of the position, the metric is their products, the basis forms are their dual, "
     "the volume form evaluates to the oriented volume of its arguments; the form equivalent to a vector contracts with it, and "
     "the vector equivalent to that form is the vector.",
     ["inputs"], "every regular point, and any vectors and forms there, in 1, 2 and 3 dimensions",
     "The geometry tests are not among those that run here, and evaluate bases at single points, never the form equivalent to a vector.",
     [G + "metric_space.h", G + "polar/basis.h", G + "polar/metric.h", G + "spherical/basis.h", G + "spherical/metric.h", G + "cartesian/api.h", "lib/mito/fields/fields_algebra.h"],
     [("vectors in components along the coordinate lines", G + "metric_space.h")],
     "As P21. That the bases are orthogonal, right-handed and as long as the metric says is checked in the specification on all points of all behaviours.")
prop("P31", "Volumes are those of the shapes, in any coordinates and however divided",
     "The volume of a manifold is the sum of those of its cells, each that of the parallelotope of its directors over N!, signed by its orientation; "
     "on submanifolds, that which the volume form leaves once given the normals. It is the same in cartesian, polar and spherical coordinates, "
     "and dividing the mesh, however many times, does not change it.",
     ["inputs"], "every mesh of simplices of any dimension in 1, 2 and 3 dimensions, in every kind of coordinates regular at the first nodes of its cells",
     "The manifolds tests are not among those that run here, and measure few shapes, one kind of coordinates at a time.",
     ["lib/mito/manifolds/Manifold.h", "lib/mito/manifolds/factories.h", G + "utilities.h", G + "metric_space.h", M + "tetra.h"],
     [("volume form on the directors of a cell", "lib/mito/manifolds/Manifold.h")],
     "Random histories of inserting cells and asking, nodes on a grid of integers so that volumes are exact rationals; compared to within 2^-27. Cells whose first node is on "
     "an axis of the coordinates, where the volume form is singular, are out of scope.")
prop("P28", "Quadrature is exact to its degree, on any mesh and in any coordinates",
     "Integrating a polynomial on a manifold with the rule of a degree of exactness not lower than its own gives its very integral: on any mesh, "
     "of any kind of simplices for which the rule exists, in cartesian, polar or spherical coordinates, on submanifolds and on the boundary of a mesh, through which the flux is the "
     "integral of the divergence.",
     ["inputs"], "every polynomial of degree up to that of the rule on every mesh of simplices",
     "The quadrature and integration tests are not among those that run here, and integrate a few functions on one or two cells.",
     ["lib/mito/quadrature/Integrator.h", "lib/mito/quadrature/QuadratureTable.h", "lib/mito/quadrature/quadrature_tables_triangles.icc", "lib/mito/manifolds/Manifold.h", M + "Boundary.icc"],
     [("points and weights of the rules", "lib/mito/quadrature/quadrature_tables_tetrahedra.icc"), ("points of the parametrization of every cell", "lib/mito/quadrature/Integrator.h")],
     "Integrals of products of affine functions are exact rationals in the specification, which checks the theorem of the divergence on them. All monomials on one cell and "
     "its mirror, in every order of the factors; random products on random meshes of up to 5 cells; told to within 2^-27.")
FE = "lib/mito/fem/"
prop("P26", "A function space has one node per vertex and per edge, constrained where told",
     "Every element is connected to the nodes of its cell, and to those of its edges when quadratic, in the order of the cell; elements that share a vertex or an edge "
     "share its node, no others do; the map from the mesh knows every vertex; the constrained nodes are those on the domain of the constraint, "
     "whether it is some facets or the boundary of the mesh.",
     ["inputs"], "every mesh of segments or triangles, every set of its facets, linear and quadratic elements",
     "The fem and constraints tests are not among those that run here, and look at one or two elements; no test looks at connectivities.",
     [FE + "FunctionSpace.h", FE + "elements/Discretizer.h", FE + "elements/tri2/DiscretizerCG.h", FE + "elements/tri1/DiscretizerCG.h", FE + "elements/seg1/DiscretizerCG.h",
      FE + "utilities.h", "lib/mito/constraints/Dirichlet.h", M + "Boundary.h"],
     [("nodes numbered cell by cell", FE + "elements/tri2/DiscretizerCG.h"), ("constrained nodes found through the facets", FE + "FunctionSpace.h")],
     "Every mesh of up to 2 (thorough: 3) cells out of seven on four nodes, with any two facets constrained; random meshes of up to 5 cells. "
     "Constraining facets that are not in the mesh is out of scope.")
prop("P27", "Assembled systems are the weak form on the free nodes",
     "Free nodes have equations 0 to n - 1, one each, constrained nodes none. The matrix assembled is the sum over elements and over blocks of the integrals of the products of shape functions, or of their gradients; "
     "the right hand side that of the source against shape functions; constrained nodes contribute nothing. The solution is read back to the node of each equation, and is null at constrained nodes.",
     ["inputs", "histories"], "every mesh, constraint, sum of blocks and polynomial source up to the degree of the rule",
     "The fem tests are not among those that run here, and compute single elementary matrices; assembly and numbering are in no test.",
     [FE + "DiscreteSystem.h", FE + "Weakform.h", FE + "blocks/MassBlock.h", FE + "blocks/GradGradBlock.h", FE + "blocks/SourceTermBlock.h", FE + "FemField.h"],
     [("equations of nodes", FE + "DiscreteSystem.h"), ("blocks computed by quadrature", FE + "blocks/GradGradBlock.h")],
     "Entries are exact rationals in the specification, which checks symmetry, that constants have no stiffness and that masses add up to the volume; told to within 2^-20. The linear system is the "
     "harness's, recording what is added to it. Meshes as in P26.")
prop("P29", "Finite element fields, their gradients and norms are those of the polynomial",
     "On every element a field with given nodal values is the polynomial with these values at the nodes: its value and its gradient at any point, the place of that point and the jacobian there; "
     "the L2 and H1 norms are the square roots of the integrals of the squares of the difference of two fields, finite element or given by a function, and of its spatial gradient.",
     ["inputs"], "every mesh, nodal values, point, and polynomial of the degree of the elements",
     "The fem tests are not among those that run here, and check shape functions on the reference element and norms against literature rates.",
     [FE + "FemField.h", FE + "localize.h", FE + "norms.h", FE + "blocks/L2NormBlock.h", FE + "elements/tri2/ShapeTriangleP2.h", FE + "elements/tri1/ShapeTriangleP1.h",
      FE + "elements/seg1/ShapeSegmentP1.h", FE + "elements/tri2/IsoparametricTriangleP2.h", FE + "elements/IsoparametricTriangle.h"],
     [("shape functions and their gradients", FE + "elements/tri2/ShapeTriangleP2.h"), ("gradients through the jacobian", FE + "elements/tri2/IsoparametricTriangleP2.h")],
     "Barycentric polynomials with exact coefficients; that shape functions sum to one and are one at their node is checked in the specification. All unit fields on small meshes at "
     "all points of quarters, random fields on random meshes; told to within 2^-20.")
prop("P19", "Geometric simplices keep a node for every vertex, in oriented order",
     "A geometric simplex consists of an oriented simplex and, for each of its vertices, the node it was given for it, listed in an order of that orientation: when it is built from nodes, on an oriented simplex, "
     "as a facet of another, by turning another over, by flipping the diagonal of two triangles, or copied. Its barycenter, directors and parametrization are those of the points of these nodes. "
     "Nodes keep their vertex and point, and the cloud holds every point created, once.",
     ["histories"], "every history of creating nodes that share vertices or points, simplices on shared topology, facets, flips and diagonal flips, in one, two and three dimensions",
     "Tests build single simplices with one node per vertex; several nodes on one vertex, orientations first created the other way around, and nodes of facets of facets arise in histories.",
     [G + "GeometricSimplex.h", G + "utilities.h", G + "factories.h", G + "PointCloud.h"],
     [("nodes found by vertex", G + "utilities.h"), ("nodes in the order of the simplex", G + "GeometricSimplex.h")],
     "Exhaustive over all nodes on up to D+1 vertices and points and two operations, random histories of 60 operations on 5 handles and 9 nodes. Diagonals are flipped when the two triangles agree on the nodes of what they share.",
     observe=["GeometricSimplex::nodes, simplex, parametrization; geometry::barycenter, directors; PointCloud iteration"])
prop("P30", "Gradients and divergences of fields are those of calculus",
     "The value of a field assembled from coordinates, constants, sums, products, powers, transposes and subscripts is that of the formula at every point; its partial derivatives, the gradient of a scalar field or of a vector field "
     "of any number of components, and the divergence of a vector or tensor field are the exact derivatives, in one, two and three dimensions, and may be taken again of what they give.",
     ["inputs"], "every field on cartesian coordinates built by the algebra, every point",
     "Tests differentiate a handful of trigonometric fields in two dimensions at one point; rows and columns of unsymmetric tensors, non-square gradients and derivatives of products of derivatives are combinations they do not reach.",
     ["lib/mito/fields/differential.h", "lib/mito/fields/forward.h", FN + "derivation_rules.h", FN + "partial_derivatives.h", FN + "algebra.h"],
     [("gradient of a vector field by rows", "lib/mito/fields/differential.h"), ("divergence of a tensor by rows", "lib/mito/fields/differential.h")],
     "Components are polynomials with integer coefficients, exact in the specification, which checks product rules and mixed derivatives among them. All vector fields with one quadratic component, and random fields of up to 17 operations; values at 6 to 9 points.")

prop("P23", "A partitioned mesh is shared out among its parts",
     "Asked for the parts 0 to n-1 of a mesh, one after another as the processes of a parallel run do, the METIS partitioner gives meshes that have, all together, exactly the cells of the mesh, each as often as the mesh has it, "
     "with its nodes, order of nodes and simplex; asking again gives the same; the mesh is as it was.",
     ["inputs", "histories"], "every mesh with at least n cells, built and changed by any history, and every n",
     "The tests partition one regular mesh and count cells: a mesh with holes, cells in several copies, twins, or negatively oriented ones is never partitioned.",
     ["lib/mito/mesh/metis/Partitioner.icc", "lib/mito/mesh/metis/api.h"],
     [("the painting is inserted part by part", "lib/mito/mesh/metis/Partitioner.icc")],
     "All meshes of two cells on N+2 nodes in one and two dimensions; random histories of 60 steps of two meshes of at most 14 cells on simplices of 1 to 3 dimensions, into at most four parts. Balance is METIS's business and not required.")

prop("P24", "A discrete field has one value for every node, point or cell",
     "A field made on a mesh or a point cloud has exactly one entry for each of its nodes, points or cells, zero or that of the continuous field it samples; it gives back for each what was put there last, alone or in a sweep over all, "
     "refuses what it does not have, and keeps its entries when it is moved and while the mesh it was made on changes.",
     ["inputs", "histories"], "every history of meshes and fields on them",
     "Tests fill a field on one mesh and read it back; nodes standing on the same vertex and point, cells in both orientations, entries asked for that are not there, and fields that outlive changes to their mesh are not in them.",
     ["lib/mito/discrete/DiscreteField.h", "lib/mito/discrete/factories.h", "lib/mito/discrete/api.h", "lib/mito/mesh/utilities.h"],
     [("the map of entries", "lib/mito/discrete/DiscreteField.h"), ("nodes, points and cells a field is made on", "lib/mito/discrete/factories.h")],
     "All meshes of two cells on N+2 nodes with each kind of field in one and two dimensions; random histories of 80 steps with three fields and two meshes, cells of 1 to 3 dimensions.")

prop("P32", "A mesh written to a Summit file is the mesh that is read from it",
     "The mesh read from a file that was written from a mesh has as many cells, with corners at the same coordinates in the same order, and a single vertex and point for all that share a point; the nodes are shared likewise, "
     "or one per corner if the mesh is discontinuous. It does so whatever white space separates the words of the file, and with or without the element type in it.",
     ["inputs", "histories"], "every mesh, built and changed by any history",
     "The tests copy two regular meshes that no operation has changed, and compare counts; order and orientation of corners, twins of nodes, erased cells, and the element type are not in them.",
     ["lib/mito/io/summit/MeshSummitWriter.h", "lib/mito/io/summit/reader.h", "lib/mito/io/summit/summit_cell.h"],
     [("points are numbered", "lib/mito/io/summit/MeshSummitWriter.h"), ("elements are read", "lib/mito/io/summit/reader.h")],
     "All meshes of two cells on N+2 nodes in one and two dimensions; random histories of 60 steps with at most 14 cells, segments, triangles and tetrahedra in one to three dimensions. Coordinates are multiples of 2^-20 of up to eight digits, which the 15 digits of the file hold.")

prop("P33", "A VTK grid shows the mesh, the cloud or the space, and the fields recorded on it",
     "The files that a writer of VTK grids writes have a point for every node of the mesh (or of the cells of the function space, or every point of the cloud), at its Cartesian coordinates whatever the coordinate system; "
     "the cells of the mesh with their corners in order; and for every field that was recorded its values at these points, under its name or the one given, the last if there were several of a name. All as they were when the writer was made and the fields were recorded, "
     "as often as it writes; in parallel, as the piece of the process and the file naming the pieces.",
     ["inputs", "histories"], "every mesh, cloud and function space, fields on them, and history of changes, recordings and writing",
     "The tests of this module need VTK, write files and compare nothing.",
     ["lib/mito/io/vtk/MeshVTKWriter.h", "lib/mito/io/vtk/PointCloudVTKWriter.h", "lib/mito/io/vtk/NodeVTKWriter.h", "lib/mito/io/vtk/FieldVTKWriter.h", "lib/mito/io/vtk/GridVTKWriter.h", "lib/mito/io/vtk/ParallelGridVTKWriter.h", "lib/mito/io/vtk/vtk_point.h", "lib/mito/io/vtk/vtk_cell.h"],
     [("points and cells", "lib/mito/io/vtk/MeshVTKWriter.h"), ("recorded fields", "lib/mito/io/vtk/FieldVTKWriter.h")],
     "All meshes of two cells on N+2 nodes in one and two dimensions, shown in every way; random histories of 80 steps with two writers, three fields and at most 12 cells, segments, triangles and tetrahedra in one to three dimensions, Cartesian, polar and spherical coordinates, "
     "and elements of order one and two. VTK is not installed: a stand-in keeps what it is told and what it would write; the format of VTK's own files is not checked.")

prop("P15", "A linear system solves to what was put in it, as its solver is told",
     "Every entry of the matrix and of the right-hand side of a PETSc linear system is what was last set, or the sum of what was added since; the solution is that of these, as many times as it is asked for while they change, "
     "by the method that the options of the solver name, whatever their order, spacing and sign of their values; options reach solvers of systems of that label only; systems, their sizes and their solutions are kept apart, "
     "and one that was destroyed starts from nothing.",
     ["inputs", "histories"], "every history of several systems and solvers",
     "One test solves one tridiagonal system once with default options. Adding, changing after a solution, several systems, options that carry values, and labels are not in it.",
     ["lib/mito/matrix_solvers/backend/petsc/PETScLinearSystem.cc", "lib/mito/matrix_solvers/backend/petsc/PETScLinearSystem.icc", "lib/mito/matrix_solvers/backend/petsc/PETScKrylovSolver.cc"],
     [("entries are set and added", "lib/mito/matrix_solvers/backend/petsc/PETScLinearSystem.cc"), ("options are prefixed with the label", "lib/mito/matrix_solvers/backend/petsc/PETScKrylovSolver.cc")],
     "Entries are whole numbers; matrices strictly diagonally dominant when they are solved. Every two options told, twice, to two solvers; every way to fill two equations in 7 operations; random histories of 120 steps with three systems of up to five equations; of 60 steps with systems of up to 48 filled by bands and rows, "
     "four solvers and two labels. One process; entries are not set and added to between two assemblies of a matrix, which PETSc forbids.")

prop("P14", "Stresses derive from the energy of a material, and tangents from its stress",
     "For every deformation gradient, in the range in which the material is defined: the energy, stress and tangents of the linear elastic material are those of isotropic linear elasticity with the Young's modulus and Poisson's ratio it was made with, "
     "and those of the Gent material those of its energy function for its moduli; the stress is the derivative of the energy and the tangents that of the stress, and there is no stress in the undeformed state. "
     "The consistency test accepts such a material and rejects one whose stress or tangents differ in any component.",
     ["inputs"], "every deformation gradient and parameters",
     "The tests run the consistency test at one random small deformation and one choice of parameters; large deformations, changes of volume, and what the consistency test would miss are not in them.",
     ["lib/mito/materials/LinearElastic.h", "lib/mito/materials/Gent.h", "lib/mito/materials/MaterialConsistencyTest.h"],
     [("linear elastic stress and moduli", "lib/mito/materials/LinearElastic.h"), ("Gent stress and moduli", "lib/mito/materials/Gent.h"), ("central differences", "lib/mito/materials/MaterialConsistencyTest.h")],
     "Deformation gradients of halves up to 3, of determinant up to 5/2, in exact arithmetic; what has logarithms is reported per unit of A = (J^2-1)/2 - ln J, and stresses and tangents pushed forward. "
     "All deformations of up to two components, and random histories of 24 steps of deformations, rotations, reflections and parameters. That the formulas derive from one another is checked in the specification by exact differences.")

prop("P35", "What makes no sense is refused, and changes nothing",
     "Facets that do not close up around a simplex compose none, nor do vertices of which two are the same; diagonals are flipped only across a side two triangles have in common and are turned around alike; a cell takes the vertices of its simplex, in an order of its orientation, and no others; "
     "a point is placed once, a key inserted into a discrete field once; what has not been placed or inserted is not read or written; only sides of the cells of a mesh are asked whether they are on its boundary; files that are not there, of another dimension or of other cells than announced are not read. "
     "All that is refused (by a failed assertion or an exception), everything else is carried out, and neither the complex, nor coordinates, fields and meshes at hand show a refusal.",
     ["inputs", "histories"], "every operation and its arguments, after every history",
     "Tests use what is right; of what is wrong they try next to nothing, and that a check became laxer, or stricter, shows only in the combinations it is for.",
     ["lib/mito/topology/utilities.h", "lib/mito/topology/OrientedSimplexFactory.h", "lib/mito/topology/FlipDiagonal.icc", "lib/mito/topology/Topology.icc", G + "GeometricSimplex.h", G + "CoordinateSystem.h",
      "lib/mito/discrete/DiscreteField.h", M + "Mesh.h", "lib/mito/io/summit/reader.h"],
     [("compositions", "lib/mito/topology/utilities.h"), ("cells and nodes", G + "GeometricSimplex.h"), ("placing points", G + "CoordinateSystem.h"), ("fields", "lib/mito/discrete/DiscreteField.h"), ("files", "lib/mito/io/summit/reader.h")],
     "Every list of oriented facets taken from the ends of segments, eight segments and two families of eight triangles (8900 lists); random histories of 60 steps on 6 vertices. As the stable build, with assertions on: without them nothing is refused.",
     observe=["assertions and exceptions"])
