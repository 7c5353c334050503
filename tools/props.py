"""Single source of the property list; tools/mk.py writes properties.jsonl and MANIFEST.json from it"""
A = 'pycomplex/'
PROPS = []


def prop(id, title, statement, over, text, why, files, mech, observe=(), level_note=None, assumptions=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                      observe=list(observe), level_note=level_note))


prop('C01', 'Simplicial topology is the exact signed face complex of its cells',
     'For any array of n-simplices over a contiguous vertex range, in any cell order, vertex numbering and corner order, the '
     'constructed topology keeps the given cells, lists every lower-dimensional face exactly once, and its incidence arrays and '
     'signed incidence matrices equal the oriented boundary of those faces, so that the boundary of a boundary is zero. The facet '
     'listed k-th for a cell of dimension two or more is the one opposite its k-th corner. Vertex numberings with gaps are '
     'rejected with ValueError, and the chain self-check raises ValueError exactly when some boundary of boundary is not zero.',
     ['inputs'], 'every simplicial cell array of any dimension, orientation, connectivity and numbering',
     'The tests build a handful of fixed meshes (icosahedron, grids, a random n-simplex) and mostly assert that nothing raises; '
     'signs and completeness for arbitrary numberings are never compared with the definition.',
     ['pycomplex/topology/simplicial.py', 'pycomplex/topology/primal.py', 'pycomplex/topology/base.py', 'pycomplex/topology/util.py'],
     [('TopologySimplicial.from_simplices', 'pycomplex/topology/simplicial.py'), ('relative_simplex_parity', 'pycomplex/topology/simplicial.py'),
      ('PrimalTopology.matrix', 'pycomplex/topology/primal.py'), ('check_chain', 'pycomplex/topology/base.py')])

prop('C02', 'Cubical topology is the exact signed face complex of its cells',
     'For any array of n-cubes over a contiguous vertex range, in any cell order, vertex numbering and with any symmetry of the cube '
     'applied to each cell, the constructed topology keeps the given cells, lists every lower-dimensional face exactly once as a '
     'cube on the right corners, and its incidence arrays (cell, axis, side) and signed incidence matrices equal the oriented '
     'boundary of those faces. Enumeration of the faces of any codimension is complete, the parity of every cube symmetry is that '
     'of its permutation and reflections, and vertex orders that are no symmetry of a cube are rejected with ValueError.',
     ['inputs'], 'every cubical cell array of dimension 1-4, including irregular vertices and rotated or mirrored neighbours',
     'The tests use regular grids in their natural numbering; rotated or mirrored neighbouring cubes and random numberings do not occur.',
     ['pycomplex/topology/cubical.py', 'pycomplex/topology/primal.py', 'pycomplex/math/combinatorial.py'],
     [('TopologyCubical.from_cubes', 'pycomplex/topology/cubical.py'), ('relative_cube_parity', 'pycomplex/topology/cubical.py'),
      ('generate_cube_boundary', 'pycomplex/topology/cubical.py')])

prop('C03', 'Orientation is decided and repaired correctly',
     'A topology reports itself oriented exactly when any two cells sharing a facet induce opposite orientations on it. '
     'Fixing the orientation returns the same cells in the same order, consistently oriented, for every orientable topology '
     '(connected or not, with loose cells or not), and raises ValueError for every non-orientable one. Relative parity holds one '
     'entry per cell, and flipping the cells of odd parity orients the topology.',
     ['inputs'], 'every simplicial and cubical complex whose facets have at most two cells',
     'The tests try one Moebius strip and one or two orientable meshes; disconnected inputs, loose cells, RP2, Klein bottles and '
     'cubical non-orientable complexes are not covered.',
     ['pycomplex/topology/base.py', 'pycomplex/topology/simplicial.py', 'pycomplex/topology/cubical.py'],
     [('BaseTopology.relative_parity', 'pycomplex/topology/base.py'), ('fix_orientation', 'pycomplex/topology/simplicial.py'),
      ('fix_orientation', 'pycomplex/topology/cubical.py')])

prop('C04', 'Connectivity and manifoldness are computed correctly',
     'Cells get the same component label exactly when they are linked through shared facets; a topology is connected exactly when '
     'there is one component, and splitting it yields the components as sub-topologies that partition the cells, largest first. '
     'The number of regions at a vertex is the number of facet-connected groups among its incident cells, and a topology is '
     'manifold exactly when every vertex has one region.',
     ['inputs'], 'every simplicial and cubical complex, manifold or not',
     'The tests check a single bow-tie and a connected sphere.',
     ['pycomplex/topology/base.py', 'pycomplex/topology/primal.py'],
     [('label_connections', 'pycomplex/topology/base.py'), ('regions_per_vertex', 'pycomplex/topology/base.py'),
      ('split_connected_components', 'pycomplex/topology/primal.py')])

prop('C05', 'Boundary, subsets and boundary selectors are exact',
     'The boundary of an oriented topology consists of exactly the facets with a single incident cell, with their faces; it is absent exactly for closed '
     'topologies, and for manifolds it is itself closed, oriented, and carries the induced orientation; a topology that is not '
     'oriented raises ValueError. A selected subset consists of exactly the selected cells and their faces, in their order and '
     'orientation, and a mask of the wrong length raises ValueError. Both refer back to the parent elements they coincide with, and '
     'the boundary selectors (in the numbering of the boundary) and interior selectors split the elements of each dimension accordingly.',
     ['inputs'], 'every oriented simplicial and cubical complex and every cell mask',
     'The tests look at sizes of boundaries of a few grids; index maps back to the parent and selectors are not compared with a model.',
     ['pycomplex/topology/primal.py'],
     [('PrimalTopology.boundary', 'pycomplex/topology/primal.py'), ('select_subset', 'pycomplex/topology/primal.py'),
      ('find_correspondence', 'pycomplex/topology/primal.py'), ('selector_interior', 'pycomplex/topology/primal.py')])

prop('C06', 'The dual topology is a closed cell complex of the same space',
     'The dual of an oriented manifold has one k-element per primal (n-k)-element plus one per boundary (n-k-1)-element; its matrices '
     'are the transposed primal matrices, extended so that each boundary element closes the dual of the primal element it lies on. '
     'The dual boundary of a boundary is zero, every dual edge has two oppositely oriented ends, and the Betti numbers equal '
     'those of the primal. Selectors split dual elements into interior and boundary ones, and a topology that is not oriented has no dual (ValueError).',
     ['inputs'], 'every oriented simplicial and cubical manifold, closed or bounded',
     'The tests run the self-check of the chain on three meshes; the closure at the boundary was only looked at in 2d.',
     ['pycomplex/topology/dual.py', 'pycomplex/topology/primal.py'],
     [('Dual.matrices', 'pycomplex/topology/dual.py'), ('ClosedDual', 'pycomplex/topology/dual.py'), ('PrimalTopology.dual', 'pycomplex/topology/primal.py')])

prop('C07', 'Averaging operators and degrees match the incidence of the cells',
     'The vertex-averaging operator of each dimension is the uniform mean over the vertices of each element, the cell-averaging '
     'operator is the uniform mean over the top cells containing each element, and the degree of an element is the number of top '
     'cells containing it, however many that may be. Chains and forms have one entry per element, filled as requested.',
     ['inputs'], 'every simplicial and cubical complex, including elements with hundreds of incident cells',
     'No test compares these operators with an enumeration, nor uses high-valence vertices.',
     ['pycomplex/topology/base.py', 'pycomplex/sparse.py'],
     [('averaging_operators_0', 'pycomplex/topology/base.py'), ('averaging_operators_N', 'pycomplex/topology/base.py'),
      ('degree', 'pycomplex/topology/base.py'), ('normalize_l1', 'pycomplex/sparse.py')])

prop('C08', 'Topological subdivision refines every cell exactly',
     'Fundamental, simplicial, cubical and loop subdivision produce exactly the fine cells spanned by chains of faces of each coarse '
     'cell (one fine vertex per coarse element of the dimensions involved, numbered by dimension and then by coarse index), no cell missing or duplicated, each '
     'oriented alike within consistently oriented parents (cubes made from tetrahedra are left to the caller to orient). The result '
     'is a valid chain complex with the same Euler characteristic, number of components, orientedness and closedness as the coarse '
     'topology, and refers to it as its parent. Direct loop subdivision gives the same triangles as loop subdivision, listed per parent with the central one '
     'first, and the fundamental domains of a cell enumerate each of its flags once.',
     ['inputs', 'histories'], 'every simplicial and cubical complex up to dimension 3 and every sequence of subdivisions',
     'The tests check that a subdivided topology is oriented for a few fixed meshes; which cells result, in which order and with which '
     'signs is not asserted, and direct loop subdivision of more than one triangle is not covered.',
     ['pycomplex/topology/simplicial.py', 'pycomplex/topology/cubical.py'],
     [('subdivide_fundamental', 'pycomplex/topology/simplicial.py'), ('subdivide_loop_direct', 'pycomplex/topology/simplicial.py'),
      ('subdivide_cubical', 'pycomplex/topology/simplicial.py'), ('subdivide_cubical', 'pycomplex/topology/cubical.py'),
      ('fundamental_domains', 'pycomplex/topology/cubical.py')])

prop('C09', 'Transfer operators follow the ancestry of subdivided cells exactly',
     'The transfer matrices of a loop or cubical subdivision relate each fine k-element to the one coarse k-element it is part of, and '
     'contain nothing else; in two dimensions fine elements inherit the orientation of their ancestors, so that transfers commute with '
     'the signed boundary. Transfers compose over repeated subdivision, the dual transfers of a bounded topology are those of '
     'the primal plus those of the boundary, and the relations of a cubical subdivision name the coarse element at each fine corner.',
     ['inputs', 'histories'], 'every triangulation and cubical complex, in any numbering and orientation, however often subdivided',
     'The tests only print or plot transfers for a sphere and a grid.',
     ['pycomplex/topology/simplicial.py', 'pycomplex/topology/cubical.py', 'pycomplex/topology/dual.py'],
     [('subdivide_loop', 'pycomplex/topology/simplicial.py'), ('subdivide_cubical_transfers', 'pycomplex/topology/cubical.py'),
      ('transfer_matrices', 'pycomplex/topology/dual.py')])

prop('C10', 'Products of cubical complexes are products of their cells',
     'The product of two cubical complexes has exactly one (i+j)-element for every pair of an i-element and a j-element, spanned by the '
     'pairs of their corners and oriented as the pair, is a valid chain complex, and its vertex and element positions are pairs of positions. '
     'Euler characteristics multiply, Betti numbers obey the Kuenneth formula, the product is oriented (closed) exactly when both factors '
     'are, and taking products is associative.',
     ['inputs'], 'every pair or triple of cubical complexes of any dimension, numbering and orientation',
     'The tests form two or three products of lines and circles, and check the chain only.',
     ['pycomplex/topology/cubical.py', 'pycomplex/complex/cubical.py'],
     [('TopologyCubical.product', 'pycomplex/topology/cubical.py'), ('ComplexCubical.product', 'pycomplex/complex/cubical.py')])

prop('C11', 'Geometric subdivision places vertices right and preserves the shape',
     'Subdividing an embedded complex puts every new vertex at the position of the coarse element it stands for (circumcenter of simplices, '
     'mean of cubes, midpoint of edges for loop, projected to the sphere for spherical complexes), wherever the complex lies and whatever its size. The fine '
     'cells cover the coarse cells: signed volumes add up, loop subdivision splits a triangle in four equal parts, and the boundary of the subdivided complex is the '
     'subdivided boundary. The result is of the same type as its source (or the documented one) and refers to it as its parent.',
     ['inputs', 'histories'], 'every planar, solid, surface, spherical and cubical complex at any place, scale and orientation',
     'The tests plot subdivisions of complexes of unit size around the origin, where circumcenters happen to be computed well.',
     ['pycomplex/complex/simplicial/euclidian.py', 'pycomplex/complex/simplicial/spherical.py', 'pycomplex/complex/cubical.py', 'pycomplex/geometry/euclidian.py',
      'pycomplex/complex/simplicial/base.py'],
     [('subdivide_fundamental', 'pycomplex/complex/simplicial/base.py'), ('subdivide_loop', 'pycomplex/complex/simplicial/euclidian.py'),
      ('circumcenter_barycentric', 'pycomplex/geometry/euclidian.py')])

prop('C12', 'Smoothing and loop subdivision operators average as documented',
     'Smoothing moves each vertex to the mean of the centroids of the lowest-dimensional crease elements it is part of, or of its cells where it has none, '
     'and the smoothing operator is the matrix of that map, whatever field it is applied to. The loop subdivision operator equals loop subdivision '
     'followed by smoothing with the creases carried over to the parts of the creased elements, so that it has unit row sums, reproduces constants, and '
     'gives one row per fine vertex. Neither changes the complex or the creases passed in.',
     ['inputs'], 'every simplicial and cubical complex, vertex position and set of creases on elements of any dimension',
     'The tests plot smoothed surfaces and compare nothing.',
     ['pycomplex/complex/base.py', 'pycomplex/complex/simplicial/euclidian.py', 'pycomplex/complex/cubical.py', 'pycomplex/topology/base.py'],
     [('smooth', 'pycomplex/complex/base.py'), ('smooth_operator', 'pycomplex/complex/base.py')])

prop('C13', 'Primal and dual metrics are the volumes of the elements and their duals',
     'The primal metric of an embedded simplicial complex is the volume of each element, and its dual metric is the signed volume of the circumcentric (for '
     'weighted complexes power-centric) dual of each element, so that dual cells partition the complex, also where triangles are obtuse or centers lie outside their cells. '
     'The closed dual metric appends the dual metric of the boundary complex, '
     'and the complex reports a non-positive dual metric and non-well-centered cells when and only when there are any. The guarantee covers complexes in which centers '
     'of the elements of lower dimension than the cells lie inside those elements.',
     ['inputs'], 'every curve and every planar, solid and surface complex of dimension up to four, weighted or not, open or closed, in any numbering, place and scale',
     'The tests compare total areas of a sphere or square; individual dual volumes with their signs are not compared with anything.',
     ['pycomplex/complex/simplicial/euclidian.py', 'pycomplex/complex/simplicial/base.py', 'pycomplex/geometry/euclidian.py', 'pycomplex/complex/base.py'],
     [('metric', 'pycomplex/complex/simplicial/euclidian.py'), ('dual_metric_closed', 'pycomplex/complex/base.py'),
      ('unsigned_volume', 'pycomplex/geometry/euclidian.py')])

prop('C14', 'Hodge stars, positions and Laplacians are consistent and placement-invariant',
     'Hodge stars are the quotients of dual and primal metrics and inverse to each other; primal positions are the circumcenters (power centers for weighted complexes) of '
     'the elements, and dual positions are those of the primal elements followed by those of the boundary. Metrics do not change when a complex is rotated, moved, '
     'renumbered or its weights shifted by a constant, and scale with the power of their dimension; the Laplacian built from the incidence matrix and hodge star '
     'conserves, and vanishes for affine functions at interior vertices of flat complexes. Dual edge excess is the signed squared distance from the center of each cell to that of '
     'each of its facets, its remappings onto facets and vertices add up exactly the entries of incident cells, and a complex is pairwise Delaunay exactly when the excess of every facet is positive.',
     ['inputs'], 'every curve and every planar, surface and solid simplicial complex of dimension up to four, weighted or not, in any place, scale and numbering',
     'The tests solve on a few fixed meshes without comparing with exact values; none of them moves or renumbers a complex.',
     ['pycomplex/complex/base.py', 'pycomplex/complex/simplicial/base.py', 'pycomplex/complex/simplicial/euclidian.py'],
     [('hodge_DP', 'pycomplex/complex/base.py'), ('dual_edge_excess', 'pycomplex/complex/simplicial/base.py'), ('primal_position', 'pycomplex/complex/simplicial/base.py')])

prop('C15', 'Measures of triangulated surfaces and polygons are exact',
     'For any triangulated surface in the plane or in space, areas and angles of triangles, vertex areas (a third of each incident triangle), edge lengths, triangle and vertex '
     'normals and centroids equal their definitions, and the cotangent edge ratios equal the hodge star of edges. The enclosed volume and center of mass of a closed surface are exact, '
     'wherever the surface is placed. The enclosed area of closed polygons in the plane is exact, and open ones are rejected with ValueError.',
     ['inputs'], 'every triangulated surface in two and three dimensions, open or closed, obtuse triangles included, and every closed polygon',
     'The tests compare the volume of one sphere with a rough tolerance.',
     ['pycomplex/complex/simplicial/euclidian.py', 'pycomplex/geometry/euclidian.py', 'pycomplex/complex/cubical.py'],
     [('ComplexTriangularEuclidian3', 'pycomplex/complex/simplicial/euclidian.py'), ('compute_edge_ratio', 'pycomplex/complex/simplicial/euclidian.py'),
      ('ComplexCubical1Euclidian2', 'pycomplex/complex/cubical.py')])

prop('C16', 'Metrics of regular cubical complexes are the volumes of boxes and their duals',
     'For every axis-aligned cubical complex, with any spacing, missing cubes and orientation of each cube, the primal metric is the volume of each element, the dual metric that of the part of '
     'its dual inside the complex, and the closed dual metric appends the dual metric of the boundary facets. Dual cells partition the complex, hodge stars are the quotients of the '
     'metrics, positions are the centers of the elements, and the Laplacian vanishes for affine functions at interior vertices. The same holds after cubical subdivision.',
     ['inputs'], 'every axis-aligned cubical complex of dimension 1 to 4, uniform or not, with missing cubes',
     'The tests use full uniform grids and do not compare the metric of individual elements.',
     ['pycomplex/complex/regular.py', 'pycomplex/geometry/regular.py', 'pycomplex/complex/base.py'],
     [('metric', 'pycomplex/complex/regular.py'), ('hypervolume', 'pycomplex/geometry/regular.py')])

prop('C17', 'Picking and sampling in regular cubical complexes is exact',
     'For every complex of equal axis-aligned boxes, picking a point inside the complex returns the cube, dual cell and fundamental domain that contain it with its coordinates therein, whether a '
     'guess is given or not and whether the guess is right or not. Sampled primal 0-forms are the multilinear interpolation of the vertices of the cube, and sampled dual 0-forms that of '
     'averages over the dual vertices of each element of the fundamental domain; values of any trailing shape are accepted and outside of the complex nothing is extrapolated. '
     'Multilinear functions are reproduced by primal forms, and affine ones by dual forms away from the boundary.',
     ['inputs'], 'every complex of equal boxes of dimension 1 to 4 with missing cubes, every point and every guess',
     'The tests draw pictures of one sampled field.',
     ['pycomplex/complex/regular.py', 'pycomplex/topology/dual.py'],
     [('pick_primal', 'pycomplex/complex/regular.py'), ('pick_fundamental', 'pycomplex/complex/regular.py'), ('sample_dual_0', 'pycomplex/complex/regular.py')])

prop('C18', 'Euclidian volumes, circumcenters, angles and normals of simplices are exact',
     'For every simplex (or array of simplices with any leading axes) in a space of any dimension, unsigned and signed volumes, interior angles, circumcenters (or power centers, given weights; by construction '
     'or in barycentric coordinates), normals of the faces opposite to each corner, area-weighted normals, and segment normals equal their definitions up to rounding, regardless of place and scale. '
     'Arrays with too many points, or too few for a signed volume, are rejected with ValueError. Inputs are not modified.',
     ['inputs'], 'every non-degenerate simplex of dimension 0 to 5 in a space of at least its dimension (volumes and angles of degenerate ones too), with any weights',
     'The tests print results for a few triangles and do not compare them with anything.',
     ['pycomplex/geometry/euclidian.py', 'pycomplex/math/linalg.py'],
     [('unsigned_volume', 'pycomplex/geometry/euclidian.py'), ('circumcenter_barycentric', 'pycomplex/geometry/euclidian.py'), ('simplex_gradients', 'pycomplex/geometry/euclidian.py'),
      ('pinv', 'pycomplex/math/linalg.py')])

prop('C19', 'Lengths, areas and centers on the sphere are exact',
     'For arrays of any shape of points on the unit sphere, arc lengths, areas of spherical triangles (from corners or from the normals of their great circles), circumcenters of points, arcs and triangles, the '
     'parts of a triangle around a center, and intersections of great circles equal their definitions up to rounding, for any order of corners and any rotation. Area is additive, and zero for degenerate triangles. '
     'Triangles in other than three dimensions are rejected with ValueError.',
     ['inputs'], 'all points, arcs and triangles on the sphere of which no two points are opposite',
     'The tests print results for an octant.',
     ['pycomplex/geometry/spherical.py'],
     [('triangle_area_from_corners', 'pycomplex/geometry/spherical.py'), ('circumcenter', 'pycomplex/geometry/spherical.py'), ('unsigned_volume', 'pycomplex/geometry/spherical.py')])

prop('C20', 'Metrics, subdivisions and dual transfers of spherical complexes are exact',
     'For every well-centered triangulation of (part of) the sphere and polygon on the circle, weighted or not, of any radius, primal and dual metrics are the lengths and areas on the sphere of the elements and '
     'their duals, dual cells partition the complex, and the closed dual metric appends that of the boundary; complexes that are not well-centered report so and their metric is refused with AssertionError. Subdivisions, casts, rotations and boundaries lie on the '
     'same sphere, keep the radius and cover the same area. The dual transfer between a complex and its loop subdivision holds the area of overlap of each coarse and each fine dual cell.',
     ['inputs'], 'every well-centered triangulation of the sphere, closed or open, oriented outward or inward, and every polygon on the circle',
     'The tests plot spheres; the one that compares sums of overlaps is skipped as broken.',
     ['pycomplex/complex/simplicial/spherical.py', 'pycomplex/complex/simplicial/base.py', 'pycomplex/geometry/spherical.py'],
     [('metric', 'pycomplex/complex/simplicial/spherical.py'), ('multigrid_transfer_dual', 'pycomplex/complex/simplicial/spherical.py'), ('subdivide_fundamental', 'pycomplex/complex/simplicial/base.py')])

prop('C21', 'Picking in simplicial complexes finds the element that contains the point',
     'For every connected Delaunay complex (regular, when weighted) that fills its space, picking a point inside returns the simplex, the dual cell and (well-centered complexes) the fundamental domain that contain it '
     'with its barycentric coordinates, with or without a guess, right or wrong; complexes that are not pairwise Delaunay are refused with AssertionError. Sampled primal 0-forms interpolate the corners linearly, and sampled '
     'dual 0-forms averages over the dual vertices of each element of the domain, with positive weights that sum to one. On circles and spheres the same holds for the simplex below the point.',
     ['inputs'], 'every Delaunay or regular triangulation in the plane and in space, and Delaunay of the circle, the sphere and the 3-sphere, of cells of any size, every point and every guess',
     'The tests draw pictures of picked indices on a few meshes.',
     ['pycomplex/complex/simplicial/base.py', 'pycomplex/complex/simplicial/euclidian.py', 'pycomplex/complex/simplicial/spherical.py', 'pycomplex/complex/base.py'],
     [('pick_primal', 'pycomplex/complex/simplicial/base.py'), ('pick_fundamental', 'pycomplex/complex/simplicial/base.py'), ('sample_dual_0', 'pycomplex/complex/simplicial/base.py')])

prop('C22', 'Fluxes convert to the velocity field that has them',
     'For every pairwise Delaunay simplicial complex, flat or curved, and every grid of boxes, the velocity at each primal n-element is the least squares vector whose flow through the facets of the element is the dual 1-form '
     'times its hodge star; at boundary dual vertices it is zero. The velocity of the gradient of an affine function is its slope, exactly (where the centers of edges and facets are inside them, so that C13 pins their metric). Values of any trailing shape are accepted and inputs are not modified.',
     ['inputs'], 'every pairwise Delaunay complex in the plane, in space, on curved surfaces and on the sphere, and every grid of boxes of dimension 1 to 4; every dual 1-form',
     'The tests only plot flows.',
     ['pycomplex/complex/simplicial/base.py', 'pycomplex/complex/regular.py'],
     [('dual_flux_to_dual_velocity', 'pycomplex/complex/simplicial/base.py'), ('dual_flux_to_dual_velocity', 'pycomplex/complex/regular.py')])

prop('C23', 'Linear algebra kernels follow their definitions for arrays of any shape',
     'For arrays with any leading axes, dot products, normalization along any axis and norm, powers and angles of rotations, rotations from planes, nearest orthonormal matrices (without mirroring, unless asked), inverses and '
     'cofactors and null vectors of 3 by 3 matrices, and pseudoinverses equal their definitions up to rounding, rank-deficient, mirrored and zero input included. Inputs are not modified.',
     ['inputs'], 'all arrays of real vectors and matrices up to five dimensions',
     'The tests compare a few 3 by 3 matrices.',
     ['pycomplex/math/linalg.py'],
     [('orthonormalize', 'pycomplex/math/linalg.py'), ('power', 'pycomplex/math/linalg.py'), ('pinv', 'pycomplex/math/linalg.py'), ('rotation_from_plane', 'pycomplex/math/linalg.py')])

prop('C24', 'Combinatorial, index and sparse kernels and the basic solvers are exact',
     'Permutations and combinations come once each, in order and with their parity; element lookup finds every element by its vertices, whatever their order, and raises KeyError for missing ones; selection, transfer and topology matrices, '
     'sparse normalization and inverses of diagonals equal their definitions. Conjugate gradient solves positive definite systems within the subspace of a constraint, and minres symmetric ones, to their tolerance. Inputs are not modified.',
     ['inputs'], 'all lists up to six elements, index arrays over the full range of 32 bits, sparse matrices in any format, positive definite and symmetric systems and guesses',
     'The tests sample each function once, or only through complexes.',
     ['pycomplex/math/combinatorial.py', 'pycomplex/topology/util.py', 'pycomplex/sparse.py', 'pycomplex/solvers.py', 'pycomplex/util.py'],
     [('permutations', 'pycomplex/math/combinatorial.py'), ('element_indices', 'pycomplex/topology/util.py'), ('normalize_l1', 'pycomplex/sparse.py'), ('solve_cg', 'pycomplex/solvers.py'), ('solve_minres', 'pycomplex/solvers.py')])

prop('C25', 'Block matrices and vectors act like the matrices and vectors they consist of',
     'For every grid of blocks, of equal or unequal sizes and in any sparse format, merging, splitting, slicing, copying, transposing, adding, multiplying, scaling, diagonals and norms of block arrays commute with doing the same to the '
     'merged matrix or vector, and the sizes of blocks are reported and kept. Splitting undoes merging. Operands are not modified.',
     ['inputs'], 'all block vectors and block matrices, sparse and dense',
     'The tests merge one block matrix.',
     ['pycomplex/block.py'],
     [('BlockArray', 'pycomplex/block.py'), ('SparseBlockMatrix', 'pycomplex/block.py'), ('DenseBlockArray', 'pycomplex/block.py')])

prop('C26', 'Operators on periodic stencil grids equal the explicit differences and averages',
     'On periodic grids of any shape, the primal derivative of an n-form is the signed sum of forward differences (plus for the direction that comes last), the dual derivative its transpose, and each vanishes when applied twice; averages, hodge stars, '
     'smoothers, positions and multilinear samples equal their definitions. Coarsening smooths across and averages along each element, refinement interpolates linearly; they are each other\'s transpose up to a factor, keep constants, and refinement commutes with the '
     'derivative. Forms of any precision and memory layout are accepted and not modified, and forms of another shape are rejected with AssertionError.',
     ['inputs'], 'every periodic grid of dimension 1 to 4, axes of length one and odd axes included; every form and every sample point',
     'The tests cover a few even square grids and compare little more than duality.',
     ['pycomplex/stencil/topology.py', 'pycomplex/stencil/complex.py', 'pycomplex/stencil/util.py'],
     [('StencilTopology.primal', 'pycomplex/stencil/topology.py'), ('transfers', 'pycomplex/stencil/topology.py'), ('sample_0', 'pycomplex/stencil/complex.py'), ('generate', 'pycomplex/stencil/util.py')])

prop('C27', 'Expressions of stencil operators act like the expressions of their matrices',
     'Any expression of compositions, sums and transposes of derivatives, diagonals, identities, zeros and symmetric operators, simplified or not, acts on forms, converts to a dense matrix and acts as a linear operator on flattened forms like the same '
     'expression of matrices. Simplification never changes what an operator does, however small or close to one its coefficients. Operators or forms of incompatible shape are rejected with AssertionError.',
     ['inputs', 'histories'], 'every expression of stencil operators over every periodic grid',
     'The tests do not cover operator expressions by themselves.',
     ['pycomplex/stencil/operator.py'],
     [('ComposedOperator', 'pycomplex/stencil/operator.py'), ('CombinedOperator', 'pycomplex/stencil/operator.py'), ('DiagonalOperator', 'pycomplex/stencil/operator.py')])

prop('C28', 'Stencil block systems equal the matrices they stand for',
     'For every periodic grid and choice of coefficients, the canonical system is the symmetric matrix of hodge stars, derivatives and dual derivatives; subsystems by ranges or lists of blocks, products, normal equations of either kind, diagonals, restrictions and '
     'conversions to and from dense vectors and linear operators equal those of the matrix. Block arrays keep the shape of each block, equal or not, and subsystems and copies are independent of their origin.',
     ['inputs'], 'every system over periodic grids of dimension 1 to 3, odd axes included; every selection of blocks; block arrays of any shape',
     'The tests compare one or two square systems.',
     ['pycomplex/stencil/block.py', 'pycomplex/stencil/linear_system.py'],
     [('BlockOperator', 'pycomplex/stencil/block.py'), ('BlockArray.from_dense', 'pycomplex/stencil/block.py'), ('System', 'pycomplex/stencil/linear_system.py')])

prop('C29', 'Diffusion problems relax and solve to the solution of their linear system',
     'For every periodic grid, constraint, conductance and resistance, each formulation is the documented block matrix; a step of Jacobi, overrelaxation, smoothing or block Gauss-Seidel is that of the matrix, the default solver satisfies the normal equations to its tolerance from any guess, and '
     'coarse levels, restriction and interpolation follow from the coarsened fields. V-cycles and full cycles do the documented sequence of smoothing, coarse correction and smoothing on any hierarchy. Guesses, right hand sides and fields are not modified.',
     ['inputs', 'histories'], 'every diffusion problem over periodic grids of dimension 1 to 3, and every hierarchy of linear equations',
     'The tests that solve diffusion problems only plot, and do not pass.',
     ['pycomplex/stencil/equation.py', 'pycomplex/stencil/diffusion.py', 'pycomplex/stencil/multigrid.py'],
     [('NormalSmoothEquation', 'pycomplex/stencil/equation.py'), ('Diffusion.formulate', 'pycomplex/stencil/diffusion.py'), ('v_cycle', 'pycomplex/stencil/multigrid.py')])

prop('C30', 'Cutting, extruding and saving triangulated surfaces keep their geometry',
     'Cutting a triangulated surface by any plane puts one vertex on each cut edge, replaces each cut triangle by oriented pieces that cover it, and optionally keeps exactly the part below the plane. Extruding an open surface to a displaced copy with the same triangles gives a '
     'closed oriented surface of the swept volume, and rejects closed surfaces and unrelated copies with AssertionError. A surface written to a binary STL file has the corners and normals of its triangles there, and reads back as the same oriented surface in single precision.',
     ['inputs', 'histories'], 'every triangulated surface in the plane or in space, every plane that leaves part of it, every displacement',
     'The tests cut and extrude one shape and look at a plot; files are not read back.',
     ['pycomplex/complex/simplicial/euclidian.py'],
     [('clip', 'pycomplex/complex/simplicial/euclidian.py'), ('extrude', 'pycomplex/complex/simplicial/euclidian.py'), ('save_STL', 'pycomplex/complex/simplicial/euclidian.py')])

prop('C31', 'Copies, placements, subsets and casts give complexes of the right parts',
     'For every complex of any type and every history of copies, translations, linear and projective transformations, scalings, subsets, fixed orientations, boundaries and casts, each result has the documented type and exactly the vertices, cells, weights and radius '
     'that the operation implies, refers to its origin, and has derived quantities (box, positions, boundary, metrics) equal to those of a complex newly built of the same arrays. Earlier complexes of the history, and what was derived from them, do not change. '
     'Casts to cells or spaces of another dimension, and subsets by a mask of another length, are rejected.',
     ['histories', 'inputs'], 'all histories of operations on complexes of any type',
     'The tests apply one operation to one complex and rarely look at the result.',
     ['pycomplex/complex/base.py', 'pycomplex/complex/cubical.py', 'pycomplex/complex/simplicial/euclidian.py', 'pycomplex/complex/simplicial/spherical.py'],
     [('copy', 'pycomplex/complex/base.py'), ('select_subset', 'pycomplex/complex/base.py'), ('affine_transform', 'pycomplex/complex/base.py'), ('as_spherical', 'pycomplex/complex/simplicial/euclidian.py'), ('as_33', 'pycomplex/complex/cubical.py')])

prop('C32', 'Optimized vertex weights follow their definitions',
     'For every simplicial complex without weights, flat, curved or on the sphere, optimized weights are the mean dual edge excess of the cells around each vertex, or the balanced offsets of circumcenters from barycenters relative to the edge hodge star, less their mean; '
     'for the fundamental subdivision of a well-centered complex of up to three dimensions they make every domain strictly well-centered. Results are copies with the same vertices and cells, a weighted complex is refused with AssertionError, and '
     'augmenting points with weights turns power distances into distances up to a constant.',
     ['inputs'], 'all simplicial complexes of one to three dimensions, and all weights and points',
     'The tests look at plots of optimized complexes.',
     ['pycomplex/complex/simplicial/base.py'],
     [('optimize_weights', 'pycomplex/complex/simplicial/base.py'), ('optimize_weights_metric', 'pycomplex/complex/simplicial/base.py'), ('optimize_weights_fundamental', 'pycomplex/complex/simplicial/base.py'), ('augment', 'pycomplex/complex/simplicial/base.py')])

prop('C33', 'Generated complexes are what they are named after',
     'Grids of cubes of any shape have every grid point and cube once, centered or not, oriented or (without mirror images) not; simplices are equilateral on the unit sphere or canonical; circles, cylinders, icospheres, duals of cubes and the 600-cell are closed or open, regular, '
     'oriented and of the given size and refinement. Random Delaunay squares cover the unit square with Delaunay triangles and a regular rim, and random Delaunay spheres keep their points and are closed, oriented and Delaunay, whatever the random numbers.',
     ['inputs'], 'all shapes, dimensions, sizes and refinements, and all random numbers',
     'The tests generate one of each and plot it.',
     ['pycomplex/synthetic.py'],
     [('n_cube_grid', 'pycomplex/synthetic.py'), ('n_simplex', 'pycomplex/synthetic.py'), ('circle', 'pycomplex/synthetic.py'), ('delaunay_cube', 'pycomplex/synthetic.py'), ('optimal_delaunay_sphere', 'pycomplex/synthetic.py')])

prop('C34', 'Multigrid transfers of cubical complexes are smoothed ancestries',
     'For every cubical complex of any dimension, with gaps or closed, and its cubical subdivision, the multigrid transfer of each dimension maps coarse elements to their direct descendants, and to every fine element whose corners stem from coarse elements of order at least k by '
     'k applications of the smoother (identity minus the Laplacian over its largest eigenvalue) to that map. Neither complex is changed.',
     ['inputs'], 'all cubical complexes and their subdivisions',
     'The tests print the transfers of one grid.',
     ['pycomplex/complex/cubical.py', 'pycomplex/topology/cubical.py'],
     [('multigrid_transfers', 'pycomplex/complex/cubical.py'), ('subdivide_cubical_relations', 'pycomplex/topology/cubical.py')])

prop('C35', 'Sparse arrays of explicit coordinates act like the entries they hold',
     'For sparse arrays of any dimension, with coordinates over any ranges and in any order, sums, products by entry and by number, transposes, filters, conversions and dot products hold exactly the entries that the definitions give, duplicate coordinates being summed in sums and dot products. '
     'Matching two lists finds every pair of equal items once, also for items that occur in one list only or unequally often. Coordinates and data of unequal length are rejected with ValueError, and operands are not modified.',
     ['inputs'], 'all sparse arrays and all lists of items',
     'The tests multiply two small matrices over matching ranges.',
     ['pycomplex/sparse.py'],
     [('Sparse', 'pycomplex/sparse.py'), ('multi_indices', 'pycomplex/sparse.py')])

prop('C36', 'Answers do not depend on what was asked before',
     'For topologies and complexes of every type, the answer to any query (topology matrices, duals, boundaries, averages, selectors, domains, positions, metrics, hodges, picking, sampling, weights, smoothing, subdivisions, subsets, casts) depends on the object and the arguments only: '
     'it is the same whatever was asked before, in whatever order and how often, of the object itself, of the object it was derived from, or of its boundary, dual or subdivisions. The same goes for stencil complexes and diffusion problems on them. No query modifies its arguments, or what an earlier query returned, '
     'and chains, forms and ranges are new arrays that the caller may write to.',
     ['histories', 'inputs'], 'all sequences of queries to an object and its relatives',
     'Quantities are computed lazily and cached, and the tests ask each fresh object one or two things.',
     ['pycomplex/topology/primal.py', 'pycomplex/topology/base.py', 'pycomplex/topology/dual.py', 'pycomplex/complex/base.py', 'pycomplex/complex/simplicial/base.py', 'pycomplex/complex/regular.py', 'pycomplex/stencil/complex.py', 'pycomplex/stencil/equation.py'],
     [('cached_property', 'pycomplex/topology/base.py'), ('StencilComplex', 'pycomplex/stencil/complex.py'), ('PrimalTopology', 'pycomplex/topology/primal.py'), ('BaseComplex', 'pycomplex/complex/base.py'), ('BaseComplexSimplicial', 'pycomplex/complex/simplicial/base.py')])

prop('C37', 'Equal inputs in any memory layout and number type give equal answers',
     'For complexes of every type, arrays of vertices, cells, weights and arguments of queries that hold the same values give the same answers, whether they are contiguous, in Fortran order, strided, reversed views or write-protected, whether vertex indices are of any integer type, '
     'whether integral coordinates and fields are stored as integers or as floating point numbers, and whether vertices are given as an array or as nested lists. None of these inputs is modified.',
     ['inputs'], 'all presentations of the same values',
     'The tests use contiguous arrays of the default types.',
     ['pycomplex/complex/base.py', 'pycomplex/complex/cubical.py', 'pycomplex/complex/regular.py', 'pycomplex/complex/simplicial/base.py', 'pycomplex/complex/simplicial/euclidian.py', 'pycomplex/complex/simplicial/spherical.py', 'pycomplex/topology/simplicial.py', 'pycomplex/topology/cubical.py'],
     [('BaseComplex.smooth', 'pycomplex/complex/base.py'), ('from_simplices', 'pycomplex/topology/simplicial.py'), ('from_cubes', 'pycomplex/topology/cubical.py')])
