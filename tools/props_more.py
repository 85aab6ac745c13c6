prop('C05', 'Hanging-node constraints make the coarse trace continuous',
     'On a mesh in which neighbouring cells differ by at most one refinement level, and for every continuous element, the hanging-node search constrains exactly the degrees of freedom of fine cells that lie on a side of a coarser leaf cell (of the requested submesh) and are not degrees of freedom of that coarser cell. Each is expressed through the degrees of freedom of the coarse side only, with the values of the coarse cell\'s edge polynomials at the hanging node, so that a field obeying the constraints is single-valued across the interface. Uniform meshes and discontinuous elements get no constraints. This holds whichever side of either cell forms the interface, for whatever cell starts, and when several interfaces meet.',
     ['inputs'], 'all ways a refined cell can adjoin an unrefined one, element families of order 1-3, submeshes, any cell geometry',
     'Tests examine one or two interfaces of axis-parallel unit grids; sides that are traversed in the other direction, or cells listed from another corner, are not exercised.',
     ['src/fem.py', 'src/mesh.py'],
     [('search', 'src/fem.py DofHandler.set_hanging_nodes'), ('coefficients', 'src/fem.py QuadFE.constraint_coefficients'), ('query', 'src/fem.py DofHandler.get_hanging_nodes')],
     'abstract interpretation of the hanging-node search on enumerated local interfaces with symbolic geometry; coefficients compared with the Lagrange trace of the coarse side',
     'Every local interface configuration is enumerated (gluing sides, refinement side, four cells around a vertex, submesh); larger meshes are reached only through locality of the search. Trusts the analyser\'s model of Python/numpy.')

prop('C06', 'Mesh construction and refinement keep topology and geometry consistent',
     'After building a mesh from a box, a grid resolution, points and cell connectivity, or with periodic sides, and after splitting cells in any order: the half-edges of each cell form one closed chain around it; a half-edge and its twin are each other\'s twin and run in opposite directions between the same vertices; two cells share a vertex object wherever they share a corner or side, also after either side was refined first; the children of a cell tile it (they meet in its centre and in the midpoints of its sides) and are connected to one another and to the neighbours\' children; sides without a twin are exactly the sides on the boundary. Child intervals subdivide their parent evenly and in order. Periodic meshes pair opposite sides translated by the period, and say in which directions they are periodic. A mesh read from a (gmsh) file has the cells, corners, connections, names and tags that the file describes, whatever other elements it lists.',
     ['inputs', 'histories'], 'all local gluings of cells, orders of splitting, corner numberings and cell geometries',
     'Tests look at a few grids refined in one particular order; the incidence invariants depend on which neighbour was refined first and from which corner each cell is numbered.',
     ['src/mesh.py'],
     [('edge list', 'src/mesh.py DCEL.determine_half_edges'), ('edge split', 'src/mesh.py HalfEdge.split'), ('cell split', 'src/mesh.py QuadCell.split'), ('intervals', 'src/mesh.py Interval.split'), ('periodicity', 'src/mesh.py DCEL.make_periodic'), ('import', 'src/mesh.py DCEL.grid_from_gmsh')],
     'abstract interpretation of construction and splitting on enumerated local patterns with symbolic coordinates; heap-shape invariants on the resulting object graph',
     'Side-to-side gluings, corner rotations and split orders are enumerated; coordinates are symbolic. Meshes of unbounded size are covered through locality of splitting only.')

prop('C07', 'Degrees of freedom are shared exactly where element nodes coincide',
     'After distributing degrees of freedom every cell of the mesh, at every refinement level, has one number per local node; numbers run from 0 to n-1 without gaps. For continuous elements two cells carry the same number exactly when the corresponding nodes are the same point (or identified by periodicity) and belong to vertices, sides or cells they share; for discontinuous elements leaf cells share no numbers. The degrees of freedom reported for a vertex, a side or the interior of a cell are those at the nodes that lie there, and each is located at the physical position of its node.',
     ['inputs'], 'all element families, local mesh configurations, refinement patterns, corner numberings and periodicities',
     'Tests count degrees of freedom on small uniform grids; a number passed to the wrong neighbour or in the wrong order along a side is only visible for order >= 3 or for rotated cells.',
     ['src/fem.py', 'src/mesh.py'],
     [('distribution', 'src/fem.py DofHandler.distribute_dofs'), ('sharing', 'src/fem.py DofHandler.share_dofs_with_neighbors / share_dofs_with_children'), ('query', 'src/fem.py DofHandler.get_cell_dofs')],
     'abstract interpretation of DOF distribution on enumerated local mesh patterns; numbering compared with the partition of symbolic node positions',
     'Node positions are computed independently of the code from corner symbols. Local configurations are enumerated; larger meshes are reached through locality of sharing.')

prop('C09', 'Trees, forests and submesh labels keep consistent bookkeeping',
     'For every tree or forest reachable by splitting, marking, refining, coarsening, adding and removing trees: parents and children refer to each other; depth, position and address of each node agree with where it is and lead back to it; traversals in every mode and order visit each node exactly once (or each labelled node, when a label is given); the leaves of a submesh are its labelled cells without labelled children; labels of one submesh never affect another; recording a submesh labels exactly the present mesh and is unaffected by later refinement; rooting a subtree adds exactly the missing ancestors; refinement and coarsening by label change exactly the cells the label selects and, with a new label, leave the mesh itself unchanged.',
     ['inputs', 'histories'], 'all tree shapes, labellings and options of the operations',
     'Tests try one tree shape and labelling per operation; combinations of options and irregular subtrees are not sampled.',
     ['src/mesh.py'],
     [('tree', 'src/mesh.py Tree'), ('forest', 'src/mesh.py Forest'), ('labels', 'src/mesh.py Tree.mark/unmark/is_marked')],
     'abstract interpretation of the tree operations over enumerated tree skeletons and labellings, against a structural model',
     'All labellings of small skeletons; the operations recurse over parent/child links only, so larger trees are compositions of these. Trusts the analyser\'s model of Python.')

prop('C10', 'Neighbour, boundary and region queries match the mesh',
     'The neighbour of a cell across a side is the cell on the other side at the same level; the neighbours around a vertex are exactly the same-level cells reached by walking across shared sides around it, each once, filtered by a label if one is given. The neighbour of an interval is the adjoining leaf interval (also across a periodic end) of the requested submesh. The boundary is exactly the set of finest sides with no cell opposite, each once, arranged in closed consecutive chains, one per boundary component, or those of them carrying a label. Marking a region labels exactly the vertices, sides or cells which the indicator function selects (strictly or touching, on the boundary or anywhere) and the region query returns exactly those. After balancing no leaf adjoins a leaf two levels finer. Tearing a labelled region removes exactly the neighbour relations across its sides.',
     ['inputs'], 'all local gluings, refinement patterns, rings with holes, submeshes, labels and indicator functions',
     'Tests query uniform grids; the walks around vertices and along boundaries only meet difficulties on rotated, refined, perforated or periodic meshes.',
     ['src/mesh.py'],
     [('neighbours', 'src/mesh.py Cell.get_neighbors / Interval.get_neighbor'), ('boundary', 'src/mesh.py Mesh2D.get_boundary_segments, DCEL.get_boundary_half_edges'), ('regions', 'src/mesh.py Mesh.mark_region / get_region'), ('balance', 'src/mesh.py QuadMesh.balance')],
     'abstract interpretation of the queries on enumerated local mesh patterns; results compared with incidence read off the object graph',
     'Local configurations are enumerated; indicator functions are supplied as uninterpreted predicates on vertices.')

prop('C11', 'Local form evaluation computes the integral that defines the form',
     'A kernel is evaluated by calling its function with the values of its symbols, derivatives and samples as requested, at the quadrature points of the cell, one column per sample. A form restricts itself to its measure and region flag: the cell for dv/dx, the sides (or endpoints) for ds/dv that carry the flag. The quadrature data passed to a form consists of the physical points and weights of the chosen rule on exactly those regions, and the shape functions and derivatives requested by each basis, also when the basis lives on a coarser submesh. The local value of a constant, linear, bilinear, interpolated-integral or projected-integral form is then the weighted sum of kernel values times test and trial shape functions, for every sample, and zero (with the proper shape) where the form has no region.',
     ['inputs'], 'all form types, measures, region flags, derivatives, sample counts, cell geometries, kernels, submeshes',
     'Tests compare a few integrals of polynomials over unit squares, where errors in sample axes, flags, derivatives and submesh evaluation cancel or stay invisible.',
     ['src/assembler.py', 'src/fem.py', 'src/function.py'],
     [('kernel', 'src/assembler.py Kernel.eval'), ('forms', 'src/assembler.py Form.eval / IIForm.eval / IPForm.eval'), ('regions', 'src/assembler.py Form.regions'), ('quadrature data', 'src/assembler.py Assembler.shape_eval')],
     'abstract interpretation of kernels, regions, quadrature data and local forms with unknown functions and symbolic geometry; comparison in rational normal form with the definition',
     'Elements, measures, label patterns and sample counts are enumerated; functions, weights, points and geometry are unknowns. User functions return one value per point.')

prop('C12', 'Global systems are the sum of local forms under the constraints',
     'Assembling a problem gives, for every sample, exactly the sum over the leaf cells (of the chosen submesh and region) of the local forms, scattered by the degrees of freedom of their bases, for matrices, vectors and scalars and for every layout of the problem list; assembling again or keeping cellwise data does not change this, and the caller\'s problem list is not modified. Hanging nodes are replaced by their supports, rows and columns of Dirichlet nodes are removed and their columns times the prescribed values become the Dirichlet correction. Dirichlet conditions apply to exactly the degrees of freedom on the marked boundary, with the given number, function or nodal value at their positions. Solving passes the assembled matrix and the corrected vector to the sparse solver and returns each value at the place of its degree of freedom, with Dirichlet and hanging values restored.',
     ['inputs', 'histories'], 'all problem layouts, form types, sample counts, constraint patterns, submeshes and kernels',
     'Tests solve model problems with smooth solutions on one mesh; scattered numbering, samples, several problems, hanging nodes that depend on Dirichlet nodes and partial submeshes are not combined.',
     ['src/assembler.py', 'src/fem.py'],
     [('distribution', 'src/assembler.py AssembledForm.distribute / consolidate'), ('assembly', 'src/assembler.py Assembler.assemble'), ('boundary values', 'src/assembler.py Assembler.add_dirichlet'), ('recovery', 'src/assembler.py Assembler.solve')],
     'abstract interpretation of assembly, elimination and recovery with unknown local entries, coefficients and boundary values; comparison with the algebraic definition',
     'Local entries and constraint coefficients are unknowns; numberings, problem layouts and small meshes are enumerated. Trusts the model of scipy sparse matrices and that the sparse solver solves the system it is given.')

prop('C13', 'Geometric queries decide containment, intersection and location',
     'A cell contains exactly the points on or to the left of all its sides, an interval those between its ends, a half-edge those on its segment, for points given in any accepted format. A half-edge or cell intersects a line segment exactly when they have a common point, including parallel, collinear and touching segments. Distributing points over a mesh, a cell or a submesh puts every point in exactly one bin, whose cell contains it and is a finest cell of the (sub)mesh, with indices referring to the input; points outside are refused. Locating a point returns a smallest cell of the (sub)mesh containing it, or nothing outside. The relative position and width of a sub-cell or sub-edge are its offset and size in the reference domain, and cells that are not contained are refused. Areas, bounding boxes, unit normals, lengths and the rectangle classification agree with the corner coordinates.',
     ['inputs'], 'all cell geometries and corner numberings, all relative positions of points, segments and sub-cells, all submeshes',
     'Tests try a few points on unit squares; the decisions depend on the sign of determinants and break for falling, vertical or reversed sides, for points on boundaries and for submeshes.',
     ['src/mesh.py'],
     [('containment', 'src/mesh.py Cell/HalfEdge/Interval.contains_points'), ('intersection', 'src/mesh.py HalfEdge/Cell.intersects_line_segment'), ('location', 'src/mesh.py bin_points / locate_point'), ('position', 'src/mesh.py subcell_position')],
     'abstract interpretation with predicate abstraction: the orientation signs of symbolic points are enumerated completely and the answers compared with the geometric definition',
     'Signs of orientation determinants are enumerated for symbolic corners (plus a few constant instances); non-zero determinants are assumed large compared with the absolute tolerances in the code.')

prop('C14', 'Functions return the values that define them',
     'An explicit function returns one column per sample, the value of that sample\'s rule with that sample\'s parameters at each point (one or two variables, points in any accepted format); replacing a rule or parameters affects only the samples named, no other function and no list of the caller. A constant returns its value(s) at every point. A nodal function built from rules holds the rule\'s value at the position of each degree of freedom of its basis (at each pair, first variable first, if bivariate). At any point, with or without the cell given, on the mesh or a submesh, it returns for every sample the sum over the degrees of freedom of the containing cell of the nodal value times the shape function there (products for two variables) or its requested derivative; given shape functions it combines them the same way. Interpolants and derivatives carry these values at their own nodes, cell by cell. Modifying data or adding samples changes exactly what is named. Basis numbering maps its degrees of freedom one to one to consecutive indices, also after its submesh is changed.',
     ['inputs', 'histories'], 'all rules, parameters, nodal values, sample counts, submeshes, box positions and sizes',
     'Tests evaluate a few smooth functions on unit grids; exchanged variables, mixed samples, indices of another submesh or derivatives from the wrong cell give the same numbers there.',
     ['src/function.py', 'src/fem.py'],
     [('explicit', 'src/function.py Explicit.eval'), ('nodal data', 'src/function.py Nodal.set_data'), ('nodal values', 'src/function.py Nodal.eval'), ('derivative', 'src/function.py Nodal.differentiate'), ('basis', 'src/fem.py Basis')],
     'abstract interpretation of the function classes with unknown rules, parameters and nodal data; compared in rational normal form with the defining sums',
     'Cells are boxes of symbolic position and size, points at fixed relative positions in them; element families and one- or two-cell (sub)meshes are enumerated. Point location itself is C13.')

prop('C15', 'Constrained linear systems are solved as stated',
     'For a linear system over a basis, with any matrix, any number of right-hand sides, Dirichlet conditions on marked boundaries and the hanging nodes of the (sub)mesh, the solution returned satisfies the constraints at every constrained degree of freedom (prescribed value, or combination of supporting values) and the equations C^T(Au-b)=0 at every other one, each value at the place of its degree of freedom. This holds whether the matrix is factored or not, for further right-hand sides of the same system given in any of the supported ways, after replacing the matrix, and for several systems on one degree of freedom handler, which do not influence one another. A positive definite matrix stays positive definite. Matrix and vectors of the caller are not modified.',
     ['inputs', 'histories'], 'all matrices, right-hand sides, boundary values, constraint patterns, submeshes and orders of calls',
     'Tests solve unconstrained-like model problems once, with contiguous numbering and no hanging nodes, so that a second solve, several hanging nodes, gaps in the numbering and shared handlers are never met.',
     ['src/solver.py', 'src/fem.py'],
     [('constraints', 'src/solver.py LinearSystem.set_constraint_relation / add_dirichlet_constraint'), ('elimination', 'src/solver.py LinearSystem.constrain_matrix / constrain_rhs'), ('recovery', 'src/solver.py LinearSystem.resolve_constraints')],
     'abstract interpretation of constraint elimination with an unknown matrix, right-hand sides and boundary values; the system handed to the solver and the restored values compared with the algebra of the constraints',
     'Constraint patterns and call orders are enumerated on small meshes; entries are unknowns. Trusts the sparse solver and the analyser\'s model of scipy.sparse.')

prop('C16', 'Matrix factorisations represent the matrix they are built from',
     'A Cholesky decomposition (dense, sparse with any fill-reducing ordering, or modified for a matrix that is not positive definite) reconstructs the matrix C (the modified one C+E, where every eigenvalue of a pivot block not above the lower bound is raised to it and nothing else changes); its factors satisfy the documented relations; dot multiplies by C; solve solves with C (C+E); sqrt_dot and its transpose multiply by S and S^T with S S^T = C (C+E), and sqrt_solve and its transpose are their inverses, for vectors and for several columns. An eigendecomposition holds the eigenvalues in descending order, none below the lower bound, with matching eigenvectors; reconstruct, dot, sqrt_dot, rank, range and nullspace are those of V D V^T, solve and sqrt_solve their (pseudo-)inverses with the given cut-off; with a mass matrix the eigenpairs solve C v = d M v and solve and sqrt_solve are inverses in that sense. Arguments are not modified.',
     ['inputs'], 'all symmetric matrices (dense, sparse, definite, indefinite, singular), pivot orders, block structures, right-hand sides and tolerances',
     'Tests use two 4x4 matrices whose pivot order is its own inverse and which have no 2x2 pivot block, and never use a mass matrix or a cut-off.',
     ['src/spd.py'],
     [('Cholesky', 'src/spd.py CholeskyDecomposition'), ('modified Cholesky', 'src/spd.py CholeskyDecomposition.modchol_ldlt'), ('eigendecomposition', 'src/spd.py EigenDecomposition')],
     'abstract interpretation of the factorisation classes on matrices defined by symbolic factors; results compared in normal form with the algebra of those factors',
     'Sizes up to 4 with all block patterns; entries are unknowns, comparisons with the lower bound are decided per sign region. Numpy/scipy/CHOLMOD routines are trusted to compute the documented factorisation.')

prop('C17', 'Gaussian fields have the stated covariance, samples and conditionals',
     'Each covariance kernel returns its documented function of the (weighted, possibly periodic) distance between its points, or of their weighted product, with the parameters given, at distance zero too; selecting a kernel by name uses that kernel. A covariance assembled by interpolation holds M K M^T with K the kernel at all pairs of degrees of freedom, by projection the double integrals of kernel and shape functions, both with the mass matrix of the chosen submesh. Samples of a Gaussian field are its mean (the column chosen, or the one following from the canonical mean) plus the root of the covariance, or inverse root of the precision, times the coefficients, and stay on the support when one is given; the expansion uses the eigenpairs of the index range asked for, truncation keeps the leading ones. Conditioning on exact data subtracts K A^T (A K A^T)^{-1} (A x - e) from a sample; the conditioned field has that mean, the covariance K - K A^T (A K A^T)^{-1} A K, and support on which A vanishes; noisy data adds the noise covariance. All this holds in covariance and precision form, dense or sparse, with mass matrix or support.',
     ['inputs'], 'all points, parameters, weights, periods, matrices, means, coefficients, observation operators and data',
     'Tests draw one random sample of one kernel; random output cannot be compared, and correlations, precision form, supports and noisy data are not tested at all.',
     ['src/gmrf.py', 'src/spd.py'],
     [('kernels', 'src/gmrf.py distance, constant .. rational'), ('assembly', 'src/gmrf.py Covariance.assemble'), ('sampling', 'src/gmrf.py GaussianField.sample / KL_sample'), ('conditioning', 'src/gmrf.py GaussianField.condition')],
     'abstract interpretation of kernels, covariance assembly, sampling and conditioning on matrices given by symbolic factors; expressions compared with the documented formulas',
     'Sizes 2 and 3, signs of displacements and fractions of the period enumerated, everything else unknown. The collocation discretisation (which decomposes a matrix that is not symmetric), HaarField and EllipticField are not covered.')

prop('C18', 'Evaluations and queries leave what they work on unmodified',
     'Asking is free of side effects. Evaluating a function, kernel, form, shape function, reference map, quadrature rule, covariance or field, assembling and solving, searching, traversing, locating and marking never modify the objects passed in by the caller (points, lists, arrays, dictionaries, meshes, bases, functions), nor do objects modify data they were given at construction and only hold; the same call can be repeated with the same result. Getters, predicates, evaluations and searches do not modify the object they are called on, except for the caches and the scratch state documented in the code (hanging nodes, canonical mean, sample binding of kernels). Functions whose purpose is a modification (marking, refining, setting, adding, constraining) modify their own object and the arguments documented to be updated, nothing else. Default argument values, containers in class bodies and module-level data are never modified, so that independent objects do not influence one another.',
     ['histories', 'inputs'], 'all functions of the library, all arguments, all orders of calls',
     'A test calls a function once with a fresh argument and looks at the result; a sorted, extended, scaled or emptied input, or a shared default, only shows in a later, unrelated call.',
     ['src/assembler.py', 'src/fem.py', 'src/function.py', 'src/mesh.py', 'src/gmrf.py', 'src/solver.py', 'src/spd.py', 'src/plot.py'],
     [('every function', 'src/*.py'), ('queries', 'src/mesh.py get_leaves / get_neighbors / bin_points; src/fem.py get_global_dofs'), ('evaluation', 'src/function.py eval; src/assembler.py Kernel.eval; src/gmrf.py sample')],
     'interprocedural, flow-sensitive effect analysis (which arguments, fields, defaults and globals each function may modify, as a fixed point over the call graph), compared with the set of effects each function is there to have',
     'Covers all functions and call paths of src/. Effects are counted per object, not per field; a function that is meant to modify its object may modify any part of it. New functions are judged through their callers. External functions are trusted to modify only what they document.')

prop('C19', 'Every operation of the interface refers to things that exist',
     'On every path of every function, names that are read are defined, methods and attributes that are used exist on the objects they are used on, functions and constructors (of the library and of the modules it imports) exist and are called with arguments they accept, results that are used are actually returned, keys looked up in literal dictionaries are there, and format strings match their arguments. A supported operation therefore never fails with NameError, UnboundLocalError, AttributeError or a signature TypeError for some combination of options, dimensions or element types.',
     ['inputs'], 'all functions and all branches, including options, dimensions and error branches no test enters',
     'About half of the branches of the library are never entered by its tests; a stale name or a renamed argument in one of them fails only for the user who gets there.',
     ['src/assembler.py', 'src/fem.py', 'src/function.py', 'src/mesh.py', 'src/gmrf.py', 'src/solver.py', 'src/spd.py', 'src/plot.py', 'src/diagnostics.py'],
     [('every reference', 'src/*.py')],
     'name, attribute and call resolution over the syntax tree with class hierarchy, local type inference, reachability and harvested signatures of external modules; definite-unboundness dataflow',
     'Sound reports (a report is a construct that fails whenever it is reached); receivers of unknown type are only checked against the set of all names defined anywhere. Broken unfinished functions of the current tree are listed as known findings.')

prop('C08', 'A submesh behaves like a mesh of its own',
     'A submesh recorded under a label, or obtained from another one by refining or coarsening under a label, is indistinguishable from a mesh refined to that state and no further, however often the mesh is refined, coarsened or recorded afterwards. Its leaves, depths, traversals, balance, boundary segments, boundary vertices, neighbours and (labelled or boundary) regions of cells, edges and vertices are those of that mesh; points are located in the same cells; its degrees of freedom are shared in the same way, sit at the same positions, belong to the same regions and have the same hanging nodes with the same coefficients, whether or not the finest mesh was numbered as well; the matrices, vectors, numbers and Dirichlet corrections assembled on it, and the values, derivatives and interpolants of functions on it, are the same up to the numbering.',
     ['histories', 'inputs'], 'all histories of recording and refining; all geometries, kernels and nodal values; regular, glued, rotated and periodic meshes',
     'Tests use submeshes one feature at a time on the unit square, mostly where the submesh is the finest mesh or the root; a query that drops or mixes the label is right there.',
     ['src/mesh.py', 'src/fem.py', 'src/assembler.py', 'src/function.py'],
     [('leaves and traversal', 'src/mesh.py Forest.get_leaves / Tree.traverse / Forest.record'), ('boundary and regions', 'src/mesh.py Mesh1D/Mesh2D.get_region / get_boundary_segments'), ('numbering', 'src/fem.py DofHandler.distribute_dofs / set_hanging_nodes / get_region_dofs'), ('assembly and evaluation', 'src/assembler.py Assembler.assemble; src/function.py Nodal.eval')],
     'relational abstract interpretation: every operation interpreted on the submesh and on a mesh refined to the same state and no further, over the same unknown geometry, kernels and nodal values, and compared in normal form',
     'Nine base meshes (intervals, boxes, periodic, glued and rotated cells) and ten histories are enumerated; coordinates, kernels and nodal values are unknowns. A label that is wrong in the same way with and without submesh is the business of the other properties.')

prop('C20', 'Plots show the mesh and the function they are given',
     'A mesh plot draws every cell of the chosen submesh once, with its own vertices, on an axis whose limits contain the mesh; each region is drawn with exactly its vertices, edges, half-edges (as arrows from base to head) or cells, each once and in a colour of its own; degrees of freedom are drawn at their positions, labelled with their global numbers, on every cell of the submesh. A line plot is the graph of the chosen sample over all leaves of the function\'s submesh in order, connected where the function is continuous and interrupted between the cells of discontinuous elements. A contour plot shows the values (or the chosen derivative) of the chosen sample at a grid of the requested resolution spanning the mesh. A wire plot follows the sides of every cell at the height of the chosen sample. This holds for interpolated, explicit and constant functions; drawings go to the axis that is given, which is returned, or, in quick view without an axis, to a new figure of the right kind which is shown.',
     ['inputs'], 'all meshes, submeshes, labels, numberings, functions, samples, derivatives and resolutions',
     'Tests only call some plotting functions and look at nothing; a plot of the wrong sample, mesh or label does not fail.',
     ['src/plot.py'],
     [('meshes', 'src/plot.py Plot.mesh / cells / vertices / half_edges / edges'), ('degrees of freedom', 'src/plot.py Plot.dofs'), ('functions', 'src/plot.py Plot.contour / wire / line')],
     'abstract interpretation of the plotting functions with matplotlib replaced by a recording surface; recorded polygons, segments, arrows, texts and values compared with mesh, labels, numbering and function',
     'Eight meshes; coordinates and nodal values are unknowns. Colours only have to differ between regions. Plot.surface is unfinished (see C19) and not covered.')

prop('C21', 'The same computation gives the same result',
     'Building a mesh, refining, balancing and recording it, numbering its degrees of freedom, finding hanging nodes, assembling, constraining, locating points and evaluating functions are reproducible: repeated from scratch with the same inputs and the same order of operations they give the same cells in the same order, the same numbers, constraints, matrix entries and values. Nothing depends on where objects happen to lie in memory (the order in which a set of objects is visited), on what was computed before in the same program, or on other objects of the same class: meshes, elements, rules, functions, numberings, systems, covariances and fields made with default arguments are independent of one another, whether made before or after work is done with the others. Boundary segments start at the same side and run in the same order; the degrees of freedom of a region are listed in ascending order; other regions are sets, whose order is not promised. Random numbers are drawn only by the sampling functions.',
     ['histories', 'schedules', 'inputs'], 'all placements of objects in memory, all earlier computations, all geometries and data',
     'A test runs once, in a fresh process, in the one memory layout it happens to get; an order taken from a set of objects or a value left behind in a shared default shows in another run or after another computation.',
     ['src/mesh.py', 'src/fem.py', 'src/assembler.py', 'src/function.py', 'src/solver.py', 'src/gmrf.py'],
     [('regions and boundary', 'src/mesh.py Mesh2D.get_region / get_boundary_segments'), ('balancing', 'src/mesh.py QuadMesh.balance'), ('numbering', 'src/fem.py DofHandler.distribute_dofs / set_hanging_nodes / get_region_dofs'), ('default arguments', 'src/function.py Explicit.set_rules; src/gmrf.py Covariance.__init__; src/plot.py Plot.line')],
     'relational abstract interpretation: the same computation interpreted under different placements of objects (orders of iteration over sets) and after other computations and compared in normal form; syntactic rules for shared defaults, class attributes, addresses used as keys and random draws',
     'Nine base meshes, four histories and three placements are compared; coordinates, kernels and nodal values are unknowns. Sets of integers are visited in the order python gives them, which does not depend on addresses.')
