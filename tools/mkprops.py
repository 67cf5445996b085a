#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that statements are easy to edit)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, state, mech, observe, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=observe, hook_needed=hook)))

HPS='src/HPSAlgorithm.hpp'; QT='src/Quadtree.hpp'; MESH='src/Mesh.hpp'; FV='src/Patches/FiniteVolume/'
p('C01', 'The hierarchical solve equals the solve of the undivided grid',
  'On a uniformly refined mesh, after the build, upwards and solve stages the cell values on all leaf patches together satisfy, at every cell of the domain, the five-point finite-volume equation of the single undivided grid for the user\'s alpha, beta, lambda, load and Dirichlet data (ghost-cell boundary treatment). Patch boundaries are invisible: how the same grid is cut into patches and levels does not change the solution.',
  ['inputs','configurations'], 'every refinement level, patch size (at least 2 cells a side), rectangular domain, variable coefficient functions, load and boundary data for which the operator is nonsingular',
  'No existing test runs the hierarchical algorithm at all (the traversal routine it needs is not even available to the ordinary build); the quantifier is over all data and refinement depths.',
  [HPS, FV+'FiniteVolumeSolver.cpp', 'src/Matrix.hpp'],
  [('u','leaf cell solution','Patch::vectorU'),('g','Dirichlet trace on a node','Patch::vectorG')],
  [('merge of four children','HPSAlgorithm::merge4to1'),('upwards pass','HPSAlgorithm::upwards4to1'),('split','HPSAlgorithm::split1to4'),('leaf solve','FiniteVolumeSolver::solve')],
  ['leaf vectorU after solveStage'])
p('C02', 'Adaptive solves satisfy the coarse-fine transmission conditions',
  'On an adaptively refined mesh every leaf satisfies its own five-point equations with its boundary trace, the traces of neighbouring patches at an interface describe one function (the fine side being the quadratic/linear interpolation of the coarse side), and the normal derivative seen from the coarse side equals the pairwise average of the one seen from the fine side. In particular, data taken from any linear function is reproduced by the solve to round-off on any mesh.',
  ['inputs','configurations'], 'every refinement pattern and depth, patch size (at least 4 cells a side), rectangular domain, coefficient, load and boundary data',
  'No existing test solves on an adaptive mesh; coarse-fine index arithmetic depends on the refinement pattern, of which there are exponentially many.',
  [HPS,'src/SpecialMatrices.hpp','src/Patch.hpp'],
  [('n_coarsens','how often a node\'s interface data was coarsened','PatchBase::n_coarsens')],
  [('tagging and coarsening','HPSAlgorithm::coarsen_'),('uncoarsening','HPSAlgorithm::uncoarsen_'),('transfer matrices','SpecialMatrices.hpp')],
  ['leaf and branch vectorG, vectorU after solveStage'])
p('C03', 'Mixed boundary conditions hold on every boundary face',
  'When boundary conditions are given as a*u + b*u_n = r per side and point, where u_n is the derivative in the positive coordinate direction, the solution returned satisfies that equation at every boundary face of the domain, with side numbering west, east, south, north and the point passed to the callback being the face midpoint. Directly supplied boundary traces are used unchanged.',
  ['inputs','configurations'], 'every per-face choice of a, b, r (Dirichlet, Neumann, Robin and mixtures) that makes the problem solvable, every mesh and load',
  'No existing test calls the solve stage; sides, signs and faces multiply into many combinations.',
  [HPS], [('g','root boundary trace','Patch::vectorG'),('T,h','root boundary operator and particular data','Patch::matrixT/vectorH')],
  [('boundary solve','HPSAlgorithm::solveStage')], ['root vectorG and leaf vectorU after solveStage'])
p('C04', 'Factor once, solve many: stage histories do not leak into results',
  'After a build, any number of upwards and solve stages, in any order and with any data, give exactly the solution determined by the most recent load and the most recent boundary data; results of earlier solves, earlier loads or earlier boundary types leave no trace. Building again, with changed coefficients or not, is equivalent to starting afresh.',
  ['histories'], 'every sequence of build / upwards / solve calls starting with build, upwards, solve, with every choice of data at each call, on every mesh',
  'A history quantifier: the existing tests never call a second stage.',
  [HPS], [('stage operators','X, S, H, T on every node','Patch'),('stage data','f, h, w, g, u on every node','Patch')],
  [('stages','HPSAlgorithm::buildStage/upwardsStage/solveStage')], ['leaf vectorU after each solveStage'])
p('C05', 'The solution does not depend on the number of processes',
  'For any number of processes not exceeding the number of leaf patches, every stage terminates on all processes and each leaf patch ends with the same solution, load and boundary trace, and each branch with the same operators, as in a one-process run of the same problem. Processes sharing a node hold identical copies of its data.',
  ['schedules','configurations'], 'every process count, refinement pattern and resulting partition, and every stage history',
  'The unit tests run in one process; partitions cut the tree at arbitrary leaves.',
  [HPS,QT,'src/QuadNode.hpp',FV+'FiniteVolumePatch.cpp'],
  [('replicas','copies of a shared node','Quadtree::map')],[('child broadcast','Quadtree::p4est_search_merge_split'),('patch broadcast','FiniteVolumePatch.cpp')],
  ['per-rank node data after each stage'])
p('C06', 'Tree merges and splits never deadlock or mismatch collectives',
  'In a merge, split, traversal or tree construction, all processes sharing a communicator issue the same collective operations on it in the same order with compatible roots, so that every such operation completes under every scheduling of the processes. No process waits on a communicator it is not a member of.',
  ['schedules','configurations'], 'every interleaving of processes, every tree and every contiguous partition of its leaves with no empty process',
  'Schedules cannot be enumerated by running; the existing parallel test programs are not even registered as tests.',
  [QT,'src/QuadNode.hpp','src/MPI.hpp'],[('node communicator','processes owning a node','Node::node_comm')],
  [('per-child agreement on the source and broadcast','Quadtree::p4est_search_merge_split')],['sequence of MPI calls per process'])
p('C07', 'The path-indexed tree contains exactly the mesh\'s leaves and ancestors',
  'The tree has one node per leaf quadrant and per ancestor of a leaf and no others; each node\'s path spells the child positions from the root, its level is the path depth, and the leaf flag is set exactly on leaves. A node\'s rectangle is the quadrant of its parent selected by the last path digit (0 lower-left, 1 lower-right, 2 upper-left, 3 upper-right), so leaf rectangles tile the domain exactly.',
  ['inputs','configurations'],'every forest of one tree (any refinement pattern) over any rectangle, and any node payload type and factory',
  'The repository\'s quadtree test is disabled; shape space is exponential.',
  [QT,'src/P4est.cpp',FV+'FiniteVolumeNodeFactory.cpp','src/QuadNode.hpp'],[('map','path -> node','Quadtree::map')],
  [('construction','Quadtree constructor'),('path','p4est_quadrant_path'),('child geometry','createChildNode')],['Quadtree::map contents'])
p('C08', 'Every node is held by exactly the processes owning its descendants',
  'Each leaf is held by exactly one process; each branch is held by exactly the processes that hold a leaf below it, which form the contiguous range recorded on the node. The communicator stored with a held node contains exactly those processes, in order, and the root is held by all.',
  ['configurations','schedules'],'every process count up to the number of leaves and every contiguous partition',
  'Requires several processes; the unit tests use one.',[QT,'src/MPI.cpp'],
  [('pfirst/plast','owner range','Node'),('node_comm','communicator','Node')],[('ownership test and communicator creation','Quadtree constructor')],['per-rank map and communicator groups'])
p('C09', 'Traversals visit each node once, in pre- or post-order',
  'A pre-order (post-order) traversal calls the visitor exactly once for each node the process holds, every parent before (after) all of its descendants, and siblings with their subtrees in child order 0 to 3. Returning 0 from a pre-order visitor skips exactly that node\'s descendants, and traversal works on any tree at any time, in any sequence of traversals, even when several trees exist or a visitor itself starts a traversal.',
  ['inputs','histories'],'every tree, every visitor result pattern, every sequence of traversals over one or more live trees, including trees that were moved',
  'Existing traversal test is disabled.',[QT],[('visit function','current visitor','Quadtree')],[('search callbacks','Quadtree::p4est_search_visit*')],['visitor call log'])
p('C10', 'Merge and split present each family once, in dependency order',
  'A merge visits every leaf and every branch the process holds exactly once, each branch only after its four children, handing over the branch and its four children in position order with the data they have after their own visits; a split does the same with each branch before its children. What the family visitor writes to the branch or to the children it is given is what later visits of those nodes on their holders see, on every process.',
  ['schedules','configurations','histories'],'every tree, partition and sequence of merges and splits with arbitrary visitor effects that are the same function of the data on every process',
  'Needs data-flow over all trees and partitions; no test calls merge or split.',[QT,'src/QuadNode.hpp'],
  [('node data','payload','Node::data')],[('family visit','Quadtree::p4est_search_merge_split')],['visitor call log with data'])
p('C11', 'Refinement by a criterion yields the minimal balanced mesh',
  'Refining by a criterion produces leaves no coarser than the minimum level, splits a patch above the minimum level exactly when the criterion holds at one of its cell centres and it is below the maximum level, and then adds only the splits needed so that leaves touching at an edge or corner differ by at most one level. Refining the same mesh object again discards the previous mesh, its tree and its cells, entirely (mesh functions stay until cleared).',
  ['inputs','histories'],'every criterion, minimum and maximum level, patch size, rectangle, process count up to the number of leaves, and sequence of refinements',
  'No test refines a mesh.',[MESH],[('quadtree','the mesh tree','Mesh::quadtree'),('ncells','cells recorded','Mesh')],[('refine','Mesh::refineByFunction'),('rebuild','Mesh::setMeshFromQuadtree')],['leaf set and mesh counters'])
p('C12', 'Mesh iteration enumerates every cell once, consistently with functions',
  'Iterating over patches visits each local leaf once in tree order, and iterating over cells visits each cell centre of those patches once, x-index outer and y-index inner. A mesh function added from a formula holds its value for the k-th iterated cell at entry k, and a function assembled patch by patch in iteration order lines up with it; over all processes every cell of the domain occurs exactly once.',
  ['inputs','configurations'],'every mesh, process count up to the number of leaves, and function',
  'No test builds a mesh.',[MESH],[('mesh_functions','cell data vectors','Mesh')],[('iteration','Mesh::iteratePatches/iterateCells/addMeshFunction')],['callback logs and function vectors'])
p('C13', 'VTK output describes exactly the mesh and its functions',
  'Writing a mesh produces one well-formed piece per process and one index naming every piece and every cell array; a piece\'s counts equal the process\'s points and cells, each cell is a quadrilateral joining the four corners of one mesh cell in counter-clockwise order, and every cell array carries one value per cell in iteration order. Writing twice, or writing numbered outputs in sequence, yields correct files each time.',
  ['inputs','histories','configurations'],'every mesh, set of functions (named without XML markup characters), process count up to the number of leaves, file name, and sequence of writes',
  'No test writes a mesh.',['src/VTK.cpp','src/VTK.hpp',MESH,'src/XMLTree.cpp'],[('points, connectivity, offsets, types','cell geometry','Mesh')],[('writer','PUnstructuredGridVTK::toVTK'),('cell arrays','Mesh::setMeshFromQuadtree')],['written .vtu/.pvtu files'])
p('C14', 'Patch grids and node creation preserve geometry',
  'A patch grid places cell centres uniformly, half a cell from its bounds, in both directions and reports the spacing and bounds it was built with. Creating the four children of a node and then the parent of those children returns the original rectangle, cell counts, path and level, and each child has the parent\'s cell counts on its own quarter.',
  ['inputs'],'every rectangle, cell counts, path, level and child position',
  'Tests probe one grid and one root node.',[FV+'FiniteVolumeGrid.cpp',FV+'FiniteVolumeNodeFactory.cpp','src/PatchGrid.hpp'],[('grid','bounds and counts','FiniteVolumeGrid')],[('points','FiniteVolumeGrid::point'),('child/parent','FiniteVolumeNodeFactory')],['grid accessors, node fields'])
p('C15', 'The leaf solver solves the five-point finite-volume equations',
  'For a patch grid, coefficient functions, load and Dirichlet data ordered west, east, south, north, the leaf solver returns cell values (y index fastest) satisfying alpha*div(beta grad u)+lambda*u=f in five-point form, with beta taken at cell faces and boundary values imposed half-way between the boundary cell and its ghost. Inputs are not modified and calls are independent of one another.',
  ['inputs','histories'],'every square-count patch size, rectangle (any aspect ratio), coefficient functions, load and boundary data with a nonsingular operator; both back ends within their documented coefficient range',
  'The one numeric test needs an external library that is absent; the other is commented out.',[FV+'FiniteVolumeSolver.cpp'],[('alpha, beta, lambda','coefficients','FiniteVolumeSolver')],[('assembly','FiniteVolumeSolver::solve')],['returned vector'])
p('C16', 'The leaf boundary operator is the exact Dirichlet-to-Neumann map',
  'For every boundary trace g and load f, the leaf\'s Neumann data computed directly equals the leaf boundary operator applied to g plus the particular Neumann data of f, each entry being the one-sided difference between boundary cell and boundary face, taken in the positive coordinate direction over half a cell. Constant traces with no load and no zeroth-order term give zero.',
  ['inputs'],'every patch size, rectangle, coefficients, g and f',
  'No test builds a boundary operator.',[FV+'FiniteVolumeSolver.cpp'],[('T','boundary operator','matrixT'),('h','particular data','vectorH')],[('map','FiniteVolumeSolver::mapD2N/buildD2N/particularNeumannData')],['returned vectors and matrices'])
p('C17', 'Merging four patches eliminates exactly their shared interfaces',
  'For any four sibling patches with any boundary operators and particular data (of equal size, or one of them twice or more the size of another), the merged solution operator gives interface traces making the derivatives from both sides of each of the four interfaces equal, the merged boundary operator and particular data give the derivative on the outer boundary under those traces, ordered west, east, south, north with children in coordinate order, and splitting hands each child the trace of its own four sides.',
  ['inputs'],'every choice of child operators for which the interface system is nonsingular, every side length, every outer trace and particular data, every pattern of sizes among the four children',
  'Index sets, signs and permutations interact; no test calls merge.',[HPS,'src/Matrix.hpp'],[('X,S,H,T','merged operators','Patch'),('w,h','merged particular data','Patch')],[('merge','HPSAlgorithm::merge4to1'),('upwards','upwards4to1'),('split','split1to4')],['parent operators, children\'s traces'])
p('C18', 'Structured matrices have their defining action',
  'Identity and diagonal matrices scale entrywise; the fine-to-coarse matrix maps a fine side to pairwise averages; the coarse-to-fine matrix reproduces every linear function at fine positions exactly, is mirror-symmetric, uses 3/4-1/4 weights in the interior and a quadratic three-point rule at the two end points. Block-diagonal assembly places the blocks, of any shapes, in order and zeros elsewhere.',
  ['inputs'],'every size (coarse sides of at least 3) and every block list','Only one block-diagonal example is tested.',['src/SpecialMatrices.hpp','src/Matrix.hpp'],[],[('constructors','SpecialMatrices.hpp')],['matrix entries'])
p('C19', 'Vectors behave as mathematical sequences with value semantics',
  'Every vector operation (construction, copying, element, range, segment and index-set access, appending, concatenation, block permutation, arithmetic, norms) returns exactly the mathematically defined result for every size, including empty operands where meaningful, and changes nothing but its target. Indices at or beyond the size, and operands of mismatched size, are rejected with an exception that leaves all operands as they were.',
  ['inputs','histories'],'every sequence of operations on vectors of any size and content','The one vector test checks construction and copying of length-4 vectors.',['src/Vector.hpp'],[('data','entries','Vector')],[('operations','Vector.hpp')],['results, operands and exceptions'])
p('C20', 'Matrix element, block and permutation operations are exact',
  'Reading or writing elements, rows, columns, ranges, index sets and blocks, transposing and block-permuting address exactly the intended (row, column) positions of a matrix of any shape, with repeated or reordered indices allowed, and leave all other entries alone. Out-of-range rows, columns or blocks and mismatched sizes are rejected with an exception that leaves the operands as they were; copies are independent.',
  ['inputs','histories'],'every sequence of operations on matrices of any shape','Tests use one shape per operation and never an error case.',['src/Matrix.hpp'],[('data','row-major entries','Matrix')],[('access','Matrix.hpp')],['results, operands and exceptions'])
p('C21', 'Matrix arithmetic and linear solves satisfy their defining equations',
  'Sums, differences, negation, scaling, matrix-vector and matrix-matrix products of any conforming (also non-square) shapes equal the textbook definition, a linear solve with a nonsingular matrix returns the X with A X = B for vector and matrix right-hand sides, and norms are the maximum absolute entry difference. Operands are not modified except by assigning forms, and non-conforming shapes are rejected.',
  ['inputs','histories'],'every sequence of operations on matrices and vectors of any conforming or non-conforming shape','Tests use one example each.',['src/Matrix.hpp','src/Vector.hpp'],[('data','row-major entries','Matrix')],[('BLAS/LAPACK calls','Matrix.hpp')],['results, operands and exceptions'])
p('C22', 'Message transfers deliver values exactly',
  'Sending to and receiving from a named process under a named tag a scalar, string, standard vector, vector or matrix (or a tree node of one), broadcasting any of these or a grid, a patch or a patch\'s node, and gathering or reducing numbers and number vectors delivers to each receiver exactly the sender\'s value (the combined value), whatever the size (including empty) and whatever the receiver held before, and leaves the sender\'s value unchanged. Transfers in succession on one communicator, or under way at once under different tags, do not interfere with one another.',
  ['inputs','histories','schedules'],'every value and size of each type, every root and process count, every sequence of transfers',
  'The parallel test programs are not registered as tests and print rather than check.',['src/MPI.hpp','src/MPI.cpp','src/Vector.hpp','src/Matrix.hpp','src/QuadNode.hpp',FV+'FiniteVolumePatch.cpp',FV+'FiniteVolumeGrid.cpp'],[],[('wrappers','MPI.hpp')],['receiver and sender values'])
p('C23', 'Options from code, command line and INI file are stored faithfully',
  'Each option given by the program, on the command line or in an INI section is stored under its exact name with its exact value and the type its text denotes (integer, floating point, text, or flag; short command-line options -name=value are text), later settings replace earlier ones, comments, blank space and other sections of the file contribute nothing, and options not mentioned are left alone.',
  ['inputs','histories'],'every sequence of settings, command lines and INI files','No test parses anything.',['src/Options.cpp','src/Options.hpp','src/InputParser.cpp'],[('options','name -> value','Options')],[('parsers','Options.cpp, InputParser.cpp')],['option map'])
p('C24', 'Caches, timers and the application object keep their bookkeeping',
  'A keyed cache returns the last value stored under a key and reports presence exactly for stored keys; a timer accumulates the durations of its start/stop intervals (each stop following a start of its own), and nothing else, until restarted; the application object handed out is the one the program created, a single object asked for by several threads at once is made once, and adding a timer yields a zeroed one.',
  ['histories'],'every sequence of operations','Tests check two insertions.',['src/DataCache.hpp','src/Timer.cpp','src/EllipticForestApp.cpp','src/GenericSingleton.hpp'],[('map','stored values','DataCache'),('accumulated','time','Timer')],[('operations','DataCache, Timer, GenericSingleton')],['return values'])
p('C25', 'XML trees are written completely, in order and well nested',
  'Writing an XML tree yields a document in which every node appears once, as a start tag with all its attributes in insertion order (reserved characters in their values replaced by entities), its text, its children in insertion order indented two spaces per depth, and a matching end tag. Writing does not change the tree and depends on nothing written before.',
  ['inputs','histories'],'every tree of nodes, attributes and text free of XML markup characters','One three-node example is tested.',['src/XMLTree.cpp','src/XMLTree.hpp'],[('children, attributes','tree','XMLNode')],[('writer','XMLTree::write')],['file contents'])
p('C26', 'Piecewise-linear interpolation is correct and history-free',
  'For strictly monotone (ascending or descending) sample points, evaluating the interpolant at any x gives the value on the straight line through the two samples bracketing x (the end segments extended outside the range), (up to rounding) the sample value at a sample point, independently of which points were evaluated before.',
  ['inputs','histories'],'every set of at least two strictly monotone samples and every sequence of queries','One ascending six-point table is tested against a loose tolerance.',['src/Interpolation.cpp','src/Interpolation.hpp'],[('jsav, cor','search hints','InterpolantBase')],[('search','InterpolantBase::locate_/hunt_')],['returned values'])
p('C27', 'Distributed vectors and matrices agree with their serial counterparts',
  'A distributed vector or matrix created with given sizes, built from serial data, or filled by entries or blocks from any process (inserting or adding) holds, once assembled, on each process exactly its contiguous share of the specified global entries: an even split unless local sizes are given. The sizes it reports and the entries read back are those; scaling and adding such objects and multiplying a vector by a matrix gives the serial result for every process count. A copy refers to the same entries and stays usable whatever becomes of the other; identities, index-set parts of a matrix, and the pieces of several matrices brought together on a larger communicator have the entries they should.',
  ['inputs','configurations','histories'],'every global size, process count and sequence of operations','The parallel programs are not registered as tests.',['src/Vector.hpp','src/Matrix.hpp','src/SpecialMatrices.hpp'],[('vec, mat','PETSc objects','ParallelVector, ParallelMatrix')],[('wrappers','Vector.hpp, Matrix.hpp')],['entries read back'])
p('C28', 'Work-saving options do not change the answer',
  'With constant coefficients, reusing leaf boundary operators gives the same solution as building each one, on every mesh. When the load is zero, declaring it zero gives the same solution as computing with it, in any sequence of solves and with or without the upwards stage.',
  ['configurations','histories','inputs'],'every mesh (also adaptive), process count, boundary data and stage history','No test runs the algorithm.',[HPS],[('options','cache-operators, homogeneous-rhs','app options'),('matrixCache','cached leaf operator','HPSAlgorithm')],[('leaf callback','HPSAlgorithm::buildStage'),('skips','upwards4to1, applyS_, leafSolve')],['leaf vectorU'])
p('C29', 'Trees, meshes and solves live on the communicator they are given',
  'A tree, mesh or solver created with a communicator involves exactly the processes of that communicator, known by their ranks in it: everything guaranteed for trees, traversals, meshes, solves and output files on all processes of a program holds in the same way on any subset of them, in any order. Processes outside are neither waited for nor affected, and disjoint groups of processes can do this at the same time without interfering.',
  ['configurations','schedules','histories'],'every way of forming disjoint ordered groups of the processes of a program, every tree, mesh and distribution on each','Every test runs on all processes (that is, on one).',['src/Quadtree.hpp','src/Mesh.hpp','src/HPSAlgorithm.hpp','src/VTK.cpp','src/MPI.cpp','src/P4est.cpp'],[('p4est->mpicomm, node_comm','communicators of forest and nodes','Quadtree, Node'),('comm_','communicator of an object','MPIObject')],[('construction','Quadtree(comm, ...), Mesh(comm, ...), HPSAlgorithm(comm, ...)'),('refinement','Mesh::refineByFunction'),('traversals and stages','Quadtree, HPSAlgorithm'),('output','Mesh::toVTK')],['what visitors see','leaf solutions','files','MPI operations posted'])
p('C30', 'Repeated work does not use up memory, communicators or files',
  'Doing the same work again on the objects at hand (the stages of a solve, traversals, merges and splits, refining again, iterating, mesh functions added and cleared, output, leaf solves, transfers, serial and distributed algebra, creating and deleting nodes, options, timers and caches) leaves each process holding no more memory, communicators or open files than after the first few times, for any number of repetitions, any mix of such work and any number of processes.',
  ['histories','configurations'],'every sequence of work repeated any number of times, every mesh, distribution and process count','Tests do everything once and end; what a process holds is never looked at.',['src/Quadtree.hpp','src/Mesh.hpp','src/HPSAlgorithm.hpp','src/VTK.cpp','src/Patches/FiniteVolume/FiniteVolumeSolver.cpp','src/MPI.hpp','src/Vector.hpp','src/Matrix.hpp'],[('map, node_comm, p4est','nodes, their communicators, the forest','Quadtree, Node, Mesh'),('index sets, PETSc objects','temporary objects of a leaf solve','FiniteVolumeSolver'),('mesh functions, data arrays','objects of an output','Mesh, VTK')],[('work','every public operation')],['memory, communicators and descriptors held'])
p('C31', 'Messages and listings show exactly what they are given',
  'A logged message appears once, on the process that logs it (messages for the head only on process 0), as "[EllipticForest <rank>] ", the message with its values put in as printf would, and a line end. A listing of options has one line "[EllipticForest]   <name> : <value>" per option in order of name with its latest value; at its end the application lists every timer ever added once in this way, on process 0 alone. Vectors and matrices are written with their sizes and every entry in order (four digits, twelve places, eight vector entries or one matrix row a line); nodes with path, level and processes; patches with their grid and the sizes of all data, whose sum in bytes (plus 17) is the data size reported.',
  ['inputs','histories'],'every text, value, size, history of options and timers and process count','No test reads what is printed.',['src/Logger.hpp','src/EllipticForestApp.cpp','src/Options.cpp','src/Vector.hpp','src/Matrix.hpp','src/QuadNode.hpp','src/Patches/FiniteVolume/FiniteVolumePatch.cpp'],[('optionsMap, timers','options and timers','Options, EllipticForestApp')],[('printing','Logger, operator<<, str')],['text printed'])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for r in P: f.write(json.dumps(r) + '\n')
print(len(P))
