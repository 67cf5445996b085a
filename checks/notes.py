ADT = ('TLA+ abstract data type; TLC explores it exhaustively and every transition is replayed on the real class; '
       'executions of the real class are validated in lockstep by TLC')
NOTES = {
    'C19': (ADT, 'Exhaustive for vectors up to length 2 (3 in the thorough tier) over 2-3 values, all operations, Vector<double> and Vector<int>; '
                 'plus random operation sequences up to size 60, in units of powers of two. Entries are integers; floating-point rounding is not decided.'),
    'C20': (ADT, 'Exhaustive for all shapes up to 2x2 (3x3 thorough) with all-distinct entries and all index arguments up to one past the end; '
                 'plus random sequences on shapes up to 12x12.'),
    'C21': (ADT, 'Exhaustive for all shapes up to 2x2 over 2-3 values; random sequences with rectangular shapes up to 8x8; solves are checked '
                 'against A X = B on integer systems that need row exchanges. Rounding is not decided.'),
}
PROTO = ('TLA+ specification of the distributed tree (structure, ownership, communicator protocol) explored by TLC over all trees, partitions and '
         'interleavings in bounds; traces of the real code on 1-6 processes validated by TLC against it')
NOTES.update({
    'C06': (PROTO, 'Protocol model: all interleavings for all trees and contiguous partitions in bounds (quick up to 2 branches / 3 processes). '
                   'Real MPI operation sequences of tree construction, traversal, merge, split and HPS stages are checked for completion under every schedule '
                   'by a rendezvous semantics in which every collective synchronises. p4est-internal communication is not modelled.'),
    'C07': (PROTO, 'Real trees: exhaustive over small shapes plus random shapes up to level 6 and single paths to level 18, up to 11 processes; geometry in exact 1/256 units.'),
    'C08': (PROTO, 'Real trees on 1-11 processes with forced partitions (all small ones, random larger ones).'),
    'C09': (PROTO, 'Random sequences of traversals over up to four live trees, moved and assigned trees, arbitrary pruning sets, visitors returning any value and starting traversals themselves.'),
    'C10': (PROTO, 'Symbolic data (provenance hashes) flow through merges and splits; every visitor argument is compared with the specification.'),
})
HPS = ('TLA+ specification of the solution an HPS solve must deliver (five-point equations, interface conditions, boundary conditions, stage histories) in integers; '
       'TLC enumerates the stage histories and validates every execution of the real stages against the specification')
NOTES.update({
    'C01': (HPS, 'Uniform meshes, 2-16 cells a patch side, levels 0-3 (4 thorough), scattered variable coefficients, on 1-3 processes; 5 or more significant digits.'),
    'C02': (HPS, 'All small adaptive shapes plus random ones up to level 3 (also unbalanced ones), variable coefficients; 5 or more significant digits.'),
    'C03': (HPS, 'Random per-face mixtures of Dirichlet, Neumann and Robin data on uniform and adaptive meshes; 5 or more significant digits.'),
    'C04': (HPS, 'Histories of 6 (7) stages from the model, chosen so that every three (four) events before a last solve occur in order, replayed on adaptive meshes; long random histories over three live problems; meshes refined again.'),
    'C05': (HPS, 'The same stage scripts on one and on 2-11 processes, solutions and operators compared by TLC in fixed-point numbers.'),
    'C28': (HPS, 'Histories with the options toggled, on uniform and adaptive meshes with constant coefficients; cached operators on trees of up to 7 (8) levels.'),
})
LEAF = ('TLA+ specification of the leaf equations / family of four / geometry in integer arithmetic; TLC validates every recorded call of the real code '
        'against it and generates the matrices the code must build')
NOTES.update({
    'C14': (LEAF, 'Random rectangles (also extreme aspect ratios), counts 1-40 and negative origins; every path up to depth 8; child-then-parent histories.'),
    'C15': (LEAF, 'Patch sides 2-12, three coefficient classes on both back ends, aspect ratios 1/3-3, h = 2^-e; sequences of calls on shared solvers. '
                  'FISHPACK itself is a stand-in (harness/shim.cpp): what is decided is how the code calls it.'),
    'C16': (LEAF, 'Same scripts as C15; boundary operator, particular data and directly computed derivatives compared in fixed point.'),
    'C17': (LEAF, 'Families of random (also nonsymmetric) integer child operators, sides 1-6, all size patterns; upwards and split repeated on the same family.'),
    'C18': (LEAF, 'All sizes up to 12 (32 thorough) and some up to 130 (256) generated by TLC and compared entry by entry, laws checked by TLC; random block lists with empty and oblong blocks.'),
})
MESH = ('TLA+ specification of refinement and balancing, checked by TLC to be the unique result of every order of splits; TLA+ specification of meshes, '
        'iteration and output files, against which TLC validates every recorded call of the real code and the contents of every file written')
NOTES.update({
    'C11': (MESH, 'Model: every starting mesh up to level 2, families up to level 4 (5 thorough). Real code: random criteria given as sets of cells, levels 0-6, 1-5 and 12 processes, patches of nx x ny cells, repeated refinement of one mesh object.'),
    'C12': (MESH, 'Random meshes (refined by a criterion or given), 1-4 and 11 processes, sequences of iterations and mesh functions; positions and values exact.'),
    'C13': (MESH, 'Every file ever written is re-read after every writing call: parallel, serial and rectilinear writers, repeated and interleaved writes, names in '
                  'directories, with percent signs and long ones. Points and values are compared in units of powers of two, so every digit written counts.'),
})
NOTES['C22'] = ('TLA+ model of message transfers over ordered channels (value split into messages under one tag), checked by TLC; TLC validates the merged logs of random '
    'scripts of real transfers against the specification', 'All schedules of the model for 2-3 (4) processes; real transfers of 28 types on 1-5 and 11 processes, several under way at a time, memory-checked build.')
UTIL = 'TLA+ specification of %s; TLC validates every recorded call of the real code (enumerated small inputs and random histories, memory-checked build) against it%s'
NOTES.update({
    'C23': (UTIL % ('what a text denotes and what files and arguments contribute', ''), 'Every text up to length 5 (7) over small alphabets, every file of up to 3 (4) lines of 12 (14) kinds, random histories, and the arguments of real programs.'),
    'C24': (UTIL % ('caches, timers over a virtual clock and the single object', '; TLC checks the model of its concurrent creation'), 'Random histories; single objects first asked for by up to 16 threads at once.'),
    'C25': (UTIL % ('XML trees and the documents written from them', ''), 'Every tree shape up to 6 (8) nodes and random trees, also shared subtrees and repeated writing; documents compared character by character.'),
    'C26': (UTIL % ('straight-line interpolation', '; TLC checks the search with memory for every remembered place'), 'Every pair of successive queries on small tables, random tables up to 100 samples, both directions; integers, compared exactly.'),
})
NOTES['C27'] = ('TLA+ specification of distributed objects by their global entries and shares; TLC validates the merged logs of random histories of the real wrappers against it',
    'Random histories on 1-5 and 11 processes and sub-communicators, sizes 0-12, even and uneven shares, dense and sparse, memory-checked build; read back entry by entry on every process.')
NOTES['C29'] = ('TLA+ model of trees on disjoint ordered groups of processes, checked by TLC over all ways of forming them and all interleavings; TLC validates the runs of every group '
    'against the tree, mesh and solve specifications and the operations posted by all processes together against the communication specification',
    'Every way of forming groups of 3 processes (from the model), random ones of 4-6 (8); tree, mesh, output and solve scripts, a different one for every group.')
NOTES['C30'] = ('TLA+ model of work done round after round and of what observations say about it, checked by TLC; its scripts, refined to calls of the code, are done again and again by the real code '
    'and TLC judges what every process holds after each round', 'All scripts of the model up to 2 (3) works and random long ones, every kind of work alone, 38 rounds (68 when suspicious) on 1-4 processes.')
NOTES['C31'] = ('TLA+ specification of the text of every message and listing for the options and timers so far; TLC compares with it what the real code prints in random histories',
    'Random histories on 1-4 processes, memory-checked build; texts compared character by character (numbers with at most four digits after scaling by four, times left open).')
