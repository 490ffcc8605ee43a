"""Source of properties.jsonl and MANIFEST.json (run: python3 tools/gen.py)."""
import re
P = []


def prop(id, title, statement, over, text, why, files, mech, technique=None, note=None, na=None, state=None,
         observe=None):
    d = {'id': id, 'title': title, 'statement': re.sub(r'\s+', ' ', statement).strip(),
         'quantifier': {'over': over, 'text': text}, 'why_tests_cant': re.sub(r'\s+', ' ', why).strip(),
         'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}}
    if state:
        d['anchors']['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    if observe:
        d['anchors']['observe_at'] = observe
    P.append((d, technique, note and re.sub(r'\s+', ' ', note).strip(), na and re.sub(r'\s+', ' ', na).strip()))


prop('C01', 'Same input, options and seed give the same result',
     '''A run of any program or library routine is a function of its input files, its arguments and the seed: nothing
     else (time, process identity, environment, another random source, the addresses at which objects happen to be
     allocated, or anything left over from an earlier call) influences a decision or an output. Every random decision
     is drawn from the one generator the caller passed in, and each program seeds that generator exactly once, with the
     unmodified seed the user gave, before the generator is used.''',
     ['inputs', 'histories', 'configurations'],
     'all inputs, option sets, seeds, memory layouts and sequences of calls in one process',
     '''Two equal runs in one environment agree even when a dependence on time or addresses exists; the tests compare a
     handful of seeded results and never vary layout, clock or call history.''',
     ['src/', 'netcarto/', 'utils/', 'reliability/', 'recommender/'],
     [('gsl_rng passed as an argument to every stochastic routine', 'src/*.c'),
      ('gsl_rng_set(rand_gen, seed)', 'every main program')],
     'who-may-call rule, no-mutable-global rule, pointer-value taint and seed-provenance dataflow over LLVM IR',
     '''Covers every function of the library and the 21 programs. Decides dependence on forbidden sources, on pointer
     values, on state that outlives a call, and the provenance of the seed; trusts libc/GSL calls outside the forbidden
     list to be functions of their arguments and stream state. Reads of locals that were never set are decided by C02.''')

prop('C02', 'No decision or result rests on a value that was never set',
     '''Whatever a routine or program reads from its own variables has been set before, on every path its control flow can
     take: for empty, complete or disconnected networks, when a search finds nothing, when an option is not given, and in
     every branch of every switch.''',
     ['inputs', 'configurations'],
     'all inputs, option sets and paths of every routine and program',
     '''What an unset variable holds depends on what happened to be on the stack, so a run that happens to find a zero there
     passes; the compiler warns only about some of these reads and the build ignores its warnings.''',
     ['src/', 'netcarto/', 'utils/', 'reliability/', 'recommender/', 'multiblock/', 'only_deg/', 'conflict/'],
     [('every scalar and pointer local', 'all sources'), ('best-pair and free-slot searches', 'src/missing.c, src/sannealing.c, src/layout.c'),
      ('option parsing', 'netcarto/')],
     'must-set-before-use dataflow, path-sensitive in flags, constants and loop counters',
     '''All locals of all functions of the library and the programs, before any optimisation. A loop that looks for a number
     or slot and sets it conditionally is taken to find it; a search for an object that goes through all candidates is not. A
     call given the address of a local is taken to set it. Cells of arrays and heap objects are not followed.''')

prop('C03', 'Library calls release what they allocate for themselves',
     '''Whatever a library routine allocates for its own use (memory, lists, copies of networks and partitions, lookup
     tables, open files, numerical work space) is released, with the release operation that matches it, before the
     routine returns, on every return path including early and error returns; what it does not release it hands to the
     caller or to a structure the caller owns. Releasing a network, partition, list or other composite object releases
     every part it owns, and an element taken out of a list is released.''',
     ['inputs', 'histories', 'fault_sequences'],
     'all inputs, including malformed ones, and all return paths of every routine',
     '''The tests never look at memory; early and error returns of most routines are not executed by them.''',
     ['src/'], [('Free*/Remove* destructors', 'src/graph.c, src/modules.c, src/bipartite.c, src/tools.c')],
     'ownership typestate over all paths with interprocedural summaries',
     '''Every allocation site of the library is followed on every control-flow path to a return with the set of names
     holding the object; path-insensitive only in data conditions that are not provably stable. An object stored into
     reachable memory counts as handed over. Programs (main functions) are not covered.''')

prop('C04', 'Nothing is used after it has been released',
     '''Once a routine has released an object (memory, a network, a partition, a list element, a file), neither that
     routine nor its caller reads, writes, closes, returns or releases it again on any path. A routine other than a
     destructor does not release an object its caller passed in.''',
     ['inputs', 'histories'],
     'all paths of every routine and program, all histories of list insertions and removals',
     '''A stale read usually returns the old bytes, so a passing test shows nothing; the removal loops are not covered
     by the tests at all.''',
     ['src/', 'netcarto/', 'utils/', 'reliability/', 'recommender/'],
     [('Free*/Remove* destructors', 'src/'), ('predecessor-cursor idiom around RemoveLink', 'src/graph.c, src/modules.c, src/bipartite.c')],
     'released-object dataflow from every release site, who-may-release-an-argument rule',
     '''All release sites of the library and programs, followed over the whole control-flow graph of the function;
     includes aliases through phis, slots, casts, re-loads of the same unclobbered field and parts owned by a deeply
     released object, and cursors on a list element removed by a callee. Pointers parked in arrays are not followed.''')

prop('C05', 'Text of any length stays inside its buffers',
     '''Whatever the length of a label, a line, a field of a network, partition, query or rating file, or of a file name given
     on the command line, what is read, copied or composed stays inside the memory set aside for it. Every reading or writing
     format agrees in number and type with its arguments, and arrays of fixed size are only used within their size, however
     many nodes, components, modules or roles there are.''',
     ['inputs'],
     'all files, labels, command lines and networks',
     '''Short labels never reach the end of a buffer, and an overrun by a few bytes usually shows nowhere; the tests use only
     short names and small networks.''',
     ['src/', 'netcarto/', 'utils/', 'multiblock/', 'only_deg/'],
     [('sscanf/fscanf/getline readers', 'src/graph.c, src/bipartite.c, src/io.c, src/modules.c, src/recommend.c'),
      ('label buffers (MAX_LABEL_LENGTH)', 'src/graph.c, src/modules.c, src/models.c'),
      ('output file names', 'multiblock/, only_deg/'), ('arrays of fixed size', 'src/modules.c, src/graph.c, utils/main_netprop.c')],
     'buffer-capacity analysis (interprocedural), format/argument types, intervals of indices',
     '''Every text-writing call and every conversion of every format of the library and the programs; capacities follow
     arrays, constant or strlen-sized allocations, all allocations of a field, and parameters through all their callers. An
     index that is itself kept in an object is not decided. Labels handed in by outside callers of the library are assumed
     shorter than MAX_LABEL_LENGTH.''')

prop('C06', 'What is missing is noticed before it is used',
     '''A command-line argument that was not given, a file that cannot be opened, a network, rating, query or partition file
     that cannot be read, a line with a field too few, a name that is not found and the end of a list are each noticed before
     anything is done with the missing value. Programs and library routines then stop, report failure or do without it; none of them crashes on
     it or goes on with a leftover value.''',
     ['inputs', 'fault_sequences'],
     'all command lines, all unreadable, truncated or malformed files',
     '''The tests only call the routines with files that exist and are complete.''',
     ['src/', 'netcarto/', 'utils/', 'multiblock/', 'only_deg/', 'recommender/', 'reliability/', 'conflict/'],
     [('argument counts and files in the programs', 'netcarto/, utils/, multiblock/, only_deg/, recommender/, reliability/, conflict/'),
      ('readers of networks and queries', 'src/graph.c, src/bipartite.c, src/recommend.c'),
      ('readers of partitions', 'src/modules.c, src/io.c'), ('result files', 'src/modules.c, src/graph.c, src/bipartite.c, src/missing.c')],
     'missing-value path walk over the control-flow graph with interprocedural needs and may-be-missing summaries',
     '''Every fopen, search of names, conversion and reader of the library and the programs, and each argv position against
     argc, and every pointer the code itself tests for being missing. Values parked in objects or arrays are not followed; memory is assumed to be available.''')

prop('C07', 'Routines change only the data they are meant to change',
     '''Routines that measure, compare, print, score, project or copy a network or partition leave it, and every other
     object passed to them, unchanged: nodes, labels, links, weights, coordinates, group assignments, group contents and
     group totals (traversal marks and the cached degree and strength are scratch and exempt). Sampling and optimisation
     routines change only group assignments and group contents, and editing routines change only the fields their job
     names; in particular nothing but the link-editing routines changes links or weights.''',
     ['inputs', 'histories'],
     'all networks and partitions, all routines of the library, all sequences of calls',
     '''A test compares the result of a routine, not the whole of its arguments afterwards, and no test can show that
     no input makes it change them.''',
     ['src/'],
     [('measures and output routines', 'src/graph.c, src/modules.c, src/bipartite.c'),
      ('samplers', 'src/missing.c, src/multiblock.c, src/only_deg.c, src/sparse_missing.c, src/recommend.c, src/sannealing.c'),
      ('editing routines', 'src/graph.c, src/modules.c, src/partition.c')],
     'interprocedural write-effect (mod-set) inclusion in a reviewed table',
     '''336 library functions; written addresses are traced to the argument, fresh object or reference they come from.
     Says which fields may change, not that the values written are right (C08-C13), and does not cover changes to plain
     numeric arrays passed in as work space.''')

SPECNOTE = ''' Decided by equality of normal forms with an independent reference definition: any difference in the value
returned, in a location changed, or in a call with an effect is reported; routines that cannot be brought into closed form
are listed in the evidence as not decided. Rounding and overflow are ignored.'''
SPECTECH = 'value numbering: gated-sum normal form of the compiled routine compared with that of a reference definition'

prop('C10', 'Group membership and group totals stay exact under every change',
     '''Creating a group, adding, removing and moving a node, mapping a partition onto a network and resetting it leave
     the members, the size, the number of links inside, leaving and touching the group (each link counted once) and the
     corresponding weights equal to what they are by definition, and the group label of each node equal to that of the
     group it is in; a removal of an absent node changes nothing and says so. Counting groups, nodes, links and weights
     of or between groups, and finding a group by label or an empty one, returns what the definition says (a link
     inside one group is counted once, not twice). Merging, copying, compacting, splitting evenly, cutting the links
     within or between groups, turning a group into a network, splitting it by annealing or along its clusters, and reading and printing a
     partition do exactly that for every partition, the last group and empty groups included.''',
     ['inputs', 'histories'],
     'all networks, partitions, group sizes (including empty groups) and sequences of additions, removals and moves',
     '''The totals are updated incrementally; an error in one branch shows only after particular sequences of moves, and
     the existing tests look at a handful of final modularities.''',
     ['src/modules.c'],
     [('AddNodeToGroup, RemoveNodeFromGroup, MoveNode (and Fast/Soft variants)', 'src/modules.c'),
      ('MapPartToNet, MapPartToNetFast, ResetNetGroup', 'src/modules.c'),
      ('NLinksToGroup, NG2GLinks, StrengthToGroup and variants; GetGroup, GetEmptyGroup, counts', 'src/modules.c')],
     SPECTECH, SPECNOTE)

prop('C11', 'Partition quality and node roles follow their published definitions',
     '''Modularity and weighted modularity, normalised mutual information and the fraction of correctly classified nodes,
     the participation coefficient and within-module z-score (unweighted and weighted, including nodes without links and
     modules without spread), and the assignment of nodes to the seven roles with their published thresholds, return for
     every network and partition the value given by their definitions.''',
     ['inputs'],
     'all networks, weights and partitions, including empty groups, isolated nodes and uniform modules',
     '''Tests compare a few values on one or two small networks; wrong normalisation, a wrong threshold or a mishandled
     empty group goes unnoticed there.''',
     ['src/modules.c', 'src/partition.c'],
     [('Modularity, ModularityWeight, MutualInformation, CorrectlyClassified', 'src/modules.c'),
      ('ParticipationCoefficient, WithinModuleRelativeDegree and weighted variants, CatalogRoleIdent', 'src/modules.c'),
      ('GetRole', 'src/partition.c')],
     SPECTECH, SPECNOTE)

prop('C08', 'Building, copying and editing a network does exactly what is asked',
     '''Creating nodes and links, copying, merging and renumbering networks, adding, removing and cleaning links and
     nodes, and randomising links produce exactly the nodes, links, weights and numbers their definition gives: a link is
     stored once per direction (or repeated links add their weights when asked), both directions carry the same weight,
     a removed link or node disappears together with every reference to it, and a copy has the same nodes, numbers, links
     and weights as the original. Looking up nodes and links by label, number or pair, counting nodes, links, degrees
     and strengths, and printing degrees, links and the exchange format return or print what is in the network; reading
     a list of links builds exactly the network it describes.''',
     ['inputs', 'histories'],
     'all networks, directed or symmetric, with self-loops, repeated and weighted links, and all sequences of edits',
     '''The lists are edited by pointer surgery at the head, in the middle and at the end; the tests build a few small
     networks and never remove or copy links in most of these positions.''',
     ['src/graph.c'],
     [('AddAdjacency, AddAdjacencySoft, RewireAdjacency*, CopyNetwork, AddTwoNetworks', 'src/graph.c'),
      ('RemoveLink, RemoveIsolatedNodes, CleanAdjacencies, ClearAdjacencies, AddRandomLinks, RandomizeSymmetricNetwork', 'src/graph.c'),
      ('GetNode, GetLink, IsThereLink, NodeDegree, NodeStrength, TotalNLinks', 'src/graph.c')],
     SPECTECH, SPECNOTE)

prop('C09', 'Network measures follow their definitions',
     '''Breadth-first search, connectedness, average path length and inverse distance, clustering coefficients (average,
     total, of one node, and square clustering), betweenness of nodes and links, assortativity, nearest-neighbour degree,
     average and mean squared degree, number of common neighbours, Jaccard index, topological overlap and the overlap of
     two networks return for every network the value their definition gives, with the documented value for isolated
     nodes, nodes with a single neighbour and disconnected networks.''',
     ['inputs'],
     'all networks, including empty, disconnected and weighted ones and isolated nodes',
     '''Tests compare a few numbers on a few small connected networks; normalisation, shell counting and degenerate cases
     are not sampled.''',
     ['src/graph.c'],
     [('Enqueue, RenewQueue, Dequeue and the BFS list', 'src/graph.c'),
      ('AveragePathLength, ClusteringCoefficient*, Calculate*Betweenness, Assortativity, CalculateKnn', 'src/graph.c'),
      ('JaccardIndex, TopologicalOverlap, CommonNeighbors, CompareTwoNetworks', 'src/graph.c')],
     SPECTECH, SPECNOTE)

prop('C12', 'Bipartite networks, projections and network models are built as defined',
     '''Copying, inverting, editing, reading, printing and projecting a bipartite network, its unweighted and weighted modularity and its
     participation coefficients follow their definitions: projected weights are the number of shared neighbours or the
     sum of the products of the shared weights, each pair of nodes is linked in both directions or not at all, and
     isolated nodes are kept. The generators of empty, random, block, preferential-attachment, Girvan-Newman and modular bipartite networks
     create the requested number of nodes and draw each link with the requested probability exactly once.''',
     ['inputs', 'configurations'],
     'all bipartite networks, weights, partitions and model parameters',
     '''Tests compare a few projected networks and modularities; generators are random and not tested.''',
     ['src/bipartite.c', 'src/models.c'],
     [('CopyBipart, InvertBipart, RemoveNodeBipart, ProjectBipart, ProjectBipartWeighted', 'src/bipartite.c'),
      ('ModularityBipart*, ParticipationCoefficientBipart, StatisticsParticipationCoefficientBipart', 'src/bipartite.c'),
      ('EmptyGraph, ERGraph, PAGraph, UndirectedBlockGraph, GirvanNewmanGraph', 'src/models.c')],
     SPECTECH, SPECNOTE)

prop('C13', 'Numerical helpers, lookup tables, stacks, queues and matrices are exact',
     '''Mean, standard deviation, extremes, binomial coefficients, factorials and their logarithms return what their names
     say; the precomputed tables of logarithms, log-factorials, log-gamma values, log-binomials and harmonic numbers hold
     the same values as direct evaluation, and arguments beyond the table fall back to direct evaluation. Stacks return
     what was pushed in last-in first-out order, queues in first-in first-out order, with correct emptiness and without
     loss; adjacency and Laplacian matrices and the spectrum measures derived from them follow their definitions.''',
     ['inputs', 'histories'],
     'all arguments, table sizes, sequences of container operations and networks',
     '''Tests sample a few arguments; off-by-one table bounds and container operations on one-element containers are not
     covered.''',
     ['src/tools.c', 'src/datastruct.c', 'src/matrix.c'],
     [('mean, stddev, min, max, Choose, LogChoose, fact', 'src/tools.c'),
      ('InitializeFast*, Fast*, Free*', 'src/tools.c'), ('stack_*, queue_*', 'src/datastruct.c'),
      ('AdjacencyMat, LaplacianMat, LaplacianSpectrum, Synchronizability', 'src/matrix.c')],
     SPECTECH, SPECNOTE)

prop('C14', 'Compact partitions and link arrays of netcarto are exact',
     '''Building the link array from an edge list, the initial assignment, moving a node to another module, merging two
     modules and compacting away empty modules leave every node in exactly one module, with module sizes, strengths and
     member chains equal to what they are by definition, and everything else unchanged. The modularity, the change of
     modularity a move or a merger would cause, and the within-module z-scores and participation coefficients equal the
     values their definitions give for every network, with self-loops and repeated links included; the tables and
     cluster lists printed contain every node once, with its own values, on the stream passed in.''',
     ['inputs', 'histories'],
     'all edge lists, weights, partitions and sequences of moves, mergers and compactions',
     '''Energy changes are used incrementally by the annealing: an error in one term only makes the result a little
     worse, and tests compare a few modularities of one example.''',
     ['src/partition.c', 'src/fillpartitions.c', 'src/io.c'],
     [('PartitionModularity, dEChangeModule, dEMergeModules, PartitionRolesMetrics', 'src/partition.c'),
      ('ChangeModule, MergeModules, CompressPartition', 'src/partition.c'),
      ('EdgeListToAdjaArray, AssignNodesToModules', 'src/fillpartitions.c'), ('TabularOutput, ClusteringOutput', 'src/io.c')],
     SPECTECH, SPECNOTE)

prop('C15', 'Link reliability sampling follows its statistical model',
     '''For the plain, two-layer (both and either) and degree-restricted block models, and the variants for sparse networks: the energy of a partition, the
     change of energy used for a proposed move, the acceptance rule and the heat-bath probabilities are exactly those of
     the model, for every network and partition including empty groups, groups of one node and a single group. After
     every step the running energy, the group-to-group link counts and the group contents agree with the partition
     reached; the score of a pair is the average over the samples, reset when a clearly better energy appears, of the
     model's probability of that link. How much is printed never influences a score.''',
     ['inputs', 'histories'],
     'all networks, partitions, sequences of random draws, iteration counts and verbosity settings',
     '''An error in one term of an energy change only biases the sample: scores stay plausible and sampled tests, which
     can only compare a few seeded scores, cannot tell; the branches for empty and one-node groups are rarely taken.''',
     ['src/missing.c', 'src/multiblock.c', 'src/only_deg.c'],
     [('PartitionH, PartitionHMB, ORPartitionHMB, PartitionHMB_OD, LogDegeneracy*', 'src/missing.c, multiblock.c, only_deg.c'),
      ('LinkScoreMCStep, LSMCStepMB*, LSMCStepKState, GibbsLinkScoreStep*', 'src/missing.c, multiblock.c, only_deg.c'),
      ('Thermalize*, GetDecorrelationStep*', 'src/missing.c, multiblock.c, only_deg.c'),
      ('LinkScore*, GibbsLinkScore*, SBMError, SBMStructureScore, NetFromSBMScores, NetworkScore, PartitionSampling',
       'src/missing.c, multiblock.c, only_deg.c')],
     SPECTECH, SPECNOTE)

prop('C16', 'Predicted ratings follow the bipartite block model',
     '''For ratings with two values and with any number of values: the energy of a pair of partitions, the change of energy
     of a proposed move of either kind of node, the acceptance rule and the heat-bath probabilities are exactly those of
     the bipartite block model, and after every step the running energy, group counts and count tables agree with the
     partitions reached. The score of a query is the average over the samples, restarted when a clearly lower energy
     shows the system was not thermalized, of the model's probability of that rating, with the queried ratings hidden
     from the fit. Reading ratings and queries and listing the unobserved pairs keeps every pair exactly once and adds
     nodes that were never rated.''',
     ['inputs', 'histories'],
     'all rating networks, query sets, partitions, sequences of random draws, iteration counts and verbosity settings',
     '''A wrong term, a swapped table or a stale count only biases the sampled averages; the project has no test of this
     part at all beyond building it, and seeded samples could only pin one history.''',
     ['src/recommend.c', 'src/conflict.c'],
     [('H2State, HKState, MCStep2State, MCStepKState, GibbsStepKState', 'src/recommend.c'),
      ('ThermalizeMC2State, ThermalizeMCKState, GibbsThermalizeKState, GetDecorrelationStep*', 'src/recommend.c'),
      ('MultiLinkScore2State, MultiLinkScoreKState, GibbsMultiLinkScoreKState', 'src/recommend.c'),
      ('AllLinkScore2State', 'src/conflict.c'),
      ('ReadRecommenderObservations, ReadQueries, CreateQuery, BuildUnobservedSet, RemoveRatings', 'src/recommend.c')],
     SPECTECH, SPECNOTE)

prop('C17', 'Programs do what their command line says and print what they compute',
     '''Each program of the project opens the files, uses the numbers and obeys the options that its command line or its
     answers on standard input give, hands every one of them to the computation it is documented for, and writes the
     quantities that computation yields, each once and in its place. Options may come in any order and combination; an
     option that is documented has its effect, the defaults hold for those not given, and a program is satisfied with
     exactly the arguments it uses.''',
     ['inputs', 'configurations'],
     'all command lines, option combinations, parameter files and networks',
     '''No test runs a program at all: they link the library. A program that drops, swaps or misreads a parameter still
     prints plausible numbers.''',
     ['netcarto/', 'utils/', 'multiblock/', 'only_deg/', 'recommender/', 'reliability/', 'conflict/'],
     [('option programs', 'netcarto/main_netcarto.c, netcarto/main_bipartmod_cl.c, utils/'),
      ('statistics programs', 'utils/'), ('block-model programs', 'multiblock/, only_deg/, reliability/, recommender/, conflict/')],
     'value-graph normal form of every main routine against a reference; option loops read off the control-flow graph',
     '''Every main routine except those named in DESIGN.md. Rounding and integer overflow are ignored; the order of output to
     different files is not compared.''')

prop('N01', 'The best partition a search can find is found',
     '''The partition returned by annealing, spectral splitting and the other searches has the largest modularity (or is
     not worse than any other partition reachable with the given settings).''',
     ['inputs', 'schedules'], 'all networks, settings and seeds',
     'The optimum is unknown for all but tiny networks.', ['src/modules.c', 'src/sannealing.c', 'src/bipartite.c'],
     [('SACommunityIdent*, GeneralSA, SACommunityIdentBipart*', 'src/modules.c, src/sannealing.c, src/bipartite.c')],
     na='quality of a heuristic random search is a run-time quantity; no static argument bounds the distance to the optimum (the energy bookkeeping of the searches is decided by C14-C16)')

prop('N02', 'The samplers converge to the distribution of their model',
     '''The samples are taken after equilibration and far enough apart, so that averages over them approach the averages of
     the model.''',
     ['histories'], 'all networks and sequences of random draws',
     'Convergence is an asymptotic statement about random sequences.', ['src/missing.c', 'src/recommend.c'],
     [('Thermalize*, GetDecorrelationStep*', 'src/missing.c, src/multiblock.c, src/only_deg.c, src/recommend.c')],
     na='mixing times of Markov chains depend on the data; static analysis decides that each step has the right probabilities (C15, C16), not how many are enough')

prop('N03', 'Rounding does not change results noticeably',
     '''Energies accumulated over millions of moves, logarithms of factorials and scores stay within a small relative error
     of their exact values.''',
     ['inputs', 'histories'], 'all networks and lengths of runs',
     'Error growth needs long runs on large networks.', ['src/missing.c', 'src/recommend.c', 'src/tools.c'],
     [('FastLog*, incremental energies', 'src/tools.c, src/missing.c, src/recommend.c')],
     na='the length of the accumulations is unbounded, so a sound static error bound is vacuous; the analyses treat numbers as exact')

prop('N04', 'Every run ends',
     '''Every routine returns for every input: thermalization, rejection loops and searches end.''',
     ['inputs', 'histories'], 'all inputs and sequences of random draws',
     'A test can only wait for a finite time.', ['src/', 'netcarto/', 'recommender/', 'reliability/'],
     [('do-while rejection loops, Thermalize*', 'src/')],
     na='many loops end only with probability one, depending on the random draws and on the energies reached; no ranking function exists')
