# (exec'd by gen_checks.py)
NA = {}
ENUM = 'bounded-exhaustive explicit-state exploration of the real code against a reference model'
TRUST = 'Exhaustive within the stated bounds on the real headers under ASan/UBSan, leak accounting and a termination watchdog; beyond the bounds only structured families are covered. Trusts the reference model in the harness, g++ and libstdc++.'
c('C01', 'model_checking', parts('c01_dijkstra.cpp', 5), 'bounded-exhaustive enumeration of weighted digraphs; event-trace conformance against a Dijkstra model automaton, on the real code',
  'case = weighted graph x sources x container (x mode x visitor flavour); non-trivial = at least one edge',
  dict(quick='all edge sequences n=3,k<=3 x weights{0,1,3}; all loop-free digraphs n=4,k<=4 x 4 weights; all digraphs n=4 with loops x 2 weight patterns; 9 containers x all digraphs n=3; families n<=40',
       thorough='n=3,k<=4; n=4,k<=6; families n<=120'), TRUST, ['path sums stay below the infinite value'])
c('C02', 'model_checking', parts('c02_bellman.cpp', 5), 'bounded-exhaustive enumeration of signed-weight digraphs; relaxation-trace conformance and brute-force negative-cycle oracle, on the real code',
  'case = weighted graph x sources x container; non-trivial = at least one edge',
  dict(quick='all edge sequences n=3,k<=3 x weights{-2..3}; all digraphs with loops n=4,k<=4 x 3 weights; all loop-free digraphs n=4 x 6 patterns; 9 containers; families n<=30',
       thorough='n=3,k<=4; n=4,k<=6; n=4 with loops; families n<=80'), TRUST, ['path sums stay representable'])
c('C03', 'model_checking', parts('c03_bfs.cpp', 5), 'bounded-exhaustive enumeration of digraphs x source lists; BFS event-trace conformance against a level-order automaton, on the real code',
  'case = graph x sources x container, run with id- and descriptor-visitors; non-trivial = at least one edge',
  dict(quick='all digraphs n<=3 x all source lists; n=4 with loops; all edge sequences n=3,k<=4 and n=4,k<=4; 10 containers x n=3; families n<=70',
       thorough='k<=5, all loop-free digraphs n=5, families n<=300'), TRUST)
c('C04', 'model_checking', parts('c04_dfs.cpp', 5), 'bounded-exhaustive enumeration of digraphs; DFS event-trace conformance against a colour/path-stack automaton, on the real code',
  'case = graph x source x container, run with id- and descriptor-visitors; non-trivial = at least one edge',
  dict(quick='all digraphs n<=3; n=4 with loops; all edge sequences n=3,k<=4 and n=4,k<=4; 10 containers x n=3; families n<=70',
       thorough='k<=5, all loop-free digraphs n=5, families n<=300'), TRUST)
c('C05', 'model_checking', parts('c05_topo.cpp', 5), 'bounded-exhaustive enumeration of digraphs x source lists; result conformance against a closure-based reference, on the real code',
  'case = graph x (whole graph | source list) x container; non-trivial = at least one edge',
  dict(quick='all digraphs with loops n<=3 x all source lists <=3, n=4 (all pairs of sources when loop-free); all DAGs n=5 x relabelings; all edge sequences n=3,k<=4, n=4,k<=4; 10 containers; families n<=70',
       thorough='all relabelings of DAGs n=5; all loop-free digraphs n=5; k<=5; families n<=300'), TRUST)
c('C06', 'model_checking', parts('c06_components.cpp', 5), 'bounded-exhaustive enumeration of graphs x neighbour-round counts; partition conformance against a reference fixpoint, on the real code',
  'case = graph x container (x rounds x overload); state = stored adjacency; non-trivial = at least one edge',
  dict(quick='all undirected graphs n<=4 with loops x 4 edge orders, n=5 x 4 edge orders; all undirected edge sequences n=4,k<=4 and n=5,k<=4; directed+transpose: all digraphs n<=3, n=4 x 2 orders; 8 containers; families n<=240',
       thorough='n=5 x 24 orders, n=6; digraphs n=4 x 12 orders, n=5 with <=8 edges; k<=5; families n<=1400'), TRUST)
c('C07', 'model_checking', parts('c07_scc.cpp', 5), 'bounded-exhaustive enumeration of digraphs x edge orders; label conformance against mutual-reachability closure, on the real code',
  'case = digraph x container x overload; state = stored adjacency; non-trivial = at least one edge',
  dict(quick='all digraphs with loops n<=4, loop-free n=4 x 4 edge orders, all edge sequences n=4,k<=4, for both overloads; 10 containers; families n<=60 x 3 orders',
       thorough='n=4 x 24 orders; all loop-free digraphs n=5; k<=5; families n<=200'), TRUST)
def what(src, n, w):
    return [dict(name='%s_%d_%d' % (src[:-4], w, i), src=src, flags=['-DPART=%d' % i, '-DWHAT=%d' % w]) for i in range(1, n + 1)]
c('C08', 'model_checking', what('c08_blocks.cpp', 4, 8), 'bounded-exhaustive enumeration of undirected multigraphs x edge orders; conformance against cut vertices by deletion, on the real code',
  'case = undirected multigraph x container; state = stored adjacency; non-trivial = at least one edge',
  dict(quick='all graphs with loops n<=4 x 3 orders, n=5 x 8 orders, n=6; all edge sequences n=3,k<=5; n=4,k<=4; n=5,3<=k<=4; 9 containers; small id types filled to their limit; families n<=60 with doubled edges and loops',
       thorough='n=5 x 60 orders, n=6 x 6 orders, sequences k<=5, families n<=200'), TRUST)
c('C09', 'model_checking', what('c08_blocks.cpp', 4, 9), 'bounded-exhaustive enumeration of undirected multigraphs x edge orders; conformance against blocks by the vertex-separation relation, on the real code',
  'case = undirected multigraph x container; state = stored adjacency; non-trivial = at least one edge',
  dict(quick='all graphs with loops n<=4 x 3 orders, n=5 x 8 orders, n=6; all edge sequences n=3,k<=5; n=4,k<=4; n=5,3<=k<=4; 9 containers; small id types filled to their limit; families n<=60 with doubled edges and loops',
       thorough='n=5 x 60 orders, n=6 x 6 orders, sequences k<=5, families n<=200'), TRUST)
c('C10', 'model_checking', parts('c10_kruskal.cpp', 3), 'bounded-exhaustive enumeration of weighted edge lists in every order (cycle-property oracle) and fixpoint exploration of the disjoint-set state space, on the real code',
  'case = edge list x container/id/value type x comparator x (copying | in place), or a whole disjoint-set state space; state = edge list or disjoint-set state; non-trivial = at least one edge',
  dict(quick='all edge sequences n=3,k<=3 x 4 weights; undirected sequences n=3,k=4 and n=4,k=4; all graphs n=4 x all weight permutations; 5 container/type combinations; id types filled to their limit; disjoint sets n<=5 to fixpoint; families n<=40 x 3 orders',
       thorough='3 weights for k=4; disjoint sets n=6; families n<=120'), TRUST, ['sums stay representable'])
c('C11', 'model_checking', parts('c11_prim.cpp', 4), 'bounded-exhaustive enumeration of undirected weighted multigraphs x seeds x comparators; spanning-tree and cycle-property oracle, on the real code',
  'case = weighted undirected multigraph x container, run from every seed (every power-of-two position for large families) with up to three comparator/initial-distance settings; state = stored adjacency; non-trivial = at least one edge',
  dict(quick='all graphs with loops n<=3 x 4 weights (incl. negative); all loop-free graphs n=4 x 3 weights; all undirected sequences n=3,k<=3 x 3 weights; n=4 x all weight permutations; n=5 x 6 weight patterns; 9 containers; families n<=60 x 3 orders',
       thorough='n=4 x 4 weights x 3 settings; sequences k<=4; n=5 x 60 patterns; families n<=240'), TRUST, ['every edge weight is better than the initial distance', 'sums stay representable'])
SETB = dict(quick='all undirected graphs with loops n<=4 x 3 edge orders, n=5, n=6; multigraph sequences (n=3,k<=5 or n=4,k<=4); 8-10 containers x all graphs n<=4 with loops, n=5; small id types filled to their limit; families n<=90',
       thorough='n=7 (C12); sequences k<=5; families n<=300')
c('C12', 'model_checking', what('c12_sets.cpp', 4, 12), 'bounded-exhaustive enumeration of graphs with sorted adjacency; conformance against triple enumeration, on the real code',
  'case = undirected graph x container; state = stored adjacency; transition = reference triangle; non-trivial = at least one edge', SETB, TRUST)
c('C13', 'model_checking', what('c12_sets.cpp', 4, 13), 'bounded-exhaustive enumeration of graphs x seeds; independence/maximality oracle, on the real code',
  'case = undirected multigraph x container, run from every seed; state = stored adjacency; non-trivial = at least one edge', SETB, TRUST)
c('C14', 'model_checking', parts('c14_labels.cpp', 3), 'exhaustive exploration of the random generator\'s answers (choice tree with re-execution) over enumerated graphs and labelings; results checked against the set reachable in a nondeterministic model',
  'case = graph x initial labeling (up to renaming) x empty label x pass limit x container, run under every answer script within the draw budget; trace = one scripted run; state = distinct (labeling, result); non-trivial = at least one edge',
  dict(quick='one pass: all digraphs n<=3 (all scripts: also every result of some visiting order and tie-break must appear), all graphs n=4, first 4 draws free; 2-3 passes n=3 with 2-3 free draws; 5 containers; run to convergence on families n<=60',
       thorough='4-5 free draws over several passes, n=4 5 free draws; families n<=60 x 7 seeds'), TRUST, ['draws beyond the budget answer 0'])
c('C15', 'model_checking', what('c12_sets.cpp', 4, 15), 'bounded-exhaustive enumeration of graphs and digraphs; callback-trace conformance against set arithmetic, on the real code',
  'case = (di)multigraph x container; state = stored adjacency; transition = callback; non-trivial = at least one edge',
  dict(quick=SETB['quick'].replace(', n=6','') + '; all digraphs n<=3 with loops, n=4 loop-free, directed sequences n=3,k<=4', thorough='all digraphs n=4 with loops; sequences k<=5; families n<=300'), TRUST)
SV = 'lockstep exploration of the view as a state machine against a reference %s machine over enumerated graphs, seeds, directions and overloads'
SVB = dict(quick='all digraphs with loops n<=3 x all seeds x both directions x every overload and pipe form; loop-free digraphs n=4; all edge sequences n=3,k<=3, n=4,k=4; 10 containers; small id types filled to their limit; families n<=60',
           thorough='digraphs n=4 with loops; n=3,k<=4; n=4,k=5; families n<=300')
c('C16', 'model_checking', what('c16_search_views.cpp', 5, 16), SV % 'queue', 'case = graph x container x direction (x all seeds x overloads); trace = one complete iteration; non-trivial = at least one edge', SVB, TRUST)
c('C17', 'model_checking', what('c16_search_views.cpp', 5, 17), SV % 'stack', 'case = graph x container x direction (x all seeds x overloads); trace = one complete iteration; non-trivial = at least one edge', SVB, TRUST)
c('C18', 'model_checking', what('c16_search_views.cpp', 5, 18), 'exhaustive exploration of topological views over enumerated digraphs against a closure-based reference, on the real code', 'case = graph x container x direction (x overloads); trace = one complete iteration; non-trivial = at least one edge',
  dict(quick='all digraphs with loops n<=4, loop-free n=4 in both directions, all DAGs n=5 x 4 labelings; all edge sequences n=3,k<=3, n=4,k=4; 9 containers; id limits; families n<=40', thorough='both directions n=4; k<=5; families n<=200'), TRUST)
c('C19', 'model_checking', what('c16_search_views.cpp', 5, 19), 'exhaustive exploration of every script of cancel decisions (choice tree) in lockstep with a reference search on the pruned graph, on the real code', 'case = graph x container x direction (x all seeds x all cancel scripts x 4 views); trace = one script run; non-trivial = at least one edge',
  dict(quick='every continue/branch/all decision at every element: all digraphs with loops n<=3, loop-free n=4, all seeds; DAGs n=5 and trees n<=7 from the root; sequences n=3,k<=3; 10 containers; topological views cancelled at every element, DAGs n<=5', thorough='digraphs n=4 with loops; sequences k<=5'), TRUST)
c('C20', 'model_checking', what('c20_basic_views.cpp', 8, 20), 'bounded-exhaustive enumeration of graphs x containers x view overloads; every view walked in six ways (range-for, iterator pairs, copies, moves, assignment, chained adaptors) against the stored content, on the real code',
  'case = graph x container (x const/non-const x all view overloads) or plain edge list; trace = one view walked in every way; non-trivial = at least one edge',
  dict(quick='all digraphs with loops n<=3 with every overload, const and non-const; all edge sequences n=3,k=2..3; 14 graph types (vector-, deque-, map- and unordered-map-keyed, CSR, undirected list, nested vectors); small id types filled to their limit; 5 plain edge-list forms; families n<=16',
       thorough='loop-free digraphs n=4; k<=4; families n<=60'), TRUST)

c('C21', 'model_checking', what('c20_basic_views.cpp', 9, 21), 'bounded-exhaustive enumeration of graphs x bidirectional containers x incoming-edge queries and views, on the graph and on its transposed view, against the reversed edge multiset, on the real code',
  'case = graph x container; trace = one query or view walked in every way; non-trivial = at least one edge',
  dict(quick='all digraphs with loops n<=3 with every overload; all edge sequences n=3,k=2..3 (parallel edges); 9 bidirectional containers (sequence, set and map edges; vector-, map- and unordered-map-keyed; non-uniform and standard traits; undirected list); in-views, in-queries, search views and algorithms on transpose(g), transpose of transpose; families n<=16',
       thorough='loop-free digraphs n=4; k<=4; families n<=60'), TRUST)

c('C22', 'model_checking', what('c22_dynamic.cpp', 9, 22), 'bounded-exhaustive enumeration of load/resize/edit histories on all 27 dynamic_graph container combinations, every query compared with an abstract graph after each history, on the real code; values own memory, so use-after-move, double release and leaks show',
  'case = container x value/id types x history of up to 3 operations (or constructor x edge list); trace = one history replayed on the implementation and read back through the whole interface, const and non-const',
  dict(quick='all edge lists of length <=2 over 3 ids x 5 input forms x 2 vertex counts; 6 constructor forms x all lists of length <=2; all pairs of 74 operations and all triples of a reduced alphabet; 27 containers x {owning values, no values, bidirectional}, plus string and int8 ids',
       thorough='edge lists of length 3; triples and quadruples of the full reduced alphabet'), TRUST, throws=True)
c('C23', 'model_checking', what('c22_dynamic.cpp', 9, 23), 'exhaustive enumeration of copy/move/assign/swap/clear/load/edit histories over two graph objects on all 27 dynamic_graph container combinations, both objects compared with abstract values after each history, on the real code under address sanitizer with owning values',
  'case = container x value types x operation history; trace = one history replayed on the implementation',
  dict(quick='22 operations over 2 graphs, histories up to length 3 for owning values in every container, up to length 2 for valueless, bidirectional and string-keyed graphs',
       thorough='histories up to length 4 (owning values), 3 (others)'), TRUST, throws=True)

c('C24', 'model_checking', what('c24_compressed.cpp', 6, 24), 'bounded-exhaustive enumeration of vertex/edge lists x input forms x load orders and of load/copy/move/clear histories on compressed_graph, every query compared with an abstract graph after each, on the real code; values own memory, so use-after-move, double release and leaks show',
  'case = value/id/index types x operation history (or constructor x lists); trace = one history replayed and read back through the whole interface, const and non-const',
  dict(quick='all edge lists of length <=3 (sorted and unsorted) x vertex-value lists x 5 input forms; every history over two graphs up to 3 operations; owning, plain and void value types, 8- to 64-bit ids and index types filled to their limit',
       thorough='edge lists of length 4, longer histories'), TRUST, ['the id type holds |V|+1 and the index type |E|+1, as documented'], throws=True)
c('C25', 'model_checking', what('c24_compressed.cpp', 2, 25), 'bounded-exhaustive enumeration of partition start lists x vertex counts x load histories; partition queries compared with the interval model, on the real code',
  'case = value types x graph size x partition start list x form x later loads; trace = one graph queried for every partition and vertex',
  dict(quick='all partition start lists over n<=4 vertices, in every accepted range form, with later vertex/edge loads, clear and copies', thorough='n<=6'), TRUST, throws=True)
c('C26', 'model_checking', what('c26_ual.cpp', 4, 26), 'explicit-state exploration: every state of the abstract multigraph reachable by edits within bounds, and from each state every operation, replayed on the implementation and compared through every iteration and query; surviving iterators are followed across the operation',
  'case = reachable state x operation (or constructor x lists); state = abstract multigraph with edge order and creation directions; trace = one history replayed',
  dict(quick='all states with <=3 vertices and <=2 edges (<=3 edges without values or on deques; 1 vertex <=5 edges; 4 vertices <=2 edges), every create/erase/clear/resize/value operation through every handle, every subset erased mid-iteration; all constructors x all edge lists of length <=2; small id types filled to their limit',
       thorough='<=4 edges on 3 vertices, <=5 on 2, <=6 on 1, <=3 on 4; edge lists of length 3'), TRUST)
c('C27', 'model_checking', what('c26_ual.cpp', 3, 27), 'explicit-state exploration of copy/move/assign/swap/clear/edit sequences over two graphs from every pair of reachable states, both compared with abstract values after each step; every allocation counted, every edge value owned',
  'case = pair of reachable states x sequence of value operations; trace = one history replayed on the implementation',
  dict(quick='pairs of states (<=3 vertices, <=3 edges) x 14 value operations on either graph, sequences up to length 2', thorough='sequences up to length 4 on small states, more edges'), TRUST)

c('C28', 'model_checking', what('c28_queries.cpp', 13, 28), 'bounded-exhaustive enumeration of graphs x representations x queries x arguments (hits and misses, by id in every integral type, by descriptor), and of queries x sets of user customizations, every answer compared with the abstract graph, on the real code',
  'case = graph x representation (or query form x customizations); trace = the whole query interface asked on a const or mutable graph; transition = one vertex or query answered',
  dict(quick='all digraphs with loops n<=3, all edge sequences n=2,3,k<=3; 51 representations: standard containers of ids, pairs, tuples, structs, sets and maps, indexed, map- and unordered-map-keyed by integers and strings, user-defined vertices with member edges and in_edges (indexed and keyed), 21 library graphs; 300-vertex graphs with narrow target types x every pair; 37 query forms x {none, member, free function, both} x id typedef x const',
       thorough='k<=4, all loop-free digraphs n=4'), TRUST, ['in-edge queries of undirected lists are judged by C21'])
c('C29', 'model_checking', what('c28_queries.cpp', 8, 29) + [dict(name=f'c28_queries_29_{i}', src='c28_queries.cpp', flags=[f'-DPART={i}', '-DWHAT=29']) for i in (11, 12, 13)], 'bounded-exhaustive enumeration of graphs x representations; every pair of descriptors obtainable for the elements (by iteration, lookup, increment, reconstruction, edge ends) compared, ordered, hashed and resolved, on the real code',
  'case = graph x representation; trace = all descriptors of a const or mutable graph; transition = one descriptor',
  dict(quick='all digraphs with loops n<=3, all edge sequences n=2,3,k<=3; 50 representations (see C28)', thorough='k<=4, all loop-free digraphs n=4'), TRUST)

c('C30', 'model_checking', what('c30_edge_lists.cpp', 6, 30), 'bounded-exhaustive enumeration of edge lists x record forms x containers; every query, view and load answered by each record and by the graph loaded from it compared with the abstract list, on the real code',
  'case = edge list x record form (x container, x target graph); trace = one list queried and walked in every way; transition = one record answered',
  dict(quick='all edge lists of length <=3 over 3 ids (<=4 over 2); pairs, tuples, edge records with and without values, structured types, descriptors, integer, string and owning ids and values; vector, list, forward_list, deque, subranges and generated ranges; loading into every graph container and reading back',
       thorough='lists of length 4 over 3 ids, 6 over 2'), TRUST)
c('C31', 'model_checking', what('c31_errors.cpp', 6, 31), 'bounded-exhaustive enumeration of graphs x arguments at and around every documented limit; the outcome (result or exact exception) compared with the documented one and the graph and the caller\'s ranges (with guard zones) compared before and after, on the real code under address sanitizer',
  'case = graph x function x argument combination; trace = one call; non-trivial = the call is to be rejected or sits on the limit',
  dict(quick='dijkstra, bellman-ford, prim with every source set, range length n-1..n+1 and every placement of a negative weight; element access, load and construction errors of dynamic, compressed and undirected containers at every index around the limits; all weighted edge sequences k<=2..3 over 2..3 vertices, all load sequences of length 3',
       thorough='weighted sequences k<=3, load sequences of length 4'), TRUST, throws=True)
c('C32', 'model_checking', what('c32_containers.cpp', 6, 32) + what('c32_compressed.cpp', 3, 32) + what('c32_ual.cpp', 3, 32) + what('c32_readers.cpp', 9, 32) + what('c30_edge_lists.cpp', 2, 32),
  'exhaustive fault injection under a controlled allocator: for every operation of the catalogue, a run per fault point in which exactly that allocation, callback call, value copy or comparison fails; the exception, the leak and ownership count, every graph before and after, and the usability of the modified graph are checked, on the real code under address sanitizer',
  'case = operation x graph x container; trace = one run with one fault point; outcome = the exception arrived, or no fault point was left',
  dict(quick='every fault point of: construction, load, copy, assignment, swap, clear, resize, edit of 27 dynamic_graph container combinations, compressed_graph and undirected_adjacency_list from small states; every query, view, search view and algorithm over graphs of <=3 vertices on 9 representations incl. ids and values that own memory; queries, edge-list views and loads over edge lists whose records or iterators throw',
       thorough='graphs of 3 vertices with loops, edge sequences n=3,k<=3; deeper start states'), TRUST, ['moves of values and allocators do not throw'], throws=True)
c('C33', 'model_checking', what('c33_sharing.cpp', 9, 33),
  'stateless exploration under a controlled scheduler: every reading operation is run twice on a graph kept in write-protected memory, and is preempted at every scheduling point (callback, id or key access) by every other reading operation run to completion on another thread; answers are compared with the undisturbed run, on the real code',
  'case = graph x representation x operation; trace = one schedule (operation, scheduling point, preempting operation); a write to graph memory faults and is reported',
  dict(quick='all queries, views, search views and algorithms x every preemption point x every other operation, one preemption, graphs of <=3 vertices, 9 representations', thorough='more graphs, all pairs on larger graphs'), TRUST)
WORK = ['-fsanitize-coverage=trace-pc', '-Wl,--wrap=malloc,--wrap=free,--wrap=memcpy,--wrap=memmove,--wrap=memset']
c('C34', 'model_checking', [dict(name=f'c34_work_{i}', src='c34_work.cpp', flags=[f'-DPART={i}'] + WORK, topt='-O0') for i in range(1, 12)],
  'exhaustive enumeration of operations x graph families x sizes x containers; each execution of the real code is counted step by step (basic blocks, bytes moved, allocations, peak heap) and the count divided by the documented bound must not grow with the size',
  'case = operation x family (x both directions) x container; trace = one size of the family; transition = one counted execution',
  dict(quick='20 families (16 sparse with 32, 128, 512 vertices or edges; 4 dense with 8, 16, 32); every algorithm, query, view and search view on dynamic (vector, list, map), compressed, undirected and plain std::vector graphs; every single query on 21 graph types incl. user vertices; building, copying, moving, clearing and editing of 7 containers; basic views and queries must not allocate',
       thorough='sizes doubling to 4096 (sparse) and 96 (dense)'),
  TRUST, ['a factor that grows more slowly than 1.8 from the smallest to the largest size is not seen; hash collisions of the standard containers are taken at their average'])
