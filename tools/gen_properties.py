#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run to regenerate)."""
import json, os
A='include/graph/algorithm/'; V='include/graph/views/'; C='include/graph/container/'; L='include/graph/adj_list/'
P=[]
def p(id,title,st,over,q,why,files,mech,observe=None):
    d=dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if observe: d['anchors']['observe_at']=observe
    assert len(title)<=80,title
    P.append(d)

p('C01','Dijkstra returns exact shortest distances and a valid predecessor tree',
 'For every graph with non-negative edge weights and every set of sources, Dijkstra leaves in each vertex the exact minimum, over all paths from any source, of the combined edge weights, leaves unreached vertices at the "infinite" value, and records for every reached non-source vertex a predecessor whose edge attains that minimum. This holds for weighted and unit-weight calls, with and without predecessors, for a single source or several, for any arithmetic distance type, for sum and bottleneck (maximum) combination, and whichever container stores the graph. A visitor sees each reached vertex discovered exactly once, each examination of a vertex cover all its outgoing edges in stored order before it finishes, and after each examined edge a relaxed or not-relaxed event that tells truthfully whether the distance improved.',
 ['inputs','configurations'],'every weighted digraph (self-loops, parallel edges, zero weights, disconnected parts), every source list, every weight function/type, every visitor','The tests run a few hand-written graphs (CLRS example, short paths) with one source and int/double weights; relaxation-order, tie, zero-weight and multi-source bugs need a particular weighting.',
 [A+'dijkstra_shortest_paths.hpp',A+'traversal_common.hpp'],[('relax_target and lazy priority queue',A+'dijkstra_shortest_paths.hpp'),('init_shortest_paths / infinite value',A+'traversal_common.hpp')])
p('C02','Bellman-Ford: exact distances, or a genuine negative cycle is reported',
 'For every weighted graph and set of sources, Bellman-Ford reports success exactly when no negative-weight cycle is reachable from a source, and then every distance and predecessor is exact and unreached vertices stay at the "infinite" value. When a reachable negative cycle exists it reports a vertex from which the recorded predecessors lead to a negative cycle, and extracting that cycle terminates and yields exactly the vertices of a negative-weight cycle of the graph. Visitors see every relaxation attempt with its true outcome, and on success the final check of every edge.',
 ['inputs','configurations'],'every digraph with positive, zero and negative weights, every source list, integral and floating weights','Tests sample a handful of graphs; wrong cycle vertices or relaxing from unreached vertices only show for particular topologies and edge orders.',
 [A+'bellman_ford_shortest_paths.hpp',A+'traversal_common.hpp'],[('relaxation rounds and final pass',A+'bellman_ford_shortest_paths.hpp'),('find_negative_cycle',A+'bellman_ford_shortest_paths.hpp')])
p('C03','Breadth-first search visits the reachable set once, level by level',
 'From any source or set of distinct sources, breadth-first search initializes each source before discovering it, then discovers, examines and finishes exactly the vertices reachable from the sources, each once, in nondecreasing hop distance from the nearest source, and examines exactly the outgoing edges of those vertices, each once. Every vertex callback is available in both its vertex-id and vertex-descriptor forms and fires with the matching vertex.',
 ['inputs','histories'],'every digraph, every set of sources, every visitor event trace','Tests check visit order on a few small graphs; duplicate discovery or level inversion needs particular diamonds, self-loops or multi-source overlaps.',
 [A+'breadth_first_search.hpp'],[('visited marking on enqueue','breadth_first_search.hpp'),('visitor dispatch',A+'breadth_first_search.hpp')])
p('C04','Depth-first search emits a well-nested, correctly classified event trace',
 'From any source, depth-first search initializes and starts the source once, then discovers and finishes exactly the reachable vertices, once each and properly nested; the search follows edges depth-first in stored order. Every outgoing edge of a reached vertex is examined exactly once and classified as exactly one of tree, back, or forward/cross according to whether its target is undiscovered, on the current path, or already finished, and each examined edge is finished once.',
 ['inputs','histories'],'every digraph, every source, every event trace','Tests compare traces of a few hand-made graphs; classification bugs depend on re-visiting a vertex in a particular colour.',
 [A+'depth_first_search.hpp'],[('colour map and explicit stack',A+'depth_first_search.hpp')])
p('C05','Topological sort succeeds exactly on DAGs and orders every edge forward',
 'Sorting a whole graph succeeds exactly when the graph has no directed cycle (self-loops included), and then emits every vertex once with each edge going from earlier to later. Sorting from one or several sources succeeds exactly when the part reachable from the sources is acyclic, and emits exactly that part, each vertex once and in edge order; duplicate or overlapping sources change nothing.',
 ['inputs'],'every digraph and every source list','Tests cover some DAGs and some cycles; a mis-handled colour shows only for particular edge orders and overlapping sources.',
 [A+'topological_sort.hpp'],[('DFS colours and reverse finish order',A+'topological_sort.hpp')])
p('C06','Connected-component labelling is exactly the undirected partition',
 'On every undirected graph (stored with both directions), depth-first component labelling assigns two vertices the same id exactly when a path joins them, numbers the ids 0..k-1 and returns k. The union-find ("afforest") labelling, with or without a transpose, for any number of sampling rounds and after compression, gives the same partition, also on directed input where it yields the weakly connected components once the transpose or both directions are supplied.',
 ['inputs','configurations'],'every undirected graph, every neighbour-round count, both overloads','Tests sample a few graphs; the sampling/skip logic of the union-find variant only fails for particular orders of hooks and a particular most-frequent component.',
 [A+'connected_components.hpp'],[('DFS labelling, link/compress/sample',A+'connected_components.hpp')])
p('C07','Strong components are exactly the classes of mutual reachability',
 'For every directed graph, the strong-component labelling gives two vertices the same id exactly when each can reach the other, using ids 0..k-1, both when the caller supplies the reversed graph and when the graph itself offers incoming edges.',
 ['inputs'],'every digraph and every stored edge order','Tests use graphs for which even an incorrect finishing order gives the right classes; the error needs a particular DAG and edge order.',
 [A+'connected_components.hpp'],[('two-pass Kosaraju (both overloads)',A+'connected_components.hpp')])
p('C08','Articulation points are exactly the cut vertices',
 'For every undirected graph, the articulation-point search emits exactly the vertices whose removal increases the number of connected components, each once, regardless of self-loops, parallel edges, disconnected parts, edge order or the integer type of vertex ids.',
 ['inputs','configurations'],'every undirected multigraph, both storage forms','Tests list expected cut vertices for some graphs; parallel-edge and root-vertex logic depends on the DFS tree chosen by edge order.',
 [A+'articulation_points.hpp'],[('iterative Hopcroft-Tarjan low-link',A+'articulation_points.hpp')])
p('C09','Biconnected components are exactly the maximal 2-connected blocks',
 'For every undirected graph, the biconnected-component search reports each maximal biconnected block exactly once as its set of distinct vertices, reports every vertex without proper neighbours as a component of its own, and nothing else, regardless of self-loops, parallel edges, disconnected parts or edge order.',
 ['inputs','configurations'],'every undirected multigraph','Tests sample shapes; a wrong edge-stack pop shows only when blocks share a vertex in a particular DFS order.',
 [A+'biconnected_components.hpp'],[('Hopcroft-Tarjan edge stack',A+'biconnected_components.hpp')])
p('C10','Kruskal emits a minimum spanning forest of every edge list',
 'For every edge list and comparator, both the copying and the in-place Kruskal emit a subset of the input edges (with their ids and values intact) that forms a spanning forest of the graph of those edges of optimal total value under the comparator, in comparator order, and return that total together with the number of connected components. The copying form leaves its input unchanged and the in-place form only reorders it; lists with no edges, one edge, self-loops, duplicates and ties are included.',
 ['inputs'],'every edge list, edge order and comparator','Tests use a few lists of four or more edges; boundary lists and tie/duplicate patterns are not enumerated.',
 [A+'mst.hpp'],[('sort + union-find',A+'mst.hpp'),('disjoint_find/union',A+'mst.hpp')])
p('C11','Prim grows a minimum spanning tree of the seed component',
 'For every undirected weighted graph and seed, Prim records for every vertex of the seed component other than the seed a tree predecessor joined to it by an edge of the recorded weight such that these edges form a spanning tree of the component of optimal total weight under the comparator, returns that total (of the seed component alone, whatever the result ranges held before), and leaves the predecessors of vertices outside the component as they were. A seed outside the graph or undersized result ranges are rejected with an exception.',
 ['inputs'],'every weighted undirected graph, every seed, minimum and maximum comparators','Tests check graphs whose shortest-path tree happens to equal the MST or only the total; the greedy order needs adversarial weights.',
 [A+'mst.hpp'],[('prim priority queue',A+'mst.hpp')])
p('C12','Triangle counts are exact',
 'For every undirected graph with sorted adjacency (and no parallel edges) the triangle count equals the number of unordered vertex triples that are pairwise adjacent, whatever the container and vertex id type; self-loops never contribute and each triangle is counted once.',
 ['inputs'],'every graph with sorted neighbour ranges','Tests check a few named graphs (K4, K5, wheels); the merge-intersection is wrong only for particular overlap patterns.',
 [A+'tc.hpp'],[('sorted merge intersection',A+'tc.hpp')])
p('C13','Maximal independent set is independent, maximal and seed-first',
 'For every undirected graph and seed, the emitted set has no two adjacent vertices and no vertex adjacent to itself, every vertex left out is adjacent to a chosen vertex or to itself, the returned count equals the number of emitted vertices, each is emitted once, and the seed is chosen unless it is adjacent to itself.',
 ['inputs'],'every undirected graph with self-loops allowed, every seed','Tests sample small graphs; self-loop and wrap-around handling depend on seed position.',
 [A+'mis.hpp'],[('greedy exclusion',A+'mis.hpp')])
p('C14','Label propagation follows majority vote until stable, for every random outcome',
 'Whatever the random generator answers, each step of label propagation gives a vertex a label that is among the most frequent labels of its neighbours (self-loops count, vertices without neighbours keep their label, vertices with the "empty" label do not vote), it stops exactly when a full pass changes nothing or the iteration limit is reached, and no label outside the initial labels ever appears; and every result that some visiting order and tie-break gives is produced for some answers of the generator.',
 ['inputs','schedules'],'every small graph, every initial labelling, every sequence of random answers (vertex orders and tie-breaks)','Tests run one seeded generator on a few graphs; the result depends on the random order and tie-breaks which they never enumerate.',
 [A+'label_propagation.hpp'],[('shuffle + frequency tally',A+'label_propagation.hpp')])
p('C15','Jaccard coefficients are exact for every stored edge',
 'For every graph the Jaccard callback is invoked exactly once per stored edge that is not a self-loop, with that edge, its end ids and the exact ratio of common to combined distinct neighbours of its ends (self-loops excluded), always between 0 and 1.',
 ['inputs'],'every graph incl. parallel edges and self-loops','Tests check a few graphs; set-size bookkeeping errors show on particular overlaps.',
 [A+'jaccard.hpp'],[('neighbour sets and smaller-set intersection',A+'jaccard.hpp')])
p('C16','BFS views enumerate the reachable part level by level with true depth',
 'For every graph and seed, the vertex BFS view yields exactly the vertices reachable from the seed once each in nondecreasing hop distance, first-in first-out with stored edge order, and the edge BFS view yields exactly the edges by which each non-seed vertex is first discovered, in the same order; value functions and every overload (id or descriptor seed, allocator, pipe form, forward or incoming-edge direction) agree. At every step the depth accessor equals the greatest hop distance discovered so far and the visited count the number of vertices, beyond the seed, discovered so far.',
 ['inputs','histories','configurations'],'every digraph, seed, direction and overload, observed after every increment','Tests iterate a few graphs to the end and rarely look at accessors mid-iteration.',
 [V+'bfs.hpp',V+'search_base.hpp',V+'edge_accessor.hpp',V+'adaptors.hpp'],[('queue, visited tracker, depth counter',V+'bfs.hpp')])
p('C17','DFS views enumerate the reachable part depth-first with true depth',
 'For every graph and seed, the vertex DFS view yields exactly the vertices reachable from the seed once each in the preorder of a depth-first search that follows stored edge order, and the edge DFS view yields exactly that search\'s tree edges in the same order; value functions and every overload (id or descriptor seed, allocator, pipe form, forward or incoming-edge direction) agree. At every step the depth accessor equals the length of the current search path in vertices and the visited count the number of vertices, beyond the seed, discovered so far.',
 ['inputs','histories','configurations'],'every digraph, seed, direction and overload, observed after every increment','Tests iterate a few graphs to the end; stack handling bugs need particular back/cross edges.',
 [V+'dfs.hpp',V+'search_base.hpp',V+'edge_accessor.hpp',V+'adaptors.hpp'],[('explicit stack of edge iterators',V+'dfs.hpp')])
p('C18','Topological-order views agree with the graph order and detect every cycle',
 'On every acyclic graph the topological vertex view yields all vertices once with each edge going forward, and the edge view yields every edge exactly once grouped by source in that order, repeatably on every pass, in either edge direction. The safe forms return a view exactly when the graph has no directed cycle and otherwise report a vertex that lies on a cycle, and the size of the vertex view, and at every step of its first pass the visited count, are exact.',
 ['inputs','configurations'],'every digraph, both directions, all overloads, multiple passes','Tests use a few DAGs and cycles.',
 [V+'topological_sort.hpp'],[('DFS finish order + recursion stack',V+'topological_sort.hpp')])
p('C19','Cancelling a search view stops or prunes exactly what was asked',
 'At whatever points a caller cancels while iterating a BFS, DFS or topological view, cancelling everything ends the iteration at once, and cancelling a branch of a BFS or DFS prevents exploration of the successors of the element just produced and nothing else (a topological view, having no branches, ends at once): the elements yielded afterwards are exactly those of the same search in which the pruned vertices have no outgoing edges. Iteration always terminates and stays memory-safe for every sequence of cancel decisions.',
 ['histories'],'every small graph, seed and every sequence of cancel decisions (none/branch/all) at every step','Tests cancel once at one chosen vertex; a second cancellation or one at a particular depth is never tried.',
 [V+'bfs.hpp',V+'dfs.hpp',V+'topological_sort.hpp',V+'search_base.hpp'],[('cancel_search state',V+'search_base.hpp')])
p('C20','Basic views enumerate exactly what the graph stores',
 'For every graph, the vertex-list, incidence, neighbour and edge-list views (with and without value functions, full and basic forms, by id or by descriptor, called directly or by pipe, restarted or iterated repeatedly) yield exactly the vertices, and respectively for one vertex or for the whole graph the outgoing edges and targets, in stored order, with matching ids, descriptors and values; sizes and emptiness reported agree with what is iterated. Edge-list views over plain edge lists yield that list unchanged.',
 ['inputs','configurations'],'every small graph incl. empty vertices and trailing/leading gaps, each container, each overload','Tests check a few graphs; skipping of empty vertices at the start, middle and end is a matter of patterns.',
 [V+'vertexlist.hpp',V+'incidence.hpp',V+'neighbors.hpp',V+'edgelist.hpp',V+'adaptors.hpp'],[('edgelist advance over empty vertices',V+'edgelist.hpp')])
p('C21','Incoming-edge queries and the transposed view mirror the outgoing edges',
 'In every graph offering incoming edges, an edge from u to v is listed among the incoming edges of v exactly as often as among the outgoing edges of u, with true source and target ids and the same value, and every incoming-edge query (range, degree, search, membership, incoming views by id or descriptor) agrees with that. For edge containers held as sequences, the transposed view behaves in every query and algorithm as the graph with all edges reversed, and transposing it twice gives back the original. An undirected list has the same edges incoming as outgoing.',
 ['inputs','configurations'],'every digraph in every container with incoming edges','Tests check small fixed graphs; parallel edges, self-loops and map-keyed vertices are barely sampled.',
 [V+'transpose.hpp',V+'edge_accessor.hpp',L+'detail/graph_cpo.hpp',C+'dynamic_graph.hpp',L+'edge_descriptor.hpp'],[('in_edges bookkeeping in load_edges',C+'dynamic_graph.hpp'),('transpose_view friend functions',V+'transpose.hpp')])
p('C22','A dynamic graph holds exactly the vertices, edges and values loaded',
 'For every sequence of vertex and edge loads (constructors, initializer lists, ranges, single-pass ranges, repeated loads, projections, resizing, clearing, edits of values) and every choice of vertex and edge containers, the graph afterwards holds exactly the loaded vertices and edges with their values, in the documented per-container order and with the documented duplicate handling of set- and map-based edge containers, and its reported vertex counts and degrees equal what iteration yields; its edge count is the number of edges loaded (which set- and map-based edge containers may store fewer of). The caller\'s data stays intact unless moved from explicitly.',
 ['inputs','histories','configurations'],'every short load sequence x 27 container combinations x value kinds','Tests load a handful of graphs per container; duplicates, re-loading, gaps and ordering are sampled only.',
 [C+'dynamic_graph.hpp',C+'container_utility.hpp',C+'traits/'],[('load_edges/load_vertices/emplace',C+'dynamic_graph.hpp')])
p('C23','Dynamic graphs have value semantics: copy, move, assign, swap, clear',
 'Copying, moving, assigning, swapping and clearing dynamic graphs in any sequence behaves like values: a copy equals and is independent of its source, a move or swap transfers the whole content including graph value, counts and incoming edges and leaves the source of a move without vertices and edges, clearing gives an empty graph that can be reloaded, and no storage is leaked or used after release.',
 ['histories','configurations'],'every short sequence of operations over several graph objects per container','Tests do one copy or move at a time on one graph.',
 [C+'dynamic_graph.hpp'],[('defaulted special members, swap, clear',C+'dynamic_graph.hpp')])
p('C24','A compressed graph holds exactly the vertices, edges and values loaded',
 'For every list of source-ordered edges and every list of vertex values, loaded by constructor, initializer list or load calls in either order, with lvalue, const or temporary input, the compressed graph afterwards holds exactly those vertices (including isolated ones) and edges in input order with their values, leaves the caller\'s data intact unless moved from explicitly, and answers all queries accordingly for every id and index type that can hold the graph. Unsorted edges are rejected with an exception and leave the graph as it was; copying, moving, swapping and clearing compressed graphs behaves like values.',
 ['inputs','histories','configurations'],'every sorted edge list, vertex list, load order, id/index type and value kind','Tests cover fixed graphs; the offset array goes wrong only for particular gaps, trailing isolated vertices or empty inputs.',
 [C+'compressed_graph.hpp'],[('row_index construction, terminate_partitions',C+'compressed_graph.hpp')])
p('C25','Compressed-graph partitions split the vertices exactly',
 'For every list of partition start ids, the partitions of a compressed graph are disjoint consecutive vertex ranges that together contain every vertex exactly once and no others; the partition count, the partition of a vertex and the vertices of a partition agree with one another, and graphs without explicit partitions, including empty graphs, consist of a single partition.',
 ['inputs'],'every vertex count and every increasing list of start ids','Tests check a few partition lists.',
 [C+'compressed_graph.hpp',L+'detail/graph_cpo.hpp'],[('partition_ vector and terminal sentinel',C+'compressed_graph.hpp')])
p('C26','An undirected adjacency list stays consistent under every edit history',
 'After every sequence of creating vertices and edges, erasing edges (through any handle, including mid-iteration), clearing a vertex or the graph, each edge is listed once at each of its two ends (once at a self-loop\'s vertex), vertex degrees, edge counts, emptiness, search and membership agree with the listing, whole-graph edge iteration is consistent, order of the remaining edges is preserved, and values stay attached to their edge.',
 ['histories'],'every operation sequence up to the bound over a small vertex set','Tests run individual operations; link repair depends on the position (head/middle/tail) of the edge in both lists and on self-loops, which needs histories.',
 [C+'undirected_adjacency_list.hpp',C+'detail/undirected_adjacency_list_impl.hpp',C+'detail/undirected_adjacency_list_api.hpp'],[('doubly linked dual-list edges',C+'detail/undirected_adjacency_list_impl.hpp')])
p('C27','Undirected adjacency lists have value semantics and never leak or dangle',
 'Copying, moving, assigning, swapping, clearing and destroying undirected adjacency lists in any state reachable by edits gives copies with exactly the same vertices, edges (whatever their direction of creation) and values that are independent of the source, moved-to graphs with the whole content, moved-from graphs that are empty and reusable, and every edge is released exactly once.',
 ['histories'],'every edit history up to the bound followed by every copy/move/assign/swap/clear sequence','Tests copy one small graph; edges created with descending ids, self-loops and non-empty targets of assignment are not tried.',
 [C+'undirected_adjacency_list.hpp',C+'detail/undirected_adjacency_list_impl.hpp'],[('copy/move constructors and assignment',C+'detail/undirected_adjacency_list_impl.hpp')])
p('C28','The graph query interface answers alike on every graph representation',
 'For every graph and every supported representation (library containers and plain standard containers of ids, pairs, tuples or structs, vector- or map-keyed), the customization points for vertices, ids, lookup, edges, degree, sources, targets, edge membership and search, values, counts and has-edges all give the answers dictated by the abstract graph, by id and by descriptor alike, and misses are reported as absent rather than as some other element; a graph\'s own member or free-function answer is taken before the default.',
 ['inputs','configurations'],'every small graph x representation x query x argument, hits and misses','Tests check each representation on one or two graphs and mostly hits.',
 [L+'detail/graph_cpo.hpp',L+'adjacency_list_concepts.hpp',L+'descriptor_traits.hpp'],[('CPO default implementations',L+'detail/graph_cpo.hpp')])
p('C29','Descriptors identify elements: equality, order, hash and iteration agree',
 'For every graph and representation, vertex and edge descriptors obtained in any way for the same element are equal and hash alike, those of different elements differ, ordering is a strict total order consistent with equality, incrementing walks exactly the stored elements, and resolving a descriptor yields the element it was made for, including edges of different vertices at the same position.',
 ['inputs','configurations'],'every pair of descriptors of every small graph in every representation','Tests compare a few descriptors of one range; cross-vertex and incoming/outgoing mixes are not compared.',
 [L+'vertex_descriptor.hpp',L+'edge_descriptor.hpp',L+'vertex_descriptor_view.hpp',L+'edge_descriptor_view.hpp',L+'descriptor.hpp'],[('descriptor comparison and hashing',L+'edge_descriptor.hpp')])
p('C30','Edge-list queries answer alike on every edge record form',
 'For every edge list made of pairs, tuples, edge records, structured types or descriptors, source, target and value queries return the ids and value stored in that record, edge-list views list the records in order, and an edge list and the graph loaded from it enumerate the same edges.',
 ['inputs','configurations'],'every short edge list x every supported record form','Tests check single records.',
 ['include/graph/edge_list/edge_list.hpp','include/graph/edge_list/edge_list_descriptor.hpp','include/graph/detail/edge_cpo.hpp','include/graph/graph_data.hpp'],[('edge_cpo dispatch','include/graph/detail/edge_cpo.hpp')])
p('C31','Invalid arguments are rejected cleanly',
 'For every call documented to reject invalid arguments - sources or seeds outside the graph, result ranges that are too small, negative weights where they are disallowed, out-of-range element access, unsorted compressed input - the documented exception is thrown, no memory outside the caller\'s ranges is touched, a graph that was only read is unchanged and a graph that was being loaded keeps what it had and stays usable; the corresponding boundary-valid arguments are accepted.',
 ['inputs'],'every argument at and around each boundary on every small graph','Tests throw one invalid argument per function.',
 [A+'dijkstra_shortest_paths.hpp',A+'bellman_ford_shortest_paths.hpp',A+'mst.hpp',C+'dynamic_graph.hpp',C+'compressed_graph.hpp',C+'detail/undirected_adjacency_list_impl.hpp'],[('range checks and throws',A+'dijkstra_shortest_paths.hpp')])
p('C32','Running out of memory or a throwing user callback never corrupts or leaks',
 'Whichever single memory allocation fails, or whichever invocation of a user-supplied visitor, weight, value or output callback throws, during a graph load, edit, copy, view or algorithm, the exception reaches the caller, nothing is leaked or freed twice, graphs that were only read are unchanged, and graphs that were being modified can still be safely iterated, cleared, assigned and destroyed.',
 ['fault_sequences'],'every allocation index and every callback index of every operation in a catalogue over small graphs','No test injects an allocation failure or a throwing callback.',
 [C+'dynamic_graph.hpp',C+'compressed_graph.hpp',C+'undirected_adjacency_list.hpp',C+'detail/undirected_adjacency_list_impl.hpp',A],[('construction/rollback order in create_edge, load_edges, copy',C+'detail/undirected_adjacency_list_impl.hpp')])
p('C33','Reading a graph never changes it, and repeats the same answer',
 'Running any algorithm, view or query on a graph leaves every vertex, edge, value, order and count of it exactly as it was, needs no write access to the memory the graph occupies, and running it again gives the same answer, so a graph may be shared by any number of concurrent readers in any interleaving.',
 ['inputs','schedules'],'every algorithm/view/query x every small graph, with every write to graph memory trapped','Tests never compare a graph before and after an algorithm, nor share one between readers.',
 [A,V,L+'detail/graph_cpo.hpp'],[('const access throughout',L+'detail/graph_cpo.hpp')])
p('C34','No operation takes more time or memory than documented',
 'For every graph, every algorithm, search view, basic view, query and container operation does work within its documented bound: O(1) for counts, lookups by id (O(log V) in ordered maps), degrees and edge ranges of containers that know their size, and for making a view; O(degree) for walking or searching one vertex; O(V + E) for traversals, components, topological orders, loading, copying and clearing; O((V + E) log V) for Dijkstra and Prim, O(E log E) for Kruskal, O(V (V + E)) for Bellman-Ford; O(1) for adding and removing an edge of an undirected list. The extra memory of traversals, components and searches stays O(V), and basic views and queries allocate nothing.',
 ['inputs','configurations'],'every operation x every graph; the defect is a growth rate, not a wrong answer','Tests only compare answers: an accidental walk over all vertices or a rescan of the edges gives the same answers on every test graph.',
 [A,V,C,L+'detail/graph_cpo.hpp',L+'edge_descriptor_view.hpp'],[('stack frames keep their place',A+'articulation_points.hpp'),('lookup by id without walking',L+'detail/graph_cpo.hpp')])
with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for d in P: f.write(json.dumps(d)+'\n')
print(len(P))
