#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is easy to edit)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or [],hook_needed=None)))

p("C01","An editable graph always equals the net effect of its edit history",
 "After any sequence of adding and removing vertices and edges (singly or in bulk), removing loops, removing isolated vertices and copying, an editable undirected graph reports exactly the vertices, edges, adjacencies, neighbours, degrees (a loop counts twice) and counts that the sequence implies. Every edit reports truthfully whether, or how many times, it changed the graph, and two graphs compare equal exactly when they have the same vertices and edges, whatever histories produced them.",
 ["histories","inputs"],"All finite sequences of edit operations over any labels, including repeated, no-op and loop edits and edits on absent vertices, starting from an empty graph or from one that any operation of the library returned.",
 "The unit tests replay a handful of fixed edit sequences; bookkeeping that only drifts after a particular combination (loop removal, re-adding a removed vertex, bulk edits with duplicates) is not reached.",
 ["src/editgraph.rs","src/graph.rs"],
 [("symmetric adjacency plus separately stored degrees and edge counter","src/editgraph.rs: impl MutableGraph for EditGraph"),("bulk defaults","src/graph.rs: trait MutableGraph add_vertices/add_edges/remove_loops/remove_isolates"),("equality and copy","src/editgraph.rs: PartialEq, Clone, FromIterator")],
 ["num_vertices","num_edges","degree","neighbours","adjacent","return values"])
p("C02","An editable digraph always equals the net effect of its edit history",
 "After any sequence of adding and removing vertices and arcs (singly or in bulk), removing loops, removing isolated vertices and copying, an editable digraph reports exactly the vertices, arcs, in- and out-neighbours, in-, out- and total degrees and counts that the sequence implies, and its undirected view (adjacency, set of neighbours) is the union of both directions, the total degree being in-degree plus out-degree. Every edit reports truthfully whether, or how many times, it changed the digraph, and equality means same vertices and same arcs.",
 ["histories","inputs"],"All finite sequences of digraph edit operations over any labels, including antiparallel arcs, loops, no-ops and absent vertices, starting from an empty digraph or from one that any operation of the library returned.",
 "The tests build a few fixed digraphs; the in- and out-side bookkeeping can disagree only after particular removal orders that are never run.",
 ["src/editdigraph.rs","src/graph.rs"],
 [("mirrored in/out adjacency and degree tables","src/editdigraph.rs: impl MutableDigraph for EditDigraph"),("undirected view","src/editdigraph.rs: impl Graph for EditDigraph"),("bulk defaults","src/graph.rs: trait MutableDigraph")],
 ["has_arc","adjacent","in_degree","out_degree","neighbours"])
p("C03","Contraction merges exactly the chosen vertices into one",
 "Contracting or identifying a set of vertices of a loop-free graph into a surviving vertex removes exactly the other members of the set, makes the survivor adjacent to exactly the outside vertices that were adjacent to some member, creates no loop, and leaves every other vertex and edge unchanged. Contracting a pair with a missing vertex, or an empty sequence, panics instead of corrupting the graph.",
 ["inputs","histories"],"All loop-free graphs, all surviving vertices, all vertex sets (given in any order, with repetitions, with or without the survivor), and chains of contractions.",
 "The tests contract a few fixed sets; whether degrees and edge counts stay consistent for overlapping neighbourhoods, repeated members or chained contractions is a statement about all graphs and sets.",
 ["src/editgraph.rs"],
 [("identify neighbourhood then delete","src/editgraph.rs: contract, contract_pair, contract_into")],["graph after the call"])
p("C04","Iterators yield every vertex, edge, arc and neighbourhood exactly once",
 "On every graph, the edge iterator yields each edge exactly once with the smaller endpoint first, the combined vertex-and-edge iterator yields each vertex and each edge (loops included) exactly once, the neighbourhood iterators yield one entry per vertex with exactly its (left, in- or out-) neighbours, and the arc iterator of a digraph yields each arc exactly once in its direction. This holds for the editable, the ordered and the degenerate representation alike.",
 ["inputs"],"All graphs and digraphs (with loops where the representation admits them), all labels, all internal iteration orders.",
 "Tests compare counts on a few named graphs; tie-breaking rules can drop or duplicate an element only for particular label orders, loops or isolated vertices.",
 ["src/iterators.rs"],
 [("tie-breaking on labels","src/iterators.rs: EdgeIterator, MixedIterator"),("per-vertex advance","src/iterators.rs: NeighIterator, DiNeighIterator, ArcIterator, LeftNeighIterator")],["iterator output"])
p("C05","Neighbourhoods, balls and induced subgraphs are exact",
 "For every graph and every set of its vertices, the open and closed neighbourhoods (and for digraphs the in- and out-neighbourhoods) are exactly the sets their definitions give, the ball of radius r is exactly the set of vertices at distance at most r, and the induced subgraph contains exactly the selected vertices and the edges of the graph joining two of them.",
 ["inputs"],"All graphs and digraphs, all vertex subsets (also given with repetitions), all radii including 0 and radii beyond the diameter.",
 "Tests evaluate these on single examples; the defining equalities quantify over all graphs, subsets and radii.",
 ["src/graph.rs"],
 [("set expansion","src/graph.rs: neighbourhood, closed_neighbourhood, r_neighbourhood, r_neighbours, in_neighbourhood, out_neighbourhood"),("induced subgraph","src/graph.rs: subgraph")],["returned sets and graphs"])
p("C06","Complement, union, intersection and subgraph comparison are exact",
 "The complement of a graph has the same vertices and joins two distinct vertices exactly when the graph does not; merging two graphs gives the union of their vertices and edges and intersecting them gives the common vertices and edges. Comparing two graphs reports subgraph, equal, supergraph or incomparable exactly according to inclusion of both vertex and edge sets.",
 ["inputs"],"All graphs and all pairs of graphs, with overlapping, nested or disjoint vertex sets.",
 "Tests use a few named pairs on the same vertex range; the four-way comparison and set identities quantify over all pairs.",
 ["src/operations.rs","src/compare.rs"],
 [("invert, merge, intersect","src/operations.rs: impl GraphOperations"),("two-way inclusion","src/compare.rs: compare_subgraph")],["resulting graphs","comparison verdict"])
p("C07","Graph products and subdivision satisfy their definitions",
 "The cartesian and lexicographic products contain one vertex for every pair of vertices of the factors, the returned map is a bijection onto those pairs, and adjacency is exactly that of the definition (for the lexicographic product, copies of the first graph are placed in the vertices of the second). Subdividing s times replaces every edge by a path (a loop by a closed path, s at least 2) with exactly s fresh inner vertices, keeps all original vertices including isolated ones, and adds nothing else.",
 ["inputs"],"All pairs of factor graphs including empty, edgeless, disconnected ones and ones with loops; all graphs and subdivision counts including 0.",
 "Tests check a few products of small named graphs by edge counts; factors with isolated vertices, empty factors or repeated subdivision counts are not covered.",
 ["src/operations.rs"],
 [("pair-to-id map and adjacency loops","src/operations.rs: lexicographic_product, cartesian_product"),("fresh id allocation","src/operations.rs: subdivide")],["product graph and map"])
p("C08","Disjoint union and relabelling preserve structure",
 "The disjoint union of graphs or digraphs keeps the first operand unchanged and adds a disjoint isomorphic copy of each further operand, with arc directions preserved and no edges in between. Normalising relabels the vertices to 0..n-1 in their original order, returns the map from new to old labels, and preserves every edge, loop and arc direction.",
 ["inputs"],"All (sequences of) graphs and digraphs with arbitrary labels that leave room for relabelling, including empty and edgeless ones.",
 "Tests check sizes for a few named unions; structure preservation including directions, loops and isolated vertices is quantified over all graphs.",
 ["src/editgraph.rs","src/editdigraph.rs"],
 [("label offset","src/editgraph.rs, src/editdigraph.rs: disj_union, disj_unions"),("order-preserving relabelling","src/editgraph.rs, src/editdigraph.rs: normalize")],["resulting graphs","label map"])
p("C09","Named graph generators build exactly the graphs they name, at every size",
 "For every size, degenerate sizes included, the generators for paths, cycles, matchings, stars, cliques, independent sets, bicliques, complete k-partite graphs and grids (and their directed versions) return a graph with exactly the documented vertices, numbered from 0, and exactly the documented edges or arcs. They never panic for sizes that fit in memory.",
 ["inputs","configurations"],"All sizes (and tuples of sizes) including 0 and 1.",
 "Doc tests show one size per generator and unit tests a few edge cases of two generators; each generator is a claim for every size.",
 ["src/editgraph.rs","src/editdigraph.rs"],
 [("loops over index ranges","src/editgraph.rs: path..grid, complete_kpartite"),("directed versions","src/editdigraph.rs: path..grid")],["generated graphs"])
p("C10","Connected components and bipartiteness witnesses are correct",
 "The components of a graph partition its vertices, each is connected, and no edge joins two of them. The bipartiteness test returns, for a bipartite graph, a partition of all vertices whose parts contain no edge, and otherwise a cycle of odd length: distinct vertices, consecutive ones (and last and first) adjacent.",
 ["inputs"],"All graphs (including loops, isolated vertices and several components) and all internal iteration orders.",
 "Tests run on single named graphs with the process's own hash order; which spanning structure is explored, and hence which witness is produced, depends on the order.",
 ["src/algorithms/graph.rs"],
 [("union-find","src/algorithms/graph.rs: components"),("parent pointers and walk-back to an odd cycle","src/algorithms/graph.rs: is_bipartite")],["returned components and witness"])
p("C11","Degeneracy bounds, ordering and core numbers are sound",
 "For every loop-free graph the returned ordering is a permutation of the vertices, the reported lower and upper bounds enclose the true degeneracy, and no vertex has more earlier neighbours in the ordering than the upper bound. Every reported core number is at least the true core number and at most the upper bound, and for graphs with all degrees below 128 the bounds and core numbers are exact.",
 ["inputs"],"All loop-free graphs, from empty to those with degrees above the bucketing threshold, and all internal iteration orders.",
 "Tests check a few resource networks; the bucket arithmetic changes regime at degree 128 and above and tie-breaking follows hash order.",
 ["src/algorithms/graph.rs"],
 [("exponential degree buckets","src/algorithms/graph.rs: degeneracy / calc_index")],["bounds","ordering","core numbers"])
p("C12","An ordered graph stays consistent with its graph and ordering under swaps",
 "An ordered graph built from any graph and any ordering, and then changed by any sequence of position swaps, has exactly the source graph's edges, reports for every vertex its position, and splits its neighbours into exactly those before and those after it, each list in the order of the graph. Left and right degrees, their maxima and maps, leftmost and rightmost queries and vertex iteration all agree with the current ordering; swapping an absent vertex or a vertex with itself changes nothing.",
 ["histories","inputs"],"All loop-free graphs, all orderings, all sequences of swaps (adjacent, non-adjacent, absent and equal pairs).",
 "Tests perform a couple of swaps on one graph; the incremental left/right update is only wrong for specific adjacency patterns of the swapped pair and their neighbours.",
 ["src/ordgraph.rs","src/graph.rs"],
 [("incremental repartition of neighbourhoods","src/ordgraph.rs: swap"),("construction","src/ordgraph.rs: with_ordering, by_degeneracy"),("derived queries","src/graph.rs: trait LinearGraph")],["index_of","left_neighbours","right_neighbours","degrees"])
p("C13","Compact degenerate and reachability graphs represent their source exactly",
 "The compact degenerate graph and the reachability graph built from an ordered graph contain the same vertices in the same order, the same edges and degrees, and for every vertex exactly its left neighbours, respectively its reachable vertices grouped by their exact distance, listed in the order of the graph. Normalising a degenerate graph renames vertices to their positions, returns the inverse map and changes nothing else; all of this includes empty and edgeless graphs.",
 ["inputs","configurations"],"All loop-free graphs, all orderings, all reachability depths, weak and strong reachability.",
 "Tests inspect a few small examples; the packed layouts hold many adjacent variable-length segments whose boundaries fail only for particular (e.g. empty) segments.",
 ["src/degengraph.rs","src/reachgraph.rs","src/ordgraph.rs"],
 [("packed segment layout with unchecked reads","src/degengraph.rs: DegenGraphBuilder, iterators, normalize"),("packed segments per distance","src/reachgraph.rs: ReachGraphBuilder::append, reachables_at"),("conversion","src/ordgraph.rs: to_degeneracy_graph, to_wreach_graph, to_sreach_graph")],["vertices, adjacency, segments"])
p("C14","Strongly and weakly reachable sets are exact for every radius",
 "For every ordered graph and radius r, the strongly (weakly) r-reachable set of a vertex contains exactly the vertices reachable by a path of length at most r whose only vertex before the start (whose leftmost vertex) is the target, each with the exact minimum length of such a path. The size-only variants agree, and a right-search from a vertex returns exactly its distance layers among the vertices after it.",
 ["inputs"],"All loop-free graphs, all orderings, all radii including 0.",
 "Tests compare a few hand-picked vertices; exact distances quantify over all graphs, orderings and radii.",
 ["src/algorithms/lineargraph.rs"],
 [("restricted breadth-first search","src/algorithms/lineargraph.rs: right_bfs, sreach_set(s), wreach_sets, sizes")],["returned maps"])
p("C15","The number of maximal cliques is exact",
 "For every loop-free graph and every ordering, the reported number of maximal cliques equals the true number, counting isolated vertices and edges that lie in no triangle; the count does not depend on the ordering or the representation used.",
 ["inputs"],"All loop-free graphs, orderings and internal iteration orders.",
 "Tests cover a few named graphs where pivoting never prunes a wrong branch; a wrong pivot rule miscounts only on particular small graphs.",
 ["src/algorithms/lineargraph.rs"],
 [("pivoted recursive enumeration with prefix removal","src/algorithms/lineargraph.rs: count_max_cliques, bk_pivot_count")],["returned count"])
p("C16","Greedy and scattered colourings are valid",
 "The greedy colouring gives every vertex a colour, never the same colour to two adjacent vertices, and uses at most one colour more than the largest left neighbourhood. The scattered colouring partitions exactly the target vertices into non-empty classes in which any two vertices are at distance at least the requested distance.",
 ["inputs"],"All loop-free graphs, orderings, distances and target sets (given in any order, with repetitions), and all internal iteration orders.",
 "Tests check one or two networks and a single distance; failures need particular neighbourhood colour patterns or odd distances.",
 ["src/algorithms/lineargraph.rs"],
 [("first-fit colour search","src/algorithms/lineargraph.rs: colour_greedy"),("rounds of dominating sets plus class merging","src/algorithms/lineargraph.rs: scattered_colouring, small_distance_sets")],["returned colours and classes"])
p("C17","Dominating sets dominate, with correct distances and scattered witness",
 "The computed r-dominating set consists of vertices of the graph and has a member within distance r of every target vertex; the returned map gives the distance of each vertex to the set (every vertex that can reach the set is listed). If a witness is requested, its colouring covers only members of the dominating set and any two vertices of equal colour are at distance at least 2r+1; a dominating set is also no larger than the approximation promises: at most opt * c * ((2r)^2 + 2 + c) members, where opt is the size of a smallest set r-dominating the targets and c the largest number of vertices (itself included) that one vertex weakly r-reaches, respectively that have an arc of weight at most r to it. All of this holds for the ordering-based and, as far as it applies, the augmentation-based algorithm.",
 ["inputs"],"All loop-free graphs, orderings, radii, target sets (given in any order, with repetitions) and internal iteration orders.",
 "Tests validate domination on a few networks, with targets only once; distances and witnesses are unchecked, and the promotion of frequently used centres only triggers on special shapes.",
 ["src/algorithms/lineargraph.rs","src/dtfgraph.rs"],
 [("distance propagation over weakly reachable sets","src/algorithms/lineargraph.rs: domset, domset_with_target"),("distance propagation over augmentation arcs","src/dtfgraph.rs: DTFGraph::domset")],["set, distance map, witness colouring"])
p("C18","Distance queries on the augmentation are exact up to its depth",
 "After augmenting any loop-free graph to depth d, with any lookahead setting, in any number of steps and with layers viewed in between, a distance query for two vertices returns their exact distance whenever it is at most d, zero for a vertex and itself, and no answer whenever their distance exceeds d or they are not connected.",
 ["inputs","configurations","histories"],"All loop-free graphs, all depths and lookahead parameters, all ways of reaching a depth through successive augmentations, all internal iteration orders.",
 "The existing distance test is disabled and others check one network; whether every short path is covered by transitive and fraternal arcs depends on the orientation chosen.",
 ["src/dtfgraph.rs","src/iterators.rs"],
 [("transitive and fraternal augmentation","src/dtfgraph.rs: augment, _trans_tails, _frat_pairs, orient_deep"),("query","src/dtfgraph.rs: small_distance, get_arc_depth")],["small_distance"])
p("C19","The augmentation's arcs, layers, degrees and counts agree with each other",
 "After any sequence of adding vertices and weighted arcs, augmenting and viewing layers, the arc iterators list every stored arc exactly once in its direction (overall and per weight), and in-neighbours, degrees, per-weight counts, layer views, arc weights and the undirected conversion all describe that same set of arcs. Orienting a graph yields exactly one arc per edge, taking an edge subgraph keeps exactly the arcs of the given edges, augmenting never changes existing arcs and only adds arcs weighted with the length of some walk between their ends (never loops, if the graph has none), and viewing a layer changes nothing.",
 ["histories","inputs"],"All loop-free graphs and all sequences of public operations on the augmentation, all depths and lookahead settings.",
 "Tests check counters after one build; iterators with label tie-breaks, depth changes through views and per-layer queries are not compared against each other.",
 ["src/dtfgraph.rs","src/iterators.rs"],
 [("per-weight arc sets with separate counters","src/dtfgraph.rs: DTFNode, add_arc, reserve_depth, num_arcs_at_depth"),("iterators","src/iterators.rs: DTFNIterator, DTFArcIterator"),("layer views","src/dtfgraph.rs: DTFLayer")],["arcs","arcs_at","layer","degrees","counts"])
p("C20","The trace oracle counts neighbourhood traces exactly",
 "For every degenerate graph and every set of its vertices listed in graph order, the oracle's trace counts equal, for each subset, the number of vertices outside the set whose neighbourhood meets the set in exactly that subset, and the neighbour count equals the number of outside vertices with a neighbour in the set. The shatter test with parameter k holds exactly when each subset of the set is the trace of at least 2^(k-|set|) outside vertices.",
 ["inputs"],"All loop-free graphs, orderings and vertex subsets.",
 "Tests compare against brute force on a few sets; the counting corrects over-counts with unchecked map accesses whose preconditions depend on graph, ordering and set together.",
 ["src/datastructures/sreach_trace_oracle.rs"],
 [("context bitsets and prefix corrections","src/datastructures/sreach_trace_oracle.rs: for_graph, compute_traces, compute_neighbour_count, is_shattered")],["returned counts"])
p("C21","Saving and loading round-trips; all loaders agree on every input",
 "Writing a graph, vertex set or vertex list as text or gzip and reading it back gives an equal value (for graphs: all edges, and all vertices that have an edge). Every loading route accepts exactly the inputs whose lines are in the documented format, yields the value those lines describe independent of how the bytes arrive, and reports an invalid-data error otherwise.",
 ["inputs"],"All graphs, vertex sets and lists, all input texts (lines of any length, compressed files of any number of members), all ways in which a reader may chunk its bytes.",
 "Tests read fixed resource files and write one graph; malformed lines, numeric limits, blank lines, chunk boundaries and the disagreement between separately written readers are not covered.",
 ["src/io.rs"],
 [("two separate edge-list parsers plus two list parsers","src/io.rs: from_buf_with_estimate, from_buf"),("writers","src/io.rs: WriteToFile"),("format dispatch","src/io.rs: open_reader")],["loaded value or error"])
p("C22","I/O failures are reported as errors, never as panics or partial success",
 "If reading fails at any byte, the data is cut off inside the compressed stream, damaged or not valid text, or a file is missing, a directory or of unknown type, loading returns an error and never panics or returns a partial value. If writing fails at any byte, up to and including the final compressed bytes, saving returns an error, and success means that the complete data was handed to the file.",
 ["fault_sequences","crash_points"],"Every position at which a read, write, flush or compressed stream can fail, for all supported value types and routes.",
 "No test injects an I/O fault; the failing position is a quantifier over the whole byte stream.",
 ["src/io.rs"],
 [("error propagation from line iterators","src/io.rs: from_buf*"),("buffered and compressed writers finished on drop","src/io.rs: write_txt, write_gzipped, write_buf")],["Result of load/save","bytes on disk"])
p("C23","Vertex maps, colourings and vertex-or-edge values obey their algebra",
 "Inverting a vertex map groups exactly the vertices with equal value, the majority set is a largest such group and is absent only for an empty map, and colourings report exactly the inserted vertices, colours and restrictions. Extending a colouring disjointly keeps existing entries, adds every missing vertex, gives new vertices no colour used before and preserves which of them share a colour; the intersection of two vertices or edges is exactly what they have in common.",
 ["inputs","histories"],"All vertex maps and integer colourings (negative colours included), all pairs of vertices and edges.",
 "Tests use one hand-written map and colouring; overlapping, empty and non-contiguous colour sets and equal or reversed edges are quantified over.",
 ["src/graph.rs"],
 [("grouping","src/graph.rs: VertexMapOperations"),("colour offset","src/graph.rs: VertexColouring::disjoint_extend, subset, from_sets"),("case analysis","src/graph.rs: VertexOrEdge::intersection")],["returned sets, maps and values"])

out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P),"properties")
