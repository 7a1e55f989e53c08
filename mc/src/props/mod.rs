use crate::engine::Property;
pub mod basic;
pub mod dtf;
pub mod edit;
pub mod io;
pub mod linear;
pub mod maps;
pub mod oracle;

pub fn all() -> Vec<Property> {
    let mc = "model_checking";
    vec![
        Property { id: "C01", level: mc, families: edit::c01, rule: "a case is one operation history (every sequence over the operation alphabet up to the family's length) or one reachable graph state followed by every operation; after each operation all observations are compared with a set model. A state is a distinct (vertex set, edge set, hash order) of the model." },
        Property { id: "C02", level: mc, families: edit::c02, rule: "as C01 for digraphs: every operation history up to the family's length, every reachable state x every operation; all arc observations compared with a set model. A state is a distinct digraph." },
        Property { id: "C03", level: mc, families: edit::c03, rule: "a case is a graph, a survivor, a vertex set and an entry point; the contracted graph is compared edge by edge with the quotient computed from the definition. A state is a distinct (graph, survivor, set)." },
        Property { id: "C04", level: mc, families: basic::c04, rule: "a case is a graph (and ordering, hash order) on which every iterator is drained and compared as a multiset with the model's edges, arcs and neighbourhoods. A state is a distinct labelled graph x order." },
        Property { id: "C05", level: mc, families: basic::c05, rule: "a case is a graph and all of its vertex subsets and radii; balls come from breadth-first search in the model. A state is a distinct graph x subset." },
        Property { id: "C06", level: mc, families: basic::c06, rule: "a case is a pair of graphs over a small label universe; results are compared with set algebra. A state is a distinct pair." },
        Property { id: "C07", level: mc, families: basic::c07, rule: "a case is a pair of graphs (products) or a graph and a count (subdivision); adjacency of every vertex pair is compared with the definition. A state is a distinct operand tuple." },
        Property { id: "C08", level: mc, families: basic::c08, rule: "a case is a tuple of graphs or digraphs; the result is compared edge by edge with a relabelled copy, up to the unspecified choice of fresh labels. A state is a distinct operand tuple." },
        Property { id: "C09", level: mc, families: basic::c09, rule: "a case is one generator with one parameter vector; the result is compared with the documented vertices and edges. A state is a distinct (generator, parameters)." },
        Property { id: "C10", level: mc, families: basic::c10, rule: "a case is a graph (and hash order); components, bipartition and odd-cycle witnesses are checked by definition. A state is a distinct graph x hash order." },
        Property { id: "C11", level: mc, families: linear::c11, rule: "a case is a graph (and hash order); bounds, ordering and core numbers are compared with a quadratic peeling reference. A state is a distinct graph x hash order." },
        Property { id: "C12", level: mc, families: linear::c12, rule: "a case is a graph, an initial ordering and a set of swap histories; after each swap all ordered observations are compared with a permutation model. A state is a distinct (graph, ordering)." },
        Property { id: "C13", level: mc, families: linear::c13, rule: "a case is a graph with an ordering and a set of depths; both compact forms are compared with the model and with reachable sets by exhaustive path search. A state is a distinct ordered graph." },
        Property { id: "C14", level: mc, families: linear::c14, rule: "a case is an ordered graph with all start vertices and radii; reachable sets are compared with a bounded path search from the definition. A state is a distinct ordered graph." },
        Property { id: "C15", level: mc, families: linear::c15, rule: "a case is an ordered graph; the count is compared with Bron-Kerbosch on bit sets and, up to 6 vertices, with the definition over all subsets. A state is a distinct ordered graph." },
        Property { id: "C16", level: mc, families: linear::c16, rule: "a case is an ordered graph with targets and distances; validity is checked pair by pair with exact distances. A state is a distinct (ordered graph, target, distance)." },
        Property { id: "C17", level: mc, families: linear::c17, rule: "a case is an ordered graph with targets and radii; domination, distances and witnesses are checked with exact distances. A state is a distinct (ordered graph, target, radius)." },
        Property { id: "C18", level: mc, families: dtf::c18, rule: "a case is a graph, hash order, lookahead and augmentation plan; after each step all pairs are queried and compared with exact distances. A state is a distinct (graph, hash order, plan, lookahead)." },
        Property { id: "C19", level: mc, families: dtf::c19, rule: "a case is an edit/augment history of an augmentation; after each step all arc observations are compared with one arc set and with walk lengths in the source. A state is a distinct history prefix's arc set." },
        Property { id: "C20", level: mc, families: oracle::c20, rule: "a case is an ordered graph with every (small graphs) or many vertex subsets; traces, neighbour counts and the shatter test are recomputed by bit masks. A state is a distinct ordered graph." },
        Property { id: "C21", level: mc, families: io::c21, rule: "a case is one input text (all strings over an alphabet up to a length, all token lines, boundary-crossing files) with every loading route and way to cut the bytes, or one value saved and loaded back. A state is a distinct input or value." },
        Property { id: "C22", level: "fault_enumeration", families: io::c22, rule: "a case is one value and route with every fault position (read error, write error, short write, truncation, bit flip, file-size limit). An evaluation is one value x fault kind; distinct_nontrivial counts the distinct (value, fault, position) executions, each of which interrupts the operation at a different point." },
        Property { id: "C23", level: mc, families: maps::c23, rule: "a case is one map, colouring, insertion history, pair or triple of colourings, or pair of vertex-or-edge values; results are compared with ordered-map models. A state is a distinct map or tuple." },
    ]
}
