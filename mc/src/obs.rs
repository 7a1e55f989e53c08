//! Observers: compare everything a graph object reports with the model.
use crate::engine::*;
use crate::space::*;
use crate::{ck, ck_eq};
use fxhash::FxHashSet;
use graphbench::editdigraph::EditDigraph;
use graphbench::editgraph::EditGraph;
use graphbench::graph::*;
use graphbench::iterators::*;

/// An iterator that says nothing about its length, as a filter or a generator would.
pub struct Plain<I>(I);
pub fn plain<T: IntoIterator>(t: T) -> Plain<T::IntoIter> { Plain(t.into_iter()) }
impl<I: Iterator> Iterator for Plain<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> { self.0.next() }
}
pub fn sorted<I: IntoIterator<Item = u32>>(it: I) -> Vec<u32> { let mut v: Vec<u32> = it.into_iter().collect(); v.sort_unstable(); v }
pub fn sset(s: &FxHashSet<u32>) -> Vec<u32> { sorted(s.iter().cloned()) }
pub fn spairs<I: IntoIterator<Item = (u32, u32)>>(it: I) -> Vec<(u32, u32)> { let mut v: Vec<_> = it.into_iter().collect(); v.sort_unstable(); v }
/// A few labels that are not vertices.
pub fn outside(ls: &[u32]) -> Vec<u32> {
    let known: FxHashSet<u32> = ls.iter().cloned().collect();
    [0u32, 1, 7, 77_777, u32::MAX, 1 << 31].into_iter().chain(ls.iter().map(|x| x.wrapping_add(1))).filter(|x| !known.contains(x)).take(3).collect()
}

/// Vertices, counts, adjacency, degrees and neighbours against the model.
pub fn check_graph<G: Graph>(cx: &mut Ctx, g: &G, m: &MG) -> Res { check_graph_opt(cx, g, m, true, true) }
/// `nbs`: neighbours() supported; `absent`: queries about labels outside the graph are supported.
pub fn check_graph_opt<G: Graph>(cx: &mut Ctx, g: &G, m: &MG, nbs: bool, absent: bool) -> Res {
    let n = m.n();
    ck_eq!(cx, g.num_vertices(), n, "number of vertices");
    ck_eq!(cx, g.len(), n, "len");
    ck_eq!(cx, g.is_empty(), n == 0, "is_empty");
    ck_eq!(cx, g.num_edges(), m.m(), "number of edges");
    ck_eq!(cx, sorted(g.vertices().cloned()), m.slabels(), "vertices (each once)");
    for i in 0..n {
        let u = m.l(i);
        ck!(cx, g.contains(&u), "contains({u}) is false");
        ck_eq!(cx, g.degree(&u) as usize, m.deg(i), "degree of {u}");
        if nbs { ck_eq!(cx, sorted(g.neighbours(&u).cloned()), m.lnb(i), "neighbours of {u}"); }
        if n <= 64 {
            for j in 0..n { ck_eq!(cx, g.adjacent(&u, &m.l(j)), m.adj(i, j), "adjacent({u},{})", m.l(j)); }
        } else {
            for &j in &m.nb[i] { ck!(cx, g.adjacent(&u, &m.l(j)), "adjacent({u},{}) is false", m.l(j)); }
            for j in [0, i, n / 2, n - 1, (i + 1) % n, (i * 7 + 3) % n] { ck_eq!(cx, g.adjacent(&u, &m.l(j)), m.adj(i, j), "adjacent({u},{})", m.l(j)); }
        }
    }
    if n <= 64 {
        let ds = g.degrees();
        ck_eq!(cx, ds.len(), n, "size of degrees()");
        for i in 0..n { ck_eq!(cx, ds.get(&m.l(i)).map(|x| *x as usize), Some(m.deg(i)), "degrees()[{}]", m.l(i)); }
    }
    if absent {
        for x in outside(&m.labels) {
            ck!(cx, !g.contains(&x), "contains({x}) for an absent vertex");
            for i in 0..n.min(4) {
                ck!(cx, !g.adjacent(&x, &m.l(i)) && !g.adjacent(&m.l(i), &x), "absent vertex {x} adjacent to {}", m.l(i));
            }
            ck!(cx, !g.adjacent(&x, &x), "absent vertex {x} adjacent to itself");
        }
    }
    Ok(())
}
/// Only vertex set and edge set, read through vertices/adjacent/num_edges.
pub fn check_same<G: Graph>(cx: &mut Ctx, g: &G, m: &MG, what: &str) -> Res {
    check_graph(cx, g, m).map_err(|e| format!("{what}: {e}"))
}
/// The graph a G reports, as a model with sorted labels (for results whose labels are not fixed).
pub fn read_graph<G: Graph>(g: &G) -> MG {
    let ls = sorted(g.vertices().cloned());
    let mut e = vec![];
    for i in 0..ls.len() { for j in i..ls.len() { if g.adjacent(&ls[i], &ls[j]) { e.push((i, j)); } } }
    MG::new(ls.len(), &e).with_labels(ls)
}
pub fn check_digraph<D: Digraph>(cx: &mut Ctx, g: &D, m: &DG) -> Res {
    let n = m.n();
    ck_eq!(cx, g.num_vertices(), n, "number of vertices");
    ck_eq!(cx, g.len(), n, "len");
    ck_eq!(cx, g.is_empty(), n == 0, "is_empty");
    ck_eq!(cx, g.num_edges(), m.arcs.len(), "number of arcs");
    let mut ls = m.labels.clone();
    ls.sort_unstable();
    ck_eq!(cx, sorted(g.vertices().cloned()), ls, "vertices (each once)");
    for i in 0..n {
        let u = m.l(i);
        let o = sorted(m.out[i].iter().map(|&j| m.l(j)));
        let ii = sorted(m.inn[i].iter().map(|&j| m.l(j)));
        ck!(cx, g.contains(&u), "contains({u}) is false");
        ck_eq!(cx, g.out_degree(&u) as usize, o.len(), "out-degree of {u}");
        ck_eq!(cx, g.in_degree(&u) as usize, ii.len(), "in-degree of {u}");
        ck_eq!(cx, g.degree(&u) as usize, o.len() + ii.len(), "degree of {u}");
        ck_eq!(cx, sorted(g.out_neighbours(&u).cloned()), o, "out-neighbours of {u}");
        ck_eq!(cx, sorted(g.in_neighbours(&u).cloned()), ii, "in-neighbours of {u}");
        let mut both: Vec<u32> = o.iter().chain(ii.iter()).cloned().collect();
        both.sort_unstable();
        both.dedup();
        for (w, x) in [("Graph", sorted(Graph::neighbours(g, &u).cloned())), ("Digraph", sorted(Digraph::neighbours(g, &u).cloned()))] {
            let mut s = x.clone();
            s.dedup();
            ck_eq!(cx, s, both, "{w} neighbours of {u} as a set");
        }
        let js: Vec<usize> = if n <= 300 { (0..n).collect() } else { m.out[i].iter().chain(&m.inn[i]).cloned().chain([0, i, n / 2, n - 1, (i + 1) % n, (i * 7 + 3) % n]).collect() };
        for j in js {
            let v = m.l(j);
            ck_eq!(cx, g.has_arc(&u, &v), m.has(i, j), "has_arc({u},{v})");
            ck_eq!(cx, g.adjacent(&u, &v), m.has(i, j) || m.has(j, i), "adjacent({u},{v})");
        }
    }
    if n <= 32 {
        let (a, b, c) = (g.degrees(), g.in_degrees(), g.out_degrees());
        ck!(cx, a.len() == n && b.len() == n && c.len() == n, "degree maps have sizes {} {} {}", a.len(), b.len(), c.len());
        for i in 0..n {
            let u = m.l(i);
            ck_eq!(cx, (a.get(&u).cloned(), b.get(&u).cloned(), c.get(&u).cloned()),
                (Some((m.out[i].len() + m.inn[i].len()) as u32), Some(m.inn[i].len() as u32), Some(m.out[i].len() as u32)), "degree maps at {u}");
        }
    }
    for x in outside(&m.labels) {
        ck!(cx, !g.contains(&x), "contains({x}) for an absent vertex");
        for i in 0..n.min(4) {
            let u = m.l(i);
            ck!(cx, !g.has_arc(&x, &u) && !g.has_arc(&u, &x) && !g.adjacent(&x, &u) && !g.adjacent(&u, &x), "absent vertex {x} has an arc with {u}");
        }
    }
    Ok(())
}
/// Position of vertices, left/right neighbourhoods and derived queries of a linear graph whose
/// ordering is the position order of the model.
pub fn check_linear<L: LinearGraph>(cx: &mut Ctx, g: &L, m: &MG) -> Res {
    let n = m.n();
    let order: Vec<u32> = g.vertices().cloned().collect();
    ck_eq!(cx, order, m.labels, "vertex order");
    let mut last = None;
    let (mut ml, mut mr) = (0, 0);
    for i in 0..n {
        let u = m.l(i);
        let ix = g.index_of(&u);
        ck!(cx, last.is_none_or(|l| l < ix), "index_of({u})={ix} is not above its predecessor's {last:?}");
        last = Some(ix);
        let left = sorted(m.nb[i].iter().filter(|&&j| j < i).map(|&j| m.l(j)));
        let right = m.nb[i].iter().filter(|&&j| j > i).count();
        ml = ml.max(left.len());
        mr = mr.max(right);
        ck_eq!(cx, sorted(g.left_neighbours(&u)), left, "left neighbours of {u}");
        ck_eq!(cx, g.left_degree(&u) as usize, left.len(), "left degree of {u}");
        ck_eq!(cx, g.right_degree(&u) as usize, right, "right degree of {u}");
    }
    ck_eq!(cx, g.max_left_degree() as usize, ml, "max_left_degree");
    ck_eq!(cx, g.max_right_degree() as usize, mr, "max_right_degree");
    if n <= 64 {
        let (a, b) = (g.left_degrees(), g.right_degrees());
        ck!(cx, a.len() == n && b.len() == n, "left/right degree maps have sizes {} {}", a.len(), b.len());
        for i in 0..n {
            let l = m.nb[i].iter().filter(|&&j| j < i).count() as u32;
            let r = m.nb[i].iter().filter(|&&j| j > i).count() as u32;
            ck_eq!(cx, (a.get(&m.l(i)).cloned(), b.get(&m.l(i)).cloned()), (Some(l), Some(r)), "left/right degree map at {}", m.l(i));
        }
    }
    Ok(())
}
/// Left neighbourhoods are listed in the order of the graph.
pub fn check_left_order<L: LinearGraph>(cx: &mut Ctx, g: &L, m: &MG) -> Res {
    for i in 0..m.n() {
        let mut left: Vec<usize> = m.nb[i].iter().cloned().filter(|&j| j < i).collect();
        left.sort_unstable();
        let left: Vec<u32> = left.into_iter().map(|j| m.l(j)).collect();
        ck_eq!(cx, g.left_neighbours(&m.l(i)), left, "left neighbours of {} in the order of the graph", m.l(i));
    }
    Ok(())
}
pub fn check_left_iter<L: LinearGraph>(cx: &mut Ctx, g: &L, m: &MG) -> Res {
    let got: Vec<(u32, Vec<u32>)> = g.left_neighbourhoods().map(|(v, x)| (v, sorted(x))).collect();
    let want: Vec<(u32, Vec<u32>)> = (0..m.n()).map(|i| (m.l(i), sorted(m.nb[i].iter().filter(|&&j| j < i).map(|&j| m.l(j))))).collect();
    ck_eq!(cx, got, want, "left_neighbourhoods()");
    Ok(())
}

/// A graph some operation returned is as good as one built by hand: it equals one, and a round of
/// edits (labels `gone` that were there before, every edge and vertex out and in again) has the
/// effects it should.
pub fn lives_on(cx: &mut Ctx, mut g: EditGraph, m: &MG, gone: &[u32]) -> Res {
    let w = |e: String| format!("after further edits: {e}");
    let fresh = m.edit();
    ck!(cx, g == fresh && fresh == g, "the graph differs from one built by hand with the same contents");
    ck!(cx, g.clone() == fresh, "a copy of the graph differs from one built by hand");
    let mut x: Vec<u32> = gone.to_vec();
    x.extend(outside(&m.labels).into_iter().take(1));
    x.retain(|l| !m.labels.contains(l));
    x.sort();
    x.dedup();
    // the labels come back, each with an edge to the first vertex and a loop
    let mut ls = m.labels.clone();
    let mut es = m.edges.clone();
    for &l in &x {
        ck!(cx, g.add_vertex(&l) && g.degree(&l) == 0, "vertex {l} not new when added after the operation");
        ls.push(l);
        let p = ls.len() - 1;
        ck!(cx, g.add_edge(&l, &l), "loop at {l} not new when added after the operation");
        es.push((p, p));
        if p > 0 { ck!(cx, g.add_edge(&l, &ls[0]), "edge {l} {} not new when added after the operation", ls[0]); es.push((0, p)); }
    }
    check_graph(cx, &g, &MG::new(ls.len(), &es).with_labels(ls.clone())).map_err(w)?;
    for &l in &x { ck!(cx, g.remove_vertex(&l), "vertex {l} could not be removed again"); }
    ck!(cx, g == fresh, "the graph did not return to what it was after adding and removing vertices");
    for (a, b) in m.ledges() {
        ck!(cx, g.remove_edge(&b, &a) && !g.remove_edge(&a, &b), "removing edge {a} {b} after the operation");
        ck!(cx, g.add_edge(&b, &a) && !g.add_edge(&a, &b), "adding edge {a} {b} after the operation");
    }
    check_graph(cx, &g, m).map_err(w)?;
    let loops = m.edges.iter().filter(|e| e.0 == e.1).count();
    ck_eq!(cx, g.remove_loops(), loops, "loops removed after the operation");
    let iso = (0..m.n()).filter(|&i| m.nb[i].iter().all(|&j| j == i)).count();
    ck_eq!(cx, g.remove_isolates(), iso, "isolates removed after the operation");
    ck_eq!(cx, (g.num_vertices(), g.num_edges()), (m.n() - iso, m.m() - loops), "size without loops and isolates");
    for l in &m.labels { g.remove_vertex(l); }
    ck!(cx, g == EditGraph::new() && g.num_edges() == 0, "not empty after every vertex was removed");
    Ok(())
}
/// As `lives_on` for digraphs.
pub fn lives_on_d(cx: &mut Ctx, mut g: EditDigraph, m: &DG) -> Res {
    let w = |e: String| format!("after further edits: {e}");
    let fresh = m.edit();
    ck!(cx, g == fresh && fresh == g, "the digraph differs from one built by hand with the same contents");
    ck!(cx, g.clone() == fresh, "a copy of the digraph differs from one built by hand");
    let x = outside(&m.labels)[0];
    ck!(cx, g.add_vertex(&x) && g.add_arc(&x, &x), "vertex {x} not new when added after the operation");
    let mut ls = m.labels.clone();
    ls.push(x);
    let mut es = m.arcs.clone();
    es.push((m.n(), m.n()));
    if m.n() > 0 { ck!(cx, g.add_arc(&x, &ls[0]) && g.add_arc(&ls[m.n() - 1], &x), "arcs at {x} not new when added after the operation"); es.extend([(m.n(), 0), (m.n() - 1, m.n())]); }
    check_digraph(cx, &g, &DG::new(ls.len(), &es).with_labels(ls)).map_err(w)?;
    ck!(cx, g.remove_vertex(&x), "vertex {x} could not be removed again");
    for (a, b) in m.larcs() {
        ck!(cx, g.remove_arc(&a, &b) && !g.remove_arc(&a, &b), "removing arc {a} {b} after the operation");
        ck!(cx, g.add_arc(&a, &b) && !g.add_arc(&a, &b), "adding arc {a} {b} after the operation");
    }
    check_digraph(cx, &g, m).map_err(w)?;
    let loops = m.arcs.iter().filter(|e| e.0 == e.1).count();
    ck_eq!(cx, g.remove_loops(), loops, "loops removed after the operation");
    let iso = (0..m.n()).filter(|&i| m.out[i].iter().chain(&m.inn[i]).all(|&j| j == i)).count();
    ck_eq!(cx, g.remove_isolates(), iso, "isolates removed after the operation");
    ck_eq!(cx, (g.num_vertices(), g.num_edges()), (m.n() - iso, m.arcs.len() - loops), "size without loops and isolates");
    for l in &m.labels { g.remove_vertex(l); }
    ck!(cx, g == EditDigraph::new() && g.num_edges() == 0, "not empty after every vertex was removed");
    Ok(())
}
/// The digraph a D reports, as a model with sorted labels.
pub fn read_digraph<D: Digraph>(g: &D) -> DG {
    let ls = sorted(g.vertices().cloned());
    let mut e = vec![];
    for i in 0..ls.len() { for j in 0..ls.len() { if g.has_arc(&ls[i], &ls[j]) { e.push((i, j)); } } }
    DG::new(ls.len(), &e).with_labels(ls)
}
