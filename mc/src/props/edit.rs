//! C01, C02, C03: edit histories of EditGraph and EditDigraph, contraction.
use crate::engine::*;
use crate::space::*;
use crate::obs::*;
use crate::{ck, ck_eq};
use graphbench::editdigraph::EditDigraph;
use graphbench::editgraph::EditGraph;
use graphbench::dtfgraph::DTFGraph;
use graphbench::graph::*;
use graphbench::io::*;
use graphbench::iterators::*;
use graphbench::operations::*;
use std::collections::BTreeSet;

// ------------------------------------------------------------------ C01
/// Model of an editable graph: present labels and edges as unordered pairs of universe indices.
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord, Default)]
struct M1 { v: BTreeSet<usize>, e: BTreeSet<(usize, usize)> }
impl M1 {
    fn av(&mut self, a: usize) -> bool { self.v.insert(a) }
    fn ae(&mut self, a: usize, b: usize) -> bool { self.v.insert(a); self.v.insert(b); self.e.insert((a.min(b), a.max(b))) }
    fn re(&mut self, a: usize, b: usize) -> bool { self.e.remove(&(a.min(b), a.max(b))) }
    fn rv(&mut self, a: usize) -> bool { self.e.retain(|&(x, y)| x != a && y != a); self.v.remove(&a) }
    fn mg(&self, uni: &[u32]) -> MG {
        let vs: Vec<usize> = self.v.iter().cloned().collect();
        let pos = |x: usize| vs.iter().position(|&y| y == x).unwrap();
        MG::new(vs.len(), &self.e.iter().map(|&(a, b)| (pos(a), pos(b))).collect::<Vec<_>>()).with_labels(vs.iter().map(|&x| uni[x]).collect())
    }
}
#[derive(Clone, Debug)]
enum Op { AV(usize), RV(usize), AE(usize, usize), RE(usize, usize), RL, RI, Clone, AVs(Vec<usize>), AEs(Vec<(usize, usize)>), Rebuild }
fn ops(k: usize) -> Vec<Op> {
    let mut o = vec![];
    for a in 0..k { o.push(Op::AV(a)); o.push(Op::RV(a)); }
    for a in 0..k { for b in 0..k { o.push(Op::AE(a, b)); o.push(Op::RE(a, b)); } }
    let z = k - 1;
    o.extend([Op::RL, Op::RI, Op::Clone, Op::Rebuild, Op::AVs(vec![0, z, 0]), Op::AVs((0..k).collect()), Op::AEs(vec![(0, z), (z, 0), (0, 0)]),
        Op::AEs((0..k).flat_map(|a| (a..k).map(move |b| (a, b))).collect()), Op::AEs(vec![])]);
    o
}
fn apply1(cx: &mut Ctx, g: &mut EditGraph, m: &mut M1, op: &Op, uni: &[u32]) -> Res {
    match op {
        Op::AV(a) => ck_eq!(cx, g.add_vertex(&uni[*a]), m.av(*a), "return value of {op:?}"),
        Op::RV(a) => ck_eq!(cx, g.remove_vertex(&uni[*a]), m.rv(*a), "return value of {op:?}"),
        Op::AE(a, b) => ck_eq!(cx, g.add_edge(&uni[*a], &uni[*b]), m.ae(*a, *b), "return value of {op:?}"),
        Op::RE(a, b) => ck_eq!(cx, g.remove_edge(&uni[*a], &uni[*b]), m.re(*a, *b), "return value of {op:?}"),
        Op::RL => {
            let k = m.e.len();
            m.e.retain(|&(a, b)| a != b);
            ck_eq!(cx, g.remove_loops(), k - m.e.len(), "number of loops removed")
        }
        Op::RI => {
            let iso: Vec<usize> = m.v.iter().cloned().filter(|&x| !m.e.iter().any(|&(a, b)| a == x || b == x)).collect();
            for x in &iso { m.v.remove(x); }
            ck_eq!(cx, g.remove_isolates(), iso.len(), "number of isolates removed")
        }
        Op::Clone => {
            let c = g.clone();
            ck!(cx, c == *g && *g == c, "a copy differs from its original");
            *g = c;
        }
        Op::Rebuild => {
            let c: EditGraph = m.e.iter().map(|&(a, b)| (uni[b], uni[a])).collect();
            let mut c2 = c.clone();
            c2.add_vertices(plain(m.v.iter().map(|&a| uni[a])));
            ck!(cx, c2 == *g, "graph rebuilt from its edges and vertices differs");
        }
        Op::AVs(v) => {
            let want = v.iter().filter(|&&a| m.av(a)).count() as u32;
            ck_eq!(cx, g.add_vertices(v.iter().map(|&a| uni[a])), want, "return value of {op:?}")
        }
        Op::AEs(v) => {
            let want = v.iter().filter(|&&(a, b)| m.ae(a, b)).count() as u32;
            ck_eq!(cx, g.add_edges(v.iter().map(|&(a, b)| (uni[a], uni[b]))), want, "return value of {op:?}")
        }
    }
    Ok(())
}
fn seq_family(name: &str, k: usize, depth: u32, uni: Vec<u32>, seam: Option<u64>) -> Family {
    let o = ops(k);
    let b = o.len() as u64;
    fam(format!("{name}: all {depth}-step histories, {k} labels {uni:?}{}", if seam.is_some() { ", all hash orders" } else { "" }), b.pow(depth) * seam.unwrap_or(1), move |mut idx, cx| {
        if let Some(f) = seam { fxhash::seam::set(Some(seam_table(k, idx % f))); idx /= f; }
        let mut seq = vec![];
        for _ in 0..depth { seq.push(&o[(idx % b) as usize]); idx /= b; }
        cx.note(|| format!("history {seq:?} on labels {uni:?}"));
        let (mut g, mut m) = (EditGraph::new(), M1::default());
        for op in seq { apply1(cx, &mut g, &mut m, op, &uni)?; }
        let mg = m.mg(&uni);
        cx.state(mg.dig());
        check_graph(cx, &g, &mg)
    })
}
/// The same model state reached along different routes.
const ROUTES: u64 = 6;
fn route(m: &MG, k: &[u32], r: u64) -> EditGraph {
    let mut g = if r == 1 { EditGraph::with_capacity(40) } else { EditGraph::new() };
    match r {
        0 => { for l in &m.labels { g.add_vertex(l); } for (a, b) in m.ledges() { g.add_edge(&a, &b); } }
        1 => { for (a, b) in m.ledges().into_iter().rev() { g.add_edge(&b, &a); } for l in m.labels.iter().rev() { g.add_vertex(l); } }
        // build the complete graph with loops, then cut down
        2 => {
            for a in k { for b in k { g.add_edge(a, b); } }
            for x in k { if !m.labels.contains(x) { g.remove_vertex(x); } }
            for i in 0..m.n() { for j in i..m.n() { if !m.adj(i, j) { g.remove_edge(&m.l(j), &m.l(i)); } } }
        }
        // build, remove every vertex, build again
        3 => {
            g = route(m, k, 0);
            for x in &m.labels { g.remove_vertex(x); }
            for x in &m.labels { g.add_vertex(x); }
            for (a, b) in m.ledges() { g.add_edge(&b, &a); g.remove_edge(&a, &b); g.add_edge(&a, &b); }
        }
        4 => { g = route(m, k, 2).clone(); }
        _ => { g.add_vertices(plain(m.labels.iter())); g.add_edges(plain(m.ledges())); g.add_edges(m.ledges()); }
    }
    g
}
/// The result of operation number r on the graph, and labels it no longer has.
const SOURCES: u64 = 16;
fn sourced(m: &MG, r: u64) -> Option<(EditGraph, Vec<u32>)> {
    let e = m.edit();
    let n = m.n();
    let loopless = m.edges.iter().all(|e| e.0 != e.1);
    let vs = |p: usize| -> Vec<u32> { (0..n).filter(|i| i % 2 == p).map(|i| m.l(i)).collect() };
    let other: EditGraph = [(m.l0(0), m.l0(1)), (m.l0(1), 77), (77, m.l0(2))].into_iter().filter(|e| e.0 != e.1).collect();
    Some(match r {
        0 => (e.subgraph::<EditGraph, _, _>(vs(0)), vs(1)),
        1 => (e.invert(), vec![]),
        2 => (e.merge(&other), vec![]),
        3 => (e.intersect(&other), m.labels.clone()),
        4 => {
            let mut text = vec![];
            for (a, b) in m.ledges() { text.extend(format!("{b} {a}\n{a} {b}\n").into_bytes()); }
            (EditGraph::from_buf(Box::new(std::io::Cursor::new(text))).ok()?, m.labels.clone())
        }
        5 => (plain(m.ledges().into_iter().chain(m.ledges())).collect(), m.labels.clone()),
        6 => { let mut g = e; if !loopless || n < 2 { return None; } g.contract_pair(&m.l(0), &m.l(n - 1)); (g, vec![m.l(n - 1)]) }
        7 => { let mut g = e; if !loopless || n < 2 { return None; } g.contract(m.labels.iter()); (g, m.labels[1..].to_vec()) }
        8 => (e.subdivide(1 + n as u32 % 2), vec![]),
        9 => (e.disj_union(&other), vec![]),
        10 => (EditGraph::disj_unions([&e, &other, &e].into_iter()), vec![]),
        11 => (e.normalize().0, m.labels.clone()),
        12 => { if !loopless { return None; } (e.lexicographic_product(&EditGraph::path(3)).0, vec![]) }
        13 => { if !loopless { return None; } (EditGraph::path(3).cartesian_product(&e).0, vec![]) }
        14 => { if !loopless { return None; } let mut d = DTFGraph::orient(&e); d.augment(3, 1); (d.to_undirected(), vec![]) }
        _ => { let mut g = EditGraph::with_capacity(3); for x in e.vertices_and_edges() { match x { VertexOrEdge::V(v) => { g.add_vertex(&v); } VertexOrEdge::E((a, b)) => { g.add_edge(&b, &a); } } } (g, vec![]) }
    })
}
pub fn c01(t: Tier) -> Vec<Family> {
    let mut f = vec![];
    for d in 1..=t.pick(4, 5) { f.push(seq_family("histories", 2, d, vec![3, 9], None)); }
    for d in 1..=t.pick(3, 4) {
        f.push(seq_family("histories", 3, d, vec![0, 1, 2], None));
        f.push(seq_family("histories", 3, d, vec![u32::MAX, 0, 1 << 31], None));
    }
    f.push(seq_family("histories", 3, t.pick(2, 3), vec![0, 1, 2], Some(6)));
    // every state (k labels, loops), along every route, then every pair of operations
    for k in [3usize, 4] {
        if k == 4 && !t.thorough() { /* one operation only */ }
        let uni: Vec<u32> = if k == 3 { vec![5, 0, 70_000] } else { vec![0, 1, 2, 3] };
        let o = ops(k);
        let b = o.len() as u64;
        let two = k == 3 || t.thorough();
        let per = if two { b * b } else { b };
        f.push(fam(format!("all states on {k} labels x {ROUTES} routes x all {} operations", if two { "pairs of" } else { "single" }), nsubgraphs(k, true) * ROUTES * per, move |idx, cx| {
            let (s, r, mut w) = (idx / per / ROUTES, idx / per % ROUTES, idx % per);
            let mg0 = subgraph_at(k, true, &uni, s);
            let mut m = M1::default();
            let ui = |l: u32| uni.iter().position(|&x| x == l).unwrap();
            for l in &mg0.labels { m.v.insert(ui(*l)); }
            for (a, b) in mg0.ledges() { m.ae(ui(a), ui(b)); }
            cx.note(|| format!("route {r} to {}", mg0.show()));
            let mut g = route(&mg0, &uni, r);
            let first = w;
            if first == 0 { check_graph(cx, &g, &mg0)?; }
            for _ in 0..if two { 2 } else { 1 } {
                let op = &o[(w % b) as usize];
                w /= b;
                cx.note(|| format!("then {op:?}"));
                apply1(cx, &mut g, &mut m, op, &uni)?;
            }
            let mg = m.mg(&uni);
            cx.state(mg.dig());
            check_graph(cx, &g, &mg)?;
            ck!(cx, g == route(&mg, &uni, 0), "not equal to a freshly built graph with the same contents");
            Ok(())
        }));
    }
    // graphs that other operations return
    let k = ngraphs_upto(4, true);
    f.push(fam(format!("all graphs with loops on <= 4 vertices x label schemes x {SOURCES} operations that return a graph, the result edited"), k * SCHEMES * SOURCES, move |idx, cx| {
        let m = graph_upto(4, true, idx / SOURCES / SCHEMES);
        let n = m.n();
        let mut l = labels(idx / SOURCES % SCHEMES, n);
        if idx % SOURCES >= 8 { for x in l.iter_mut() { *x %= 1 << 30; } }
        let m = m.with_labels(l);
        cx.note(|| format!("{} result of operation {}", m.show(), idx % SOURCES));
        cx.state(m.dig().add(idx % SOURCES));
        let Some((g, gone)) = sourced(&m, idx % SOURCES) else { return Ok(()) };
        let r = read_graph(&g);
        check_graph(cx, &g, &r)?;
        lives_on(cx, g, &r, &gone)
    }));
    // equality is extensional
    let uni = vec![0u32, 1, 2];
    let c = nsubgraphs(3, true);
    f.push(fam("equality of all pairs of states on 3 labels along two routes", c * c, move |idx, cx| {
        let (a, b) = (subgraph_at(3, true, &uni, idx / c), subgraph_at(3, true, &uni, idx % c));
        cx.note(|| format!("{} vs {}", a.show(), b.show()));
        cx.state(Dig::new(7).add(idx));
        let (ga, gb) = (route(&a, &uni, 2), route(&b, &uni, 3));
        ck_eq!(cx, ga == gb, a.slabels() == b.slabels() && a.ledges_norm() == b.ledges_norm(), "equality");
        ck_eq!(cx, ga != gb, !(gb == ga), "inequality");
        Ok(())
    }));
    // long histories: grow and shrink shapes of every size
    let mut sh = shapes(t.pick(150, 400), t.pick(30, 60));
    sh.extend(large(4097, true));
    sh.extend(huge());
    f.push(fam("grow and shrink every named shape", sh.len() as u64 * 4, move |idx, cx| {
        let (name, mk) = &sh[(idx / 4) as usize];
        let m = mk();
        if is_huge(&m) && idx % 4 != idx / 4 % 2 { cx.state(Dig::new(0)); return Ok(()); }
        let m = { let l = labels([0, 2, 3, 1][(idx % 4) as usize], m.n()); m.with_labels(l) };
        cx.note(|| format!("{name}, labels {:?}…", &m.labels[..m.n().min(6)]));
        cx.state(m.dig());
        let mut g = EditGraph::new();
        for l in &m.labels { g.add_vertex(l); }
        for (c, (a, b)) in m.ledges().into_iter().enumerate() {
            ck!(cx, g.add_edge(&b, &a), "add_edge({b},{a}) returned false for a new edge");
            ck!(cx, !g.add_edge(&a, &b), "add_edge({a},{b}) returned true for a present edge");
            ck_eq!(cx, g.num_edges(), c + 1, "edges after {} additions", c + 1);
        }
        check_graph(cx, &g, &m)?;
        ck!(cx, g.clone() == g, "copy differs");
        // remove every other vertex, from the end
        let keep: Vec<usize> = (0..m.n()).filter(|i| i % 2 == (idx % 2) as usize).collect();
        for i in (0..m.n()).rev() { if i % 2 != (idx % 2) as usize { ck!(cx, g.remove_vertex(&m.l(i)), "remove_vertex({}) false", m.l(i)); } }
        let sub = MG::new(keep.len(), &m.edges.iter().filter_map(|(a, b)| Some((keep.binary_search(a).ok()?, keep.binary_search(b).ok()?))).collect::<Vec<_>>())
            .with_labels(keep.iter().map(|&i| m.l(i)).collect());
        check_graph(cx, &g, &sub)?;
        // add everything back, with loops everywhere, then strip
        ck_eq!(cx, g.add_vertices(m.labels.iter()) as usize, m.n() - keep.len(), "vertices re-added");
        let back = g.add_edges(m.ledges());
        ck_eq!(cx, back as usize, m.m() - sub.m(), "edges re-added");
        for l in &m.labels { ck!(cx, g.add_edge(l, l), "loop at {l} not added"); }
        ck_eq!(cx, g.num_edges(), m.m() + m.n(), "edges with loops");
        ck_eq!(cx, g.remove_loops(), m.n(), "loops removed");
        check_graph(cx, &g, &m)?;
        for (a, b) in m.ledges() { ck!(cx, g.remove_edge(&b, &a), "remove_edge({b},{a}) false"); }
        ck_eq!(cx, g.remove_isolates(), m.n(), "isolates removed");
        check_graph(cx, &g, &MG::new(0, &[]))?;
        // the same edges with loops, which stay while vertices are removed: those of largest degree first,
        // until few are left
        let (mut e, mut by_degree) = (m.edges.clone(), (0..m.n()).collect::<Vec<usize>>());
        by_degree.sort_by_key(|&i| std::cmp::Reverse((m.nb[i].len(), i % 7)));
        e.extend(by_degree.iter().take(5).map(|&i| (i, i)));
        e.extend((0..m.n()).filter(|i| i % 3 == (idx % 3) as usize).map(|i| (i, i)));
        let lm = MG::new(m.n(), &e).with_labels(m.labels.clone());
        g.add_vertices(lm.labels.iter());
        ck_eq!(cx, g.add_edges(lm.ledges()) as usize, lm.m(), "edges and loops added");
        check_graph(cx, &g, &lm)?;
        ck!(cx, g.clone() == g, "copy differs");
        let order: Vec<usize> = match idx % 3 { 0 => by_degree, 1 => by_degree.into_iter().rev().collect(), _ => (0..m.n()).collect() };
        let c1 = m.n().min(3);
        let c2 = c1.max(m.n() / 2);
        for (from, to) in [(0, c1), (c1, c2), (c2, c2.max(m.n() - m.n().min(12)))] {
            for &i in &order[from..to] { ck!(cx, g.remove_vertex(&m.l(i)), "remove_vertex({}) false", m.l(i)); }
            let mut keep: Vec<usize> = order[to..].to_vec();
            keep.sort_unstable();
            let sub = MG::new(keep.len(), &lm.edges.iter().filter_map(|(a, b)| Some((keep.binary_search(a).ok()?, keep.binary_search(b).ok()?))).collect::<Vec<_>>())
                .with_labels(keep.iter().map(|&i| m.l(i)).collect());
            check_graph(cx, &g, &sub).map_err(|e| format!("vertices {from}..{to} of {} removed, loops present: {e}", m.n()))?;
        }
        Ok(())
    }));
    f
}

// ------------------------------------------------------------------ C02
#[derive(Clone, Debug, Default)]
struct M2 { v: BTreeSet<usize>, e: BTreeSet<(usize, usize)> }
impl M2 {
    fn av(&mut self, a: usize) -> bool { self.v.insert(a) }
    fn aa(&mut self, a: usize, b: usize) -> bool { self.v.insert(a); self.v.insert(b); self.e.insert((a, b)) }
    fn rv(&mut self, a: usize) -> bool { self.e.retain(|&(x, y)| x != a && y != a); self.v.remove(&a) }
    fn dg(&self, uni: &[u32]) -> DG {
        let vs: Vec<usize> = self.v.iter().cloned().collect();
        let pos = |x: usize| vs.iter().position(|&y| y == x).unwrap();
        DG::new(vs.len(), &self.e.iter().map(|&(a, b)| (pos(a), pos(b))).collect::<Vec<_>>()).with_labels(vs.iter().map(|&x| uni[x]).collect())
    }
}
fn apply2(cx: &mut Ctx, g: &mut EditDigraph, m: &mut M2, op: &Op, uni: &[u32]) -> Res {
    match op {
        Op::AV(a) => ck_eq!(cx, g.add_vertex(&uni[*a]), m.av(*a), "return value of {op:?}"),
        Op::RV(a) => ck_eq!(cx, g.remove_vertex(&uni[*a]), m.rv(*a), "return value of {op:?}"),
        Op::AE(a, b) => ck_eq!(cx, g.add_arc(&uni[*a], &uni[*b]), m.aa(*a, *b), "return value of arc {op:?}"),
        Op::RE(a, b) => ck_eq!(cx, g.remove_arc(&uni[*a], &uni[*b]), m.e.remove(&(*a, *b)), "return value of arc {op:?}"),
        Op::RL => {
            let k = m.e.len();
            m.e.retain(|&(a, b)| a != b);
            ck_eq!(cx, g.remove_loops(), k - m.e.len(), "number of loops removed")
        }
        Op::RI => {
            let iso: Vec<usize> = m.v.iter().cloned().filter(|&x| !m.e.iter().any(|&(a, b)| a == x || b == x)).collect();
            for x in &iso { m.v.remove(x); }
            ck_eq!(cx, g.remove_isolates(), iso.len(), "number of isolates removed")
        }
        Op::Clone => {
            let c = g.clone();
            ck!(cx, c == *g && *g == c, "a copy differs from its original");
            *g = c;
        }
        Op::Rebuild => {
            let c: EditDigraph = m.e.iter().map(|&(a, b)| (uni[a], uni[b])).collect();
            let mut c2 = c.clone();
            c2.add_vertices(plain(m.v.iter().map(|&a| uni[a])));
            ck!(cx, c2 == *g, "digraph rebuilt from its arcs and vertices differs");
        }
        Op::AVs(v) => {
            let want = v.iter().filter(|&&a| m.av(a)).count() as u32;
            ck_eq!(cx, g.add_vertices(v.iter().map(|&a| uni[a])), want, "return value of {op:?}")
        }
        Op::AEs(v) => {
            let want = v.iter().filter(|&&(a, b)| m.aa(a, b)).count() as u32;
            ck_eq!(cx, g.add_arcs(v.iter().map(|&(a, b)| (uni[a], uni[b]))), want, "return value of {op:?}")
        }
    }
    Ok(())
}
fn droute(m: &DG, k: &[u32], r: u64) -> EditDigraph {
    let mut g = if r == 1 { EditDigraph::with_capacity(33) } else { EditDigraph::new() };
    match r {
        0 => { for l in &m.labels { g.add_vertex(l); } for (a, b) in m.larcs() { g.add_arc(&a, &b); } }
        1 => { for (a, b) in m.larcs().into_iter().rev() { g.add_arc(&a, &b); } for l in m.labels.iter().rev() { g.add_vertex(l); } }
        2 => {
            for a in k { for b in k { g.add_arc(a, b); } }
            for x in k { if !m.labels.contains(x) { g.remove_vertex(x); } }
            for i in 0..m.n() { for j in 0..m.n() { if !m.has(i, j) { g.remove_arc(&m.l(i), &m.l(j)); } } }
        }
        3 => {
            g = droute(m, k, 0);
            for x in &m.labels { g.remove_vertex(x); }
            for x in &m.labels { g.add_vertex(x); }
            for (a, b) in m.larcs() { g.add_arc(&a, &b); g.remove_arc(&a, &b); g.add_arc(&a, &b); }
        }
        4 => { g = droute(m, k, 2).clone(); }
        _ => { g.add_vertices(plain(m.labels.iter())); g.add_arcs(plain(m.larcs())); g.add_arcs(m.larcs()); }
    }
    g
}
fn ndsub(k: usize) -> u64 { (0u32..1 << k).map(|s| ndigraphs(s.count_ones() as usize, true)).sum() }
fn dsub(k: usize, uni: &[u32], mut idx: u64) -> DG {
    for s in 0u32..1 << k {
        let c = ndigraphs(s.count_ones() as usize, true);
        if idx < c {
            let l: Vec<u32> = (0..k).filter(|i| s >> i & 1 == 1).map(|i| uni[i]).collect();
            return DG::from_mask(l.len(), true, idx).with_labels(l);
        }
        idx -= c;
    }
    unreachable!()
}
pub fn c02(t: Tier) -> Vec<Family> {
    let mut f = vec![];
    let seqs = |k: usize, d: u32, uni: Vec<u32>, seam: Option<u64>| {
        let o = ops(k);
        let b = o.len() as u64;
        fam(format!("all {d}-step histories, {k} labels {uni:?}{}", if seam.is_some() { ", all hash orders" } else { "" }), b.pow(d) * seam.unwrap_or(1), move |mut idx, cx| {
            if let Some(f) = seam { fxhash::seam::set(Some(seam_table(k, idx % f))); idx /= f; }
            let mut seq = vec![];
            for _ in 0..d { seq.push(&o[(idx % b) as usize]); idx /= b; }
            cx.note(|| format!("history {seq:?} on labels {uni:?}"));
            let (mut g, mut m) = (EditDigraph::new(), M2::default());
            for op in seq { apply2(cx, &mut g, &mut m, op, &uni)?; }
            let dg = m.dg(&uni);
            cx.state(dg.dig());
            check_digraph(cx, &g, &dg)
        })
    };
    for d in 1..=t.pick(4, 5) { f.push(seqs(2, d, vec![3, 9], None)); }
    for d in 1..=t.pick(3, 4) { f.push(seqs(3, d, vec![0, 1, 2], None)); f.push(seqs(3, d, vec![u32::MAX, 0, 1 << 31], None)); }
    f.push(seqs(3, t.pick(2, 3), vec![0, 1, 2], Some(6)));
    let uni = vec![5u32, 0, 70_000];
    let o = ops(3);
    let b = o.len() as u64;
    let two = t.thorough();
    let per = if two { b * b } else { b };
    f.push(fam(format!("all states on 3 labels x {ROUTES} routes x all {} operations", if two { "pairs of" } else { "single" }), ndsub(3) * ROUTES * per, move |idx, cx| {
        let (s, r, mut w) = (idx / per / ROUTES, idx / per % ROUTES, idx % per);
        let d0 = dsub(3, &uni, s);
        let mut m = M2::default();
        let ui = |l: u32| uni.iter().position(|&x| x == l).unwrap();
        for l in &d0.labels { m.v.insert(ui(*l)); }
        for (a, b) in d0.larcs() { m.aa(ui(a), ui(b)); }
        cx.note(|| format!("route {r} to {}", d0.show()));
        let mut g = droute(&d0, &uni, r);
        if w == 0 { check_digraph(cx, &g, &d0)?; }
        for _ in 0..if two { 2 } else { 1 } {
            let op = &o[(w % b) as usize];
            w /= b;
            cx.note(|| format!("then {op:?}"));
            apply2(cx, &mut g, &mut m, op, &uni)?;
        }
        let dg = m.dg(&uni);
        cx.state(dg.dig());
        check_digraph(cx, &g, &dg)?;
        ck!(cx, g == droute(&dg, &uni, 0), "not equal to a freshly built digraph with the same contents");
        Ok(())
    }));
    let c = ndigraphs(3, true);
    f.push(fam("equality of all pairs of 3-vertex digraphs", c * c, move |idx, cx| {
        let (a, b) = (DG::from_mask(3, true, idx / c), DG::from_mask(3, true, idx % c));
        cx.state(Dig::new(8).add(idx));
        cx.note(|| format!("{} vs {}", a.show(), b.show()));
        let (ga, gb) = (droute(&a, &[0, 1, 2], 2), droute(&b, &[0, 1, 2], 3));
        ck_eq!(cx, ga == gb, a == b, "equality");
        Ok(())
    }));
    // digraphs that other operations return
    let k = ndigraphs_upto(3, true);
    f.push(fam("all digraphs with loops on <= 3 vertices x label schemes x 5 operations that return a digraph, the result edited", k * SCHEMES * 5, move |idx, cx| {
        let d = digraph_upto(3, true, idx / 5 / SCHEMES);
        let mut l = labels(idx / 5 % SCHEMES, d.n());
        for x in l.iter_mut() { *x %= 1 << 30; }
        let d = d.with_labels(l);
        cx.note(|| format!("{} result of operation {}", d.show(), idx % 5));
        cx.state(d.dig().add(idx % 5));
        let e = d.edit();
        let other: EditDigraph = [(0, 1), (1, 0), (1, 2)].into_iter().collect();
        let g = match idx % 5 {
            0 => e.disj_union(&other),
            1 => EditDigraph::disj_unions([&other, &e, &e].into_iter()),
            2 => e.normalize().0,
            3 => d.larcs().into_iter().chain(d.larcs()).collect(),
            _ => { let mut g = EditDigraph::with_capacity(2); g.add_arcs(e.arcs()); g.add_vertices(e.vertices()); g }
        };
        let r = read_digraph(&g);
        check_digraph(cx, &g, &r)?;
        lives_on_d(cx, g, &r)
    }));
    // 4 vertices, loop-free: every digraph built, observed, each vertex removed
    f.push(fam("all 4-vertex digraphs, each vertex removed", ndigraphs(4, false) * 4, move |idx, cx| {
        let d = DG::from_mask(4, false, idx / 4).with_labels(vec![2, 0, 3, 1]);
        let x = (idx % 4) as usize;
        cx.note(|| format!("{} remove {}", d.show(), d.l(x)));
        let mut g = d.edit();
        if x == 0 { check_digraph(cx, &g, &d)?; }
        ck!(cx, g.remove_vertex(&d.l(x)), "remove_vertex returned false");
        let keep: Vec<usize> = (0..4).filter(|&i| i != x).collect();
        let p = |v: usize| keep.iter().position(|&y| y == v);
        let r = DG::new(3, &d.arcs.iter().filter_map(|&(a, b)| Some((p(a)?, p(b)?))).collect::<Vec<_>>()).with_labels(keep.iter().map(|&i| d.l(i)).collect());
        cx.state(r.dig());
        check_digraph(cx, &g, &r)
    }));
    let mut sh = shapes(t.pick(120, 300), t.pick(20, 40));
    sh.extend(large(t.pick(258, 1025), true));
    sh.extend(huge());
    f.push(fam("grow and shrink oriented named shapes", sh.len() as u64 * 4, move |idx, cx| {
        let (name, mk) = &sh[(idx / 4) as usize];
        let m = mk();
        if is_huge(&m) && idx % 4 != idx / 4 % 2 { cx.state(Dig::new(0)); return Ok(()); }
        // orientations: forward, backward, alternating, both ways
        let arcs: Vec<(usize, usize)> = m.edges.iter().enumerate().flat_map(|(i, &(a, b))| match idx % 4 { 0 => vec![(a, b)], 1 => vec![(b, a)], 2 => vec![if i % 2 == 0 { (a, b) } else { (b, a) }], _ => vec![(a, b), (b, a)] }).collect();
        let d = DG::new(m.n(), &arcs).with_labels(labels(idx % 4, m.n()));
        cx.note(|| format!("{name} orientation {}", idx % 4));
        cx.state(d.dig());
        let mut g = EditDigraph::new();
        g.add_vertices(d.labels.iter());
        for (c, &(a, b)) in d.arcs.iter().enumerate() {
            let (a, b) = (d.l(a), d.l(b));
            ck!(cx, g.add_arc(&a, &b) && !g.add_arc(&a, &b), "add_arc({a},{b}) return values");
            ck_eq!(cx, g.num_edges(), c + 1, "arcs after {} additions", c + 1);
        }
        check_digraph(cx, &g, &d)?;
        for l in &d.labels { ck!(cx, g.add_arc(l, l), "loop not added"); }
        ck_eq!(cx, g.remove_loops(), d.n(), "loops removed");
        check_digraph(cx, &g, &d)?;
        let keep: Vec<usize> = (0..d.n()).filter(|i| i % 2 == (idx % 2) as usize).collect();
        for i in (0..d.n()).rev() { if i % 2 != (idx % 2) as usize { ck!(cx, g.remove_vertex(&d.l(i)), "remove_vertex false"); } }
        let p = |v: usize| if v % 2 == (idx % 2) as usize { keep.binary_search(&v).ok() } else { None };
        let sub = DG::new(keep.len(), &d.arcs.iter().filter_map(|&(a, b)| Some((p(a)?, p(b)?))).collect::<Vec<_>>()).with_labels(keep.iter().map(|&i| d.l(i)).collect());
        check_digraph(cx, &g, &sub)?;
        for (a, b) in sub.larcs() { ck!(cx, g.remove_arc(&a, &b) && !g.remove_arc(&a, &b), "remove_arc return values"); }
        ck_eq!(cx, g.remove_isolates(), keep.len(), "isolates removed");
        ck_eq!(cx, (g.num_vertices(), g.num_edges()), (0, 0), "emptied digraph");
        // the same arcs with loops, which stay while vertices are removed
        let (mut a, mut by_degree) = (d.arcs.clone(), (0..d.n()).collect::<Vec<usize>>());
        by_degree.sort_by_key(|&i| std::cmp::Reverse((d.inn[i].len() + d.out[i].len(), i % 7)));
        a.extend(by_degree.iter().take(5).map(|&i| (i, i)));
        a.extend((0..d.n()).filter(|i| i % 3 == (idx % 3) as usize).map(|i| (i, i)));
        let ld = DG::new(d.n(), &a).with_labels(d.labels.clone());
        g.add_vertices(ld.labels.iter());
        ck_eq!(cx, g.add_arcs(ld.larcs()) as usize, ld.arcs.len(), "arcs and loops added");
        check_digraph(cx, &g, &ld)?;
        ck!(cx, g.clone() == g, "copy differs");
        let order: Vec<usize> = match idx % 3 { 0 => by_degree, 1 => by_degree.into_iter().rev().collect(), _ => (0..d.n()).collect() };
        let c1 = d.n().min(3);
        let c2 = c1.max(d.n() / 2);
        for (from, to) in [(0, c1), (c1, c2), (c2, c2.max(d.n() - d.n().min(12)))] {
            for &i in &order[from..to] { ck!(cx, g.remove_vertex(&d.l(i)), "remove_vertex({}) false", d.l(i)); }
            let mut keep: Vec<usize> = order[to..].to_vec();
            keep.sort_unstable();
            let sub = DG::new(keep.len(), &ld.arcs.iter().filter_map(|(a, b)| Some((keep.binary_search(a).ok()?, keep.binary_search(b).ok()?))).collect::<Vec<_>>())
                .with_labels(keep.iter().map(|&i| d.l(i)).collect());
            check_digraph(cx, &g, &sub).map_err(|e| format!("vertices {from}..{to} of {} removed, loops present: {e}", d.n()))?;
        }
        Ok(())
    }));
    f
}

// ------------------------------------------------------------------ C03
/// Model contraction: positions `x` merged into position `c` (labels kept).
fn contracted(m: &MG, c: usize, x: &[usize]) -> MG {
    let mut merged = vec![false; m.n()];
    for &v in x { merged[v] = v != c; }
    let gone = |v: usize| merged[v];
    let keep: Vec<usize> = (0..m.n()).filter(|&v| !gone(v)).collect();
    let p = |v: usize| keep.binary_search(&if gone(v) { c } else { v }).unwrap();
    let e: Vec<_> = m.edges.iter().filter(|&&(a, b)| a == b || p(a) != p(b)).map(|&(a, b)| (p(a), p(b))).collect();
    MG::new(keep.len(), &e).with_labels(keep.iter().map(|&v| m.l(v)).collect())
}
pub fn c03(t: Tier) -> Vec<Family> {
    let mut f = vec![];
    for n in 1..=t.pick(5usize, 6) {
        let per = n as u64 * (1 << n) * 4;
        let seams = if n <= 3 { factorial(n) } else { 1 };
        f.push(fam(format!("all {n}-vertex graphs x survivor x vertex set x entry point{}", if seams > 1 { " x hash orders" } else { "" }), ngraphs(n, false) * per * seams, move |mut idx, cx| {
            if seams > 1 { fxhash::seam::set(Some(seam_table(n, idx % seams))); idx /= seams; }
            let (g, r) = (idx / per, idx % per);
            let (c, s, how) = ((r / 4 >> n) as usize, r / 4 & ((1 << n) - 1), r % 4);
            let m = MG::from_mask(n, false, g).with_labels(labels([0, 2, 3, 1][how as usize], n));
            let x: Vec<usize> = (0..n).filter(|i| s >> i & 1 == 1).collect();
            let lx: Vec<u32> = x.iter().map(|&i| m.l(i)).collect();
            cx.note(|| format!("{}: entry {how}, merge {lx:?} into {}", m.show(), m.l(c)));
            cx.state(m.dig().add(r));
            let mut e = m.edit();
            match how {
                0 => e.contract_into(&m.l(c), lx.iter()),
                1 => { let mut seq = vec![m.l(c)]; seq.extend(lx.iter().rev()); ck_eq!(cx, e.contract(plain(seq.iter())), m.l(c), "vertex returned by contract"); }
                2 => { let mut seq = lx.clone(); seq.extend(lx.iter()); seq.push(m.l(c)); e.contract_into(&m.l(c), plain(seq)); }
                _ => for l in &lx { e.contract_pair(&m.l(c), l); },
            }
            let r = contracted(&m, c, &x);
            check_graph(cx, &e, &r)?;
            // the contracted graph is edited further
            if n <= 4 { let gone: Vec<u32> = lx.iter().cloned().filter(|l| *l != m.l(c)).collect(); lives_on(cx, e, &r, &gone)?; }
            Ok(())
        }));
    }
    // chains: merge everything, two vertices at a time, in every order
    for n in [4usize, 5] {
        if n == 5 && !t.thorough() { continue; }
        let per = factorial(n);
        f.push(fam(format!("all {n}-vertex graphs: chains of pair contractions in every order"), ngraphs(n, false) * per, move |idx, cx| {
            let m0 = MG::from_mask(n, false, idx / per).with_labels(labels(4, n));
            let p = perm(n, idx % per);
            cx.note(|| format!("{} contraction order {p:?}", m0.show()));
            let mut e = m0.edit();
            let mut m = m0.clone();
            for w in p.windows(2) {
                let (u, v) = (m0.l(w[1]), m0.l(w[0]));
                e.contract_pair(&u, &v);
                let (a, b) = (m.labels.iter().position(|&x| x == u).unwrap(), m.labels.iter().position(|&x| x == v).unwrap());
                m = contracted(&m, a, &[b]);
                cx.state(m.dig());
                check_graph(cx, &e, &m)?;
            }
            Ok(())
        }));
    }
    // loops away from the contracted set stay; the survivor gets none
    f.push(fam("3+1 vertices with a loop on an uninvolved vertex", ngraphs(4, false) * 8, move |idx, cx| {
        let mut m = MG::from_mask(4, false, idx / 8);
        let mut e: Vec<_> = m.edges.clone();
        e.push((3, 3));
        m = MG::new(4, &e);
        let x: Vec<usize> = (0..3).filter(|i| idx % 8 >> i & 1 == 1).collect();
        cx.note(|| format!("{} merge {x:?} into 0", m.show()));
        cx.state(m.dig().add(idx % 8));
        let mut g = m.edit();
        g.contract_into(&0, x.iter().map(|&i| i as u32));
        check_graph(cx, &g, &contracted(&m, 0, &x))
    }));
    f.push(fam("documented panics", 5, move |idx, cx| {
        cx.note(|| format!("panic case {idx}"));
        cx.state(Dig::new(3).add(idx));
        let mut g = EditGraph::path(3);
        let p = panics(|| match idx {
            0 => g.contract_pair(&0, &9),
            1 => g.contract_pair(&9, &0),
            2 => g.contract_pair(&8, &9),
            3 => { g.contract(Vec::<u32>::new()); }
            _ => EditGraph::new().contract_pair(&0, &1),
        });
        ck!(cx, p, "no panic for an absent vertex or empty sequence");
        check_graph(cx, &g, &path(3))
    }));
    let mut sh = shapes(t.pick(80, 200), t.pick(16, 30));
    sh.extend(large(t.pick(1025, 4097), true));
    sh.extend(huge());
    f.push(fam("named shapes: contract every second vertex / a ball / everything", sh.len() as u64 * 3, move |idx, cx| {
        let (name, mk) = &sh[(idx / 3) as usize];
        let m = mk();
        let l = labels(idx % 3, m.n());
        let m = m.with_labels(l);
        let x: Vec<usize> = match idx % 3 { 0 => (0..m.n()).filter(|i| i % 2 == 1).collect(), 1 => { let d = m.bfs(&[m.n() / 2]); (0..m.n()).filter(|&i| d[i] <= 2).collect() } _ => (0..m.n()).collect() };
        let c = m.n() / 2;
        cx.note(|| format!("{name}: merge {} vertices into {}", x.len(), m.l(c)));
        cx.state(m.dig().add(idx % 3));
        let mut e = m.edit();
        e.contract_into(&m.l(c), x.iter().map(|&i| m.l(i)));
        check_graph(cx, &e, &contracted(&m, c, &x))
    }));
    f
}
