//! Finite graph spaces (numbered, so that a case is an index) and the reference model of a graph.
use crate::engine::Dig;
use fxhash::FxHashMap;
use graphbench::degengraph::{DegenGraph, DegenGraphBuilder};
use graphbench::editdigraph::EditDigraph;
use graphbench::editgraph::EditGraph;
use graphbench::graph::*;
use graphbench::ordgraph::OrdGraph;

/// Undirected model graph on positions 0..n with a label per position. A loop at i is (i,i).
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct MG { pub labels: Vec<u32>, pub nb: Vec<Vec<usize>>, pub edges: Vec<(usize, usize)> }

impl MG {
    pub fn new(n: usize, edges: &[(usize, usize)]) -> MG {
        let mut nb = vec![vec![]; n];
        let mut es: Vec<(usize, usize)> = edges.iter().map(|&(a, b)| (a.min(b), a.max(b))).collect();
        es.sort_unstable();
        es.dedup();
        for &(a, b) in &es {
            nb[a].push(b);
            if a != b { nb[b].push(a); }
        }
        for x in nb.iter_mut() { x.sort_unstable(); }
        MG { labels: (0..n as u32).collect(), nb, edges: es }
    }
    /// Graph number `mask` on n vertices; bits are the pairs i<j (and first the loops, if any).
    pub fn from_mask(n: usize, loops: bool, mut mask: u64) -> MG {
        let mut es = vec![];
        if loops {
            for i in 0..n { if mask & 1 == 1 { es.push((i, i)); } mask >>= 1; }
        }
        for i in 0..n { for j in i + 1..n { if mask & 1 == 1 { es.push((i, j)); } mask >>= 1; } }
        MG::new(n, &es)
    }
    pub fn with_labels(mut self, labels: Vec<u32>) -> MG { assert_eq!(labels.len(), self.n()); self.labels = labels; self }
    pub fn n(&self) -> usize { self.labels.len() }
    pub fn m(&self) -> usize { self.edges.len() }
    pub fn adj(&self, a: usize, b: usize) -> bool { self.nb[a].binary_search(&b).is_ok() }
    /// Degree, a loop counting twice.
    pub fn deg(&self, a: usize) -> usize { self.nb[a].len() + self.adj(a, a) as usize }
    pub fn l(&self, i: usize) -> u32 { self.labels[i] }
    /// Label of position i, or a number that may be no label.
    pub fn l0(&self, i: usize) -> u32 { self.labels.get(i).cloned().unwrap_or(i as u32) }
    pub fn index(&self) -> FxHashMap<u32, usize> { self.labels.iter().enumerate().map(|(i, &l)| (l, i)).collect() }
    pub fn ledges(&self) -> Vec<(u32, u32)> { self.edges.iter().map(|&(a, b)| (self.l(a), self.l(b))).collect() }
    pub fn ledges_norm(&self) -> Vec<(u32, u32)> {
        let mut v: Vec<_> = self.ledges().into_iter().map(|(a, b)| (a.min(b), a.max(b))).collect();
        v.sort_unstable();
        v
    }
    pub fn lnb(&self, i: usize) -> Vec<u32> { let mut v: Vec<u32> = self.nb[i].iter().map(|&j| self.l(j)).collect(); v.sort_unstable(); v }
    pub fn slabels(&self) -> Vec<u32> { let mut v = self.labels.clone(); v.sort_unstable(); v }
    /// Distances from `s` (usize::MAX: unreachable).
    pub fn bfs(&self, s: &[usize]) -> Vec<usize> {
        let mut d = vec![usize::MAX; self.n()];
        let mut q: Vec<usize> = vec![];
        for &x in s { if d[x] != 0 { d[x] = 0; q.push(x); } }
        let mut h = 0;
        while h < q.len() {
            let u = q[h];
            h += 1;
            for &v in &self.nb[u] { if d[v] == usize::MAX { d[v] = d[u] + 1; q.push(v); } }
        }
        d
    }
    pub fn dists(&self) -> Vec<Vec<usize>> { (0..self.n()).map(|s| self.bfs(&[s])).collect() }
    pub fn edit(&self) -> EditGraph {
        let mut g = EditGraph::new();
        for &l in &self.labels { g.add_vertex(&l); }
        for (a, b) in self.ledges() { g.add_edge(&a, &b); }
        g
    }
    /// Ordered graph whose ordering is the position order.
    pub fn ord(&self) -> OrdGraph { OrdGraph::with_ordering(&self.edit(), self.labels.iter()) }
    pub fn degen(&self) -> DegenGraph { DegenGraph::with_ordering(&self.edit(), self.labels.iter()) }
    /// The same ordered graph, assembled by hand: the left neighbours of every vertex are given in reverse order.
    pub fn degen_rev(&self) -> DegenGraph {
        let mut b = DegenGraphBuilder::new();
        for i in 0..self.n() { let l: Vec<u32> = self.nb[i].iter().rev().filter(|&&j| j < i).map(|&j| self.l(j)).collect(); b.append(&self.l(i), &l); }
        b.build()
    }
    pub fn dig(&self) -> Dig {
        Dig::new(self.n() as u64).adds(self.labels.iter().map(|&x| x as u64)).adds(self.edges.iter().map(|&(a, b)| ((a as u64) << 32) | b as u64))
    }
    pub fn show(&self) -> String {
        if self.n() <= 40 { format!("vertices {:?} edges {:?}", self.labels, self.ledges()) }
        else { format!("{} vertices, {} edges, labels {:?}…", self.n(), self.m(), &self.labels[..8]) }
    }
    pub fn components(&self) -> Vec<Vec<usize>> {
        let mut seen = vec![false; self.n()];
        let mut r = vec![];
        for s in 0..self.n() {
            if seen[s] { continue; }
            let mut c = vec![s];
            seen[s] = true;
            let mut h = 0;
            while h < c.len() { for &v in &self.nb[c[h]] { if !seen[v] { seen[v] = true; c.push(v); } } h += 1; }
            c.sort_unstable();
            r.push(c);
        }
        r
    }
}

/// Directed model graph.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct DG { pub labels: Vec<u32>, pub out: Vec<Vec<usize>>, pub inn: Vec<Vec<usize>>, pub arcs: Vec<(usize, usize)> }
impl DG {
    pub fn new(n: usize, arcs: &[(usize, usize)]) -> DG {
        let mut a = arcs.to_vec();
        a.sort_unstable();
        a.dedup();
        let (mut out, mut inn) = (vec![vec![]; n], vec![vec![]; n]);
        for &(u, v) in &a { out[u].push(v); inn[v].push(u); }
        for x in out.iter_mut().chain(inn.iter_mut()) { x.sort_unstable(); }
        DG { labels: (0..n as u32).collect(), out, inn, arcs: a }
    }
    pub fn from_mask(n: usize, loops: bool, mut mask: u64) -> DG {
        let mut a = vec![];
        for i in 0..n { for j in 0..n { if i == j && !loops { continue; } if mask & 1 == 1 { a.push((i, j)); } mask >>= 1; } }
        DG::new(n, &a)
    }
    pub fn with_labels(mut self, labels: Vec<u32>) -> DG { assert_eq!(labels.len(), self.n()); self.labels = labels; self }
    pub fn n(&self) -> usize { self.labels.len() }
    pub fn l(&self, i: usize) -> u32 { self.labels[i] }
    pub fn has(&self, a: usize, b: usize) -> bool { self.out[a].binary_search(&b).is_ok() }
    pub fn larcs(&self) -> Vec<(u32, u32)> { let mut v: Vec<_> = self.arcs.iter().map(|&(a, b)| (self.l(a), self.l(b))).collect(); v.sort_unstable(); v }
    pub fn edit(&self) -> EditDigraph {
        let mut g = EditDigraph::new();
        for l in &self.labels { g.add_vertex(l); }
        for &(a, b) in &self.arcs { g.add_arc(&self.l(a), &self.l(b)); }
        g
    }
    /// The underlying undirected graph.
    pub fn under(&self) -> MG { MG::new(self.n(), &self.arcs).with_labels(self.labels.clone()) }
    pub fn dig(&self) -> Dig {
        Dig::new(1000 + self.n() as u64).adds(self.labels.iter().map(|&x| x as u64)).adds(self.arcs.iter().map(|&(a, b)| ((a as u64) << 32) | b as u64))
    }
    pub fn show(&self) -> String {
        if self.n() <= 40 { format!("vertices {:?} arcs {:?}", self.labels, self.larcs()) } else { format!("{} vertices, {} arcs", self.n(), self.arcs.len()) }
    }
}

pub fn pairs(n: usize) -> u64 { (n * n.saturating_sub(1) / 2) as u64 }
/// Number of graphs on exactly n labelled vertices.
pub fn ngraphs(n: usize, loops: bool) -> u64 { 1 << (pairs(n) + if loops { n as u64 } else { 0 }) }
pub fn ndigraphs(n: usize, loops: bool) -> u64 { 1 << (n * n - if loops { 0 } else { n }) }
/// Number of graphs on at most `max` vertices, and the idx-th of them.
pub fn ngraphs_upto(max: usize, loops: bool) -> u64 { (0..=max).map(|n| ngraphs(n, loops)).sum() }
pub fn graph_upto(max: usize, loops: bool, mut idx: u64) -> MG {
    for n in 0..=max {
        let c = ngraphs(n, loops);
        if idx < c { return MG::from_mask(n, loops, idx); }
        idx -= c;
    }
    unreachable!()
}
pub fn ndigraphs_upto(max: usize, loops: bool) -> u64 { (0..=max).map(|n| ndigraphs(n, loops)).sum() }
pub fn digraph_upto(max: usize, loops: bool, mut idx: u64) -> DG {
    for n in 0..=max {
        let c = ndigraphs(n, loops);
        if idx < c { return DG::from_mask(n, loops, idx); }
        idx -= c;
    }
    unreachable!()
}
/// Graphs on any subset of a universe of k labels (vertex set varies): loop-free.
pub fn nsubgraphs(k: usize, loops: bool) -> u64 { (0u32..1 << k).map(|s| ngraphs(s.count_ones() as usize, loops)).sum() }
pub fn subgraph_at(k: usize, loops: bool, uni: &[u32], mut idx: u64) -> MG {
    for s in 0u32..1 << k {
        let c = ngraphs(s.count_ones() as usize, loops);
        if idx < c {
            let labels: Vec<u32> = (0..k).filter(|i| s >> i & 1 == 1).map(|i| uni[i]).collect();
            return MG::from_mask(labels.len(), loops, idx).with_labels(labels);
        }
        idx -= c;
    }
    unreachable!()
}

pub const SCHEMES: u64 = 6;
/// Label schemes: how positions are named.
pub fn labels(scheme: u64, n: usize) -> Vec<u32> {
    match scheme {
        0 => (0..n as u32).collect(),
        1 => (0..n as u32).rev().collect(),
        // scattered, order not monotone in position
        2 => (0..n as u64).map(|i| ((i * 2_654_435_761 + 12_345) % 4_000_037) as u32).collect(),
        // extreme values first
        3 => {
            let x = [u32::MAX, 0, 1 << 31, 65_535, 65_536, 255, 256, u32::MAX - 1, (1 << 31) - 1, 1, 127, 128];
            (0..n).map(|i| if i < x.len() { x[i] } else { 1_000_000 + (i as u32) * 4096 }).collect()
        }
        // gaps, zig-zag, room above for fresh labels
        4 => (0..n as u32).map(|i| if i % 2 == 0 { 10 + 3 * i } else if i < 700 { 5000 - 7 * i } else { 100_000 + 11 * i }).collect(),
        // labels which coincide in their low or high 8, 16 or 24 bits
        5 => {
            let x = [0, 1 << 24, 1, (1 << 24) + 1, 1 << 16, 1 << 8, (1 << 16) + 1, (1 << 8) + 1, 1 << 31, (1 << 31) + 1, 1 << 12, 1 << 20, 1 << 28];
            (0..n as u32).map(|i| if (i as usize) < x.len() { x[i as usize] } else { (i % 64) << 16 | (i / 64 + 8192) }).collect()
        }
        _ => unreachable!(),
    }
}
pub fn factorial(n: usize) -> u64 { (1..=n as u64).product() }
pub fn perm(n: usize, mut k: u64) -> Vec<usize> {
    let mut pool: Vec<usize> = (0..n).collect();
    let mut r = vec![];
    for i in (1..=n).rev() {
        let f = factorial(i - 1);
        r.push(pool.remove((k / f) as usize));
        k %= f;
    }
    r
}
/// Hash-order table for the seam from a permutation of 0..n (labels >= n keep distinct slots).
pub fn seam_table(n: usize, k: u64) -> [u8; 16] {
    let p = perm(n, k);
    let mut t = [0u8; 16];
    for i in 0..16 { t[i] = if i < n { p[i] as u8 } else { i as u8 }; }
    t
}

/// Tree number idx of the n^(n-2) labelled trees (Prüfer).
pub fn ntrees(n: usize) -> u64 { if n <= 2 { 1 } else { (n as u64).pow(n as u32 - 2) } }
pub fn tree(n: usize, mut idx: u64) -> MG {
    if n <= 1 { return MG::new(n, &[]); }
    let mut seq = vec![];
    for _ in 0..n - 2 { seq.push((idx % n as u64) as usize); idx /= n as u64; }
    let mut deg = vec![1; n];
    for &s in &seq { deg[s] += 1; }
    let mut es = vec![];
    for &s in &seq {
        let leaf = (0..n).find(|&x| deg[x] == 1).unwrap();
        es.push((leaf, s));
        deg[leaf] -= 1;
        deg[s] -= 1;
    }
    let rest: Vec<usize> = (0..n).filter(|&x| deg[x] == 1).collect();
    es.push((rest[0], rest[1]));
    MG::new(n, &es)
}

// -------------------------------------------------------------- parameterised shapes
pub fn path(n: usize) -> MG { MG::new(n, &(1..n).map(|i| (i - 1, i)).collect::<Vec<_>>()) }
pub fn cycle(n: usize) -> MG { let mut e: Vec<_> = (1..n).map(|i| (i - 1, i)).collect(); if n > 2 { e.push((0, n - 1)); } MG::new(n, &e) }
/// Star with k leaves whose centre sits at position c.
pub fn star_at(k: usize, c: usize) -> MG { MG::new(k + 1, &(0..=k).filter(|&i| i != c).map(|i| (i, c)).collect::<Vec<_>>()) }
pub fn clique(n: usize) -> MG { MG::new(n, &(0..n).flat_map(|i| (i + 1..n).map(move |j| (i, j))).collect::<Vec<_>>()) }
pub fn biclique(a: usize, b: usize) -> MG { MG::new(a + b, &(0..a).flat_map(|i| (a..a + b).map(move |j| (i, j))).collect::<Vec<_>>()) }
pub fn multipartite(parts: &[usize]) -> MG {
    let mut own = vec![];
    for (p, &s) in parts.iter().enumerate() { for _ in 0..s { own.push(p); } }
    let n = own.len();
    let mut e = vec![];
    for i in 0..n { for j in i + 1..n { if own[i] != own[j] { e.push((i, j)); } } }
    MG::new(n, &e)
}
pub fn grid(s: usize, t: usize) -> MG {
    let mut e = vec![];
    for y in 0..s { for x in 0..t { let u = y * t + x; if x + 1 < t { e.push((u, u + 1)); } if y + 1 < s { e.push((u, u + t)); } } }
    MG::new(s * t, &e)
}
/// `legs` paths of `len` vertices glued to one centre (position 0).
pub fn spider(legs: usize, len: usize) -> MG {
    let mut e = vec![];
    for l in 0..legs { for k in 0..len { let v = 1 + l * len + k; e.push((if k == 0 { 0 } else { v - 1 }, v)); } }
    MG::new(1 + legs * len, &e)
}
/// A hub joined to one vertex of each of k cliques of k+2 vertices: a vertex of late degeneracy
/// order whose k in-neighbours have nothing else in common.
pub fn hub_of_cliques(k: usize) -> MG {
    let mut e = vec![];
    for c in 0..k {
        let b = 1 + c * (k + 2);
        e.push((0, b));
        for i in 0..k + 2 { for j in 0..i { e.push((b + j, b + i)); } }
    }
    MG::new(1 + k * (k + 2), &e)
}
/// `hubs` hubs, each joined to one vertex of each of `legs` cliques of c vertices and by a path of
/// `tail` edges to a common vertex, which starts `far` paths of two edges and belongs to a clique
/// of core+1 vertices.
pub fn hubs_of_cliques(hubs: usize, legs: usize, c: usize, tail: usize, far: usize, core: usize) -> MG {
    let mut e = vec![];
    let mut n = 1;
    for _ in 0..hubs {
        let mut at = 0;
        for _ in 0..tail { e.push((at, n)); at = n; n += 1; }
        for _ in 0..legs {
            e.push((at, n));
            for i in 0..c { for j in 0..i { e.push((n + j, n + i)); } }
            n += c;
        }
    }
    for i in 0..core { e.push((0, n + i)); for j in 0..i { e.push((n + j, n + i)); } }
    n += core;
    for _ in 0..far { e.push((0, n)); e.push((n, n + 1)); n += 2; }
    MG::new(n, &e)
}
/// A clique every vertex of which starts a path of `len` further vertices.
pub fn tailed_clique(k: usize, len: usize) -> MG {
    let mut e = vec![];
    for i in 0..k { for j in 0..i { e.push((j, i)); } }
    for i in 0..k { for s in 0..len { let v = k + i * len + s; e.push((if s == 0 { i } else { v - 1 }, v)); } }
    MG::new(k * (len + 1), &e)
}
/// A path of n vertices with `legs` leaves at each of them.
pub fn caterpillar(n: usize, legs: usize) -> MG {
    let mut e: Vec<(usize, usize)> = (1..n).map(|i| (i - 1, i)).collect();
    for i in 0..n { for l in 0..legs { e.push((i, n + i * legs + l)); } }
    MG::new(n * (legs + 1), &e)
}
/// A spider whose legs end in `forks` leaves each and whose inner legs are `width` parallel
/// vertices per step; if tail > 0, a path of that length leads from the hub to a vertex with `far`
/// leaves, which belongs to a clique of core+1 vertices. Also returns the part of every vertex:
/// 0 far vertex, 1 hub, 2 tail, 3 inner leg, 4 leg end, 5 others.
pub fn forked(legs: usize, len: usize, width: usize, forks: usize, tail: usize, far: usize, core: usize) -> (MG, Vec<usize>) {
    let mut e = vec![];
    let mut part = vec![1];
    for _ in 0..legs {
        let mut at = vec![0];
        for k in 0..len {
            let last = k + 1 == len;
            let next: Vec<usize> = (0..if last { 1 } else { width }).map(|_| { part.push(if last { 4 } else { 3 }); part.len() - 1 }).collect();
            for &x in &at { for &y in &next { e.push((x, y)); } }
            at = next;
        }
        for _ in 0..forks { e.push((at[0], part.len())); part.push(5); }
    }
    if tail > 0 {
        let mut at = 0;
        for k in 0..tail { e.push((at, part.len())); at = part.len(); part.push(if k + 1 == tail { 0 } else { 2 }); }
        for _ in 0..far { e.push((at, part.len())); part.push(5); }
        let c = part.len();
        for i in 0..core { e.push((at, c + i)); for j in 0..i { e.push((c + j, c + i)); } part.push(5); }
    }
    (MG::new(part.len(), &e), part)
}
/// Two vertices joined by paths of the given numbers of edges.
pub fn theta(lens: &[usize]) -> MG {
    let mut e = vec![];
    let mut n = 2;
    for &l in lens { let mut at = 0; for _ in 1..l { e.push((at, n)); at = n; n += 1; } e.push((at, 1)); }
    MG::new(n, &e)
}
/// Cycles of p and q vertices joined by a path of d edges (sharing a vertex if d is 0).
pub fn dumbbell(p: usize, q: usize, d: usize) -> MG {
    let mut e: Vec<(usize, usize)> = (0..p).map(|i| (i, (i + 1) % p)).collect();
    let mut n = p;
    let mut at = 0;
    for _ in 0..d { e.push((at, n)); at = n; n += 1; }
    let first = at;
    for _ in 1..q { e.push((at, n)); at = n; n += 1; }
    e.push((at, first));
    MG::new(n, &e)
}
pub fn gen_petersen(n: usize, k: usize) -> MG {
    let mut e = vec![];
    for i in 0..n { e.push((i, (i + 1) % n)); e.push((i, n + i)); if (i + k) % n != i { e.push((n + i, n + (i + k) % n)); } }
    MG::new(2 * n, &e)
}
/// Complete b-ary tree with the given number of vertices.
pub fn heap_tree(n: usize, b: usize) -> MG { MG::new(n, &(1..n).map(|i| ((i - 1) / b, i)).collect::<Vec<_>>()) }
/// Circulant graph: i ~ i+s for s in steps.
pub fn circulant(n: usize, steps: u32) -> MG {
    let mut e = vec![];
    for i in 0..n { for s in 0..8 { if steps >> s & 1 == 1 { let j = (i + s + 1) % n; if j != i { e.push((i, j)); } } } }
    MG::new(n, &e)
}
pub fn hypercube(d: usize) -> MG {
    let mut e = vec![];
    for i in 0..1usize << d { for b in 0..d { let j = i ^ (1 << b); if i < j { e.push((i, j)); } } }
    MG::new(1 << d, &e)
}
/// Every edge of g replaced by a path with s inner vertices.
pub fn subdivided(g: &MG, s: usize) -> MG {
    let mut n = g.n();
    let mut e = vec![];
    for &(a, b) in &g.edges { let mut last = a; for _ in 0..s { e.push((last, n)); last = n; n += 1; } e.push((last, b)); }
    MG::new(n, &e)
}
/// Half graph: a_i ~ b_j iff i <= j.
pub fn half_graph(k: usize) -> MG { let mut e = vec![]; for i in 0..k { for j in i..k { e.push((i, k + j)); } } MG::new(2 * k, &e) }
pub fn wheel(k: usize) -> MG { let mut g = cycle(k).edges; for i in 0..k { g.push((i, k)); } MG::new(k + 1, &g) }
/// Clique with pendant path: degeneracy and low-degree mix.
pub fn lollipop(k: usize, p: usize) -> MG {
    let mut e = clique(k).edges;
    for i in 0..p { e.push((if i == 0 { 0 } else { k + i - 1 }, k + i)); }
    MG::new(k + p, &e)
}
pub fn disjoint(gs: &[MG]) -> MG {
    let mut e = vec![];
    let mut o = 0;
    for g in gs { for &(a, b) in &g.edges { e.push((a + o, b + o)); } o += g.n(); }
    MG::new(o, &e)
}
/// The same graph with its positions permuted by a fixed rule (0: as is, 1: reversed,
/// 2: odd positions first, 3: middle out).
pub fn reorder(g: &MG, rule: u64) -> MG {
    let n = g.n();
    let ord: Vec<usize> = match rule {
        0 => (0..n).collect(),
        1 => (0..n).rev().collect(),
        2 => (0..n).filter(|i| i % 2 == 1).chain((0..n).filter(|i| i % 2 == 0)).collect(),
        _ => { let mut v: Vec<usize> = (0..n).collect(); v.sort_by_key(|&i| (i as i64 - n as i64 / 2).abs()); v }
    };
    let mut pos = vec![0; n];
    for (p, &v) in ord.iter().enumerate() { pos[v] = p; }
    MG::new(n, &g.edges.iter().map(|&(a, b)| (pos[a], pos[b])).collect::<Vec<_>>())
}

pub type Lazy = Box<dyn Fn() -> MG + Send + Sync>;
/// Named medium-size shapes: every size up to `big` for the sparse families.
pub fn shapes(big: usize, dense: usize) -> Vec<(String, Lazy)> {
    let mut v: Vec<(String, Lazy)> = vec![];
    let mut add = |s: String, f: Lazy| v.push((s, f));
    for n in 1..=big { add(format!("path {n}"), Box::new(move || path(n))); }
    for n in 3..=big { add(format!("cycle {n}"), Box::new(move || cycle(n))); }
    for k in 1..=big {
        add(format!("star {k} centre first"), Box::new(move || star_at(k, 0)));
        add(format!("star {k} centre last"), Box::new(move || star_at(k, k)));
        add(format!("star {k} centre mid"), Box::new(move || star_at(k, k / 2)));
    }
    for n in 1..=dense { add(format!("clique {n}"), Box::new(move || clique(n))); }
    for a in 1..=dense / 2 { for b in [a, a + 1, 2 * a, dense] { add(format!("biclique {a} {b}"), Box::new(move || biclique(a, b))); } }
    for legs in 2..=big / 4 { for len in [2usize, 3, 4] { if legs * len <= big { add(format!("spider {legs}x{len}"), Box::new(move || spider(legs, len))); } } }
    for s in 2..=6usize { for t in s..=big / s { if s * t <= big { add(format!("grid {s}x{t}"), Box::new(move || grid(s, t))); } } }
    for n in (4..=big).step_by(3) { for b in 2..=4 { add(format!("{b}-ary tree {n}"), Box::new(move || heap_tree(n, b))); } }
    for n in 5..=big.min(14) { for st in 1..16u32 { add(format!("circulant {n} {st:04b}"), Box::new(move || circulant(n, st))); } }
    for d in 2..=5 { if 1 << d <= big { add(format!("hypercube {d}"), Box::new(move || hypercube(d))); } }
    for k in 3..=dense.min(9) { for s in 1..=3 { add(format!("clique {k} subdivided {s}"), Box::new(move || subdivided(&clique(k), s))); } }
    for k in 2..=dense / 2 { add(format!("half graph {k}"), Box::new(move || half_graph(k))); }
    for k in 3..=dense { add(format!("wheel {k}"), Box::new(move || wheel(k))); }
    for k in 3..=dense { for p in [1, 3, k] { add(format!("lollipop {k}+{p}"), Box::new(move || lollipop(k, p))); } }
    for k in 1..=6 { add(format!("multipartite 3^{k}"), Box::new(move || multipartite(&vec![3; k]))); }
    for k in 1..=6 { add(format!("multipartite 2^{k}"), Box::new(move || multipartite(&vec![2; k]))); }
    for k in 1..=6 { add(format!("{k} copies mixed"), Box::new(move || disjoint(&(1..=k).flat_map(|i| [cycle(2 + i), path(i), clique(i)]).collect::<Vec<_>>()))); }
    for k in 2..=8 { if k * (k + 2) < big { add(format!("hub of {k} cliques"), Box::new(move || hub_of_cliques(k))); } }
    for k in 3..=dense { for len in 1..=3 { if k * (len + 1) <= big { add(format!("clique {k} with tails of {len}"), Box::new(move || tailed_clique(k, len))); } } }
    for n in [3, 5, 8] { for legs in 1..=3 { if n * (legs + 1) <= big { add(format!("caterpillar {n}x{legs}"), Box::new(move || caterpillar(n, legs))); } } }
    for (legs, len, forks) in [(3, 1, 2), (3, 2, 2), (5, 2, 3), (6, 3, 2)] { if legs * (len + forks) < big { add(format!("forked spider {legs}x{len}x{forks}"), Box::new(move || forked(legs, len, 1, forks, 0, 0, 0).0)); } }
    for c in 2..=6usize { for b in 1..=c { for a in 1..=b { if b > 1 && a + b + c < big { add(format!("theta {a},{b},{c}"), Box::new(move || theta(&[a, b, c]))); } } } }
    for p in 3..=7usize { for q in p..=7 { for d in 0..=3 { if p + q + d <= big { add(format!("cycles {p} and {q} joined by {d} edges"), Box::new(move || dumbbell(p, q, d))); } } } }
    for n in 5..=9usize { for k in 2..=n / 2 { if 2 * n <= big { add(format!("generalised petersen {n},{k}"), Box::new(move || gen_petersen(n, k))); } } }
    add("petersen".into(), Box::new(|| { let mut e = vec![]; for i in 0..5 { e.push((i, (i + 1) % 5)); e.push((i, i + 5)); e.push((5 + i, 5 + (i + 2) % 5)); } MG::new(10, &e) }));
    v
}

// -------------------------------------------------------------- graphs up to isomorphism
/// Edge mask of the smallest relabelling of the graph (individualisation and refinement; of
/// vertices with equal neighbourhoods only one is tried).
fn canon(n: usize, adj: &[u16]) -> u64 {
    fn refine(n: usize, adj: &[u16], cells: &mut Vec<u16>) {
        loop {
            let mut next: Vec<u16> = vec![];
            for &c in cells.iter() {
                if c & (c - 1) == 0 { next.push(c); continue; }
                let mut sig: Vec<(u64, usize)> = (0..n).filter(|&v| c >> v & 1 == 1)
                    .map(|v| (cells.iter().fold(0u64, |s, &d| s * 16 + (adj[v] & d).count_ones() as u64), v)).collect();
                sig.sort_unstable();
                let mut k = 0;
                while k < sig.len() {
                    let mut cell = 0;
                    let s = sig[k].0;
                    while k < sig.len() && sig[k].0 == s { cell |= 1 << sig[k].1; k += 1; }
                    next.push(cell);
                }
            }
            let done = next.len() == cells.len();
            *cells = next;
            if done { return; }
        }
    }
    fn go(n: usize, adj: &[u16], mut cells: Vec<u16>, best: &mut u64) {
        refine(n, adj, &mut cells);
        match cells.iter().position(|&c| c & (c - 1) != 0) {
            None => {
                let ord: Vec<usize> = cells.iter().map(|c| c.trailing_zeros() as usize).collect();
                let (mut m, mut b) = (0u64, 0);
                for i in 0..n { for j in i + 1..n { if adj[ord[i]] >> ord[j] & 1 == 1 { m |= 1 << b; } b += 1; } }
                *best = m.min(*best);
            }
            Some(p) => {
                let c = cells[p];
                let mut tried: Vec<usize> = vec![];
                for v in (0..n).filter(|&v| c >> v & 1 == 1) {
                    let twin = |u: usize| (adj[u] ^ adj[v]) & !(1 << u | 1 << v) == 0;
                    if tried.iter().any(|&u| twin(u)) { continue; }
                    tried.push(v);
                    let mut x = cells.clone();
                    x[p] = c & !(1 << v);
                    x.insert(p, 1 << v);
                    go(n, adj, x, best);
                }
            }
        }
    }
    if n == 0 { return 0; }
    let mut best = u64::MAX;
    go(n, adj, vec![(1u16 << n) - 1], &mut best);
    best
}
fn mask_adj(n: usize, mut mask: u64) -> Vec<u16> {
    let mut a = vec![0u16; n];
    for i in 0..n { for j in i + 1..n { if mask & 1 == 1 { a[i] |= 1 << j; a[j] |= 1 << i; } mask >>= 1; } }
    a
}
/// One mask per isomorphism class of graphs on n <= 9 vertices.
pub fn iso(n: usize) -> &'static [u64] {
    static CACHE: [std::sync::OnceLock<Vec<u64>>; 10] = [const { std::sync::OnceLock::new() }; 10];
    CACHE[n].get_or_init(|| {
        if n == 0 { return vec![0]; }
        let base = iso(n - 1);
        let step = base.len().div_ceil(8);
        let mut all: Vec<u64> = std::thread::scope(|sc| {
            let hs: Vec<_> = base.chunks(step).map(|ch| sc.spawn(move || {
                let mut v = vec![];
                for &m in ch {
                    let a = mask_adj(n - 1, m);
                    for s in 0u16..1 << (n - 1) {
                        let mut b = a.clone();
                        b.push(s);
                        for i in 0..n - 1 { if s >> i & 1 == 1 { b[i] |= 1 << (n - 1); } }
                        v.push(canon(n, &b));
                    }
                }
                v.sort_unstable();
                v.dedup();
                v
            })).collect();
            hs.into_iter().flat_map(|h| h.join().unwrap()).collect()
        });
        all.sort_unstable();
        all.dedup();
        // the known numbers of graphs up to isomorphism
        assert_eq!(all.len(), [1, 1, 2, 4, 11, 34, 156, 1044, 12_346, 274_668][n]);
        all
    })
}
pub fn niso(n: usize) -> u64 { [1, 1, 2, 4, 11, 34, 156, 1044, 12_346, 274_668][n] }
/// Graph `idx / orders` up to isomorphism, its vertices in order number `idx % orders` of a spread of all orders.
pub fn iso_at(n: usize, orders: u64, idx: u64) -> MG {
    let (g, k) = (idx / orders, idx % orders);
    let f = factorial(n);
    let p = perm(n, (g * 7919 + k * (f / orders + 1) + k * k) % f);
    let m = MG::from_mask(n, false, iso(n)[g as usize]);
    MG::new(n, &m.edges.iter().map(|&(a, b)| (p[a], p[b])).collect::<Vec<_>>())
}
/// Families over all graphs on n vertices up to isomorphism: (n, vertex orders) by tier.
pub fn iso_fams(f: &mut Vec<crate::engine::Family>, what: &str, t: crate::engine::Tier, quick: &[(usize, u64)], thorough: &[(usize, u64)], check: impl Fn(&mut crate::engine::Ctx, &MG, u64) -> crate::engine::Res + Send + Sync + Clone + 'static) {
    for &(n, orders) in t.pick(quick, thorough) {
        let check = check.clone();
        f.push(crate::engine::fam(format!("{what}all {n}-vertex graphs up to isomorphism x {orders} vertex orders x label schemes"), niso(n) * orders, move |idx, cx| {
            let m = iso_at(n, orders, idx);
            let l = labels(idx % SCHEMES, n);
            // hash order: the labels' own, or (small labels) permuted
            if idx % SCHEMES < 2 { fxhash::seam::set(Some(seam_table(n, idx * 104_729 % factorial(n)))); }
            let m = m.with_labels(l);
            cx.note(|| m.show());
            cx.state(m.dig().add(n as u64));
            check(cx, &m, idx)
        }));
    }
}

// -------------------------------------------------------------- trees up to isomorphism
/// Parent list of one tree per isomorphism class on n <= 14 vertices (grown leaf by leaf, told
/// apart by their centre-rooted nested codes).
pub fn free_trees(n: usize) -> &'static [Vec<(usize, usize)>] {
    static CACHE: [std::sync::OnceLock<Vec<Vec<(usize, usize)>>>; 15] = [const { std::sync::OnceLock::new() }; 15];
    fn code(m: &MG, v: usize, from: usize) -> String {
        let mut k: Vec<String> = m.nb[v].iter().filter(|&&u| u != from).map(|&u| code(m, u, v)).collect();
        k.sort_unstable();
        format!("({})", k.concat())
    }
    CACHE[n].get_or_init(|| {
        if n <= 1 { return vec![vec![]]; }
        let mut seen = std::collections::BTreeMap::new();
        for t in free_trees(n - 1) {
            for v in 0..n - 1 {
                let mut e = t.clone();
                e.push((v, n - 1));
                let m = MG::new(n, &e);
                let ecc: Vec<usize> = (0..n).map(|s| m.bfs(&[s]).into_iter().max().unwrap()).collect();
                let rad = *ecc.iter().min().unwrap();
                let c = (0..n).filter(|&x| ecc[x] == rad).map(|x| code(&m, x, usize::MAX)).min().unwrap();
                seen.entry(c).or_insert(e);
            }
        }
        let all: Vec<_> = seen.into_values().collect();
        assert_eq!(all.len() as u64, ntrees_iso(n));
        all
    })
}
/// The known numbers of trees up to isomorphism.
pub fn ntrees_iso(n: usize) -> u64 { [1, 1, 1, 1, 2, 3, 6, 11, 23, 47, 106, 235, 551, 1301, 3159][n] }
/// Families over all trees on n vertices up to isomorphism: (n, vertex orders) by tier.
pub fn tree_fams(f: &mut Vec<crate::engine::Family>, what: &str, t: crate::engine::Tier, quick: &[(usize, u64)], thorough: &[(usize, u64)], check: impl Fn(&mut crate::engine::Ctx, &MG, u64) -> crate::engine::Res + Send + Sync + Clone + 'static) {
    for &(n, orders) in t.pick(quick, thorough) {
        let check = check.clone();
        f.push(crate::engine::fam(format!("{what}all {n}-vertex trees up to isomorphism x {orders} vertex orders x label schemes"), ntrees_iso(n) * orders, move |idx, cx| {
            let (g, k) = (idx / orders, idx % orders);
            let fac = factorial(n);
            // order 0 and 1: as grown, and reversed; the others spread over all orders
            let p = match k { 0 => (0..n).collect(), 1 => (0..n).rev().collect(), _ => perm(n, (g * 7919 + k * (fac / orders + 1) + k * k) % fac) };
            let m = MG::new(n, &free_trees(n)[g as usize].iter().map(|&(a, b)| (p[a], p[b])).collect::<Vec<_>>());
            let m = m.with_labels(labels(idx % SCHEMES, n));
            cx.note(|| m.show());
            cx.state(m.dig().add(n as u64));
            check(cx, &m, idx)
        }));
    }
}

/// Large shapes around sizes where representations tend to change; `dense`: cliques and bicliques too.
pub fn large(max: usize, dense: bool) -> Vec<(String, Lazy)> {
    let mut v: Vec<(String, Lazy)> = vec![];
    let mut add = |s: String, f: Lazy| v.push((s, f));
    for n in [127usize, 128, 129, 130, 255, 256, 257, 258, 511, 512, 513, 1000, 1024, 1025, 2049, 4097] {
        if n > max { continue; }
        add(format!("path {n}"), Box::new(move || path(n)));
        add(format!("cycle {n}"), Box::new(move || cycle(n)));
        add(format!("star {} centre first", n - 1), Box::new(move || star_at(n - 1, 0)));
        add(format!("star {} centre last", n - 1), Box::new(move || star_at(n - 1, n - 1)));
        add(format!("3-ary tree {n}"), Box::new(move || heap_tree(n, 3)));
        add(format!("spider {}x2", n / 2), Box::new(move || spider(n / 2, 2)));
        add(format!("{} triangles and {} isolated vertices", n / 4, n - n / 4 * 3), Box::new(move || { let mut p = vec![cycle(3); n / 4]; p.push(MG::new(n - n / 4 * 3, &[])); disjoint(&p) }));
        add(format!("grid 8x{}", n / 8), Box::new(move || grid(8, n / 8)));
        if dense && n <= 258 {
            add(format!("clique {n}"), Box::new(move || clique(n)));
            add(format!("biclique 9x{n}"), Box::new(move || biclique(9, n)));
            add(format!("wheel {n}"), Box::new(move || wheel(n)));
            add(format!("half graph {}", n / 2), Box::new(move || half_graph(n / 2)));
        }
    }
    v
}

/// The graph with loops: on all vertices (way 3), or on every third, the last and the two of largest degree.
pub fn looped(m: &MG, way: u64) -> MG {
    let n = m.n();
    let mut e = m.edges.clone();
    e.extend((0..n).filter(|i| way == 3 || i % 3 == way as usize || i + 1 == n).map(|i| (i, i)));
    let mut big: Vec<usize> = (0..n).collect();
    big.sort_by_key(|&i| std::cmp::Reverse(m.nb[i].len()));
    e.extend(big.iter().take(2).map(|&i| (i, i)));
    MG::new(n, &e).with_labels(m.labels.clone())
}
/// The arcs of a digraph over the graph: one way, the other way and both ways in turn; loops once.
pub fn oriented(m: &MG) -> DG {
    DG::new(m.n(), &m.edges.iter().enumerate().flat_map(|(i, &(a, b))| if a == b { vec![(a, b)] } else { match i % 3 { 0 => vec![(a, b)], 1 => vec![(b, a)], _ => vec![(a, b), (b, a)] } }).collect::<Vec<_>>()).with_labels(m.labels.clone())
}

/// Dense graphs that need about `max` colours: cliques with further vertices that each miss one member of the
/// clique (and see all the others), and complements of paths, cycles and matchings.
pub fn dense_shapes(max: usize) -> Vec<(String, Lazy)> {
    let mut v: Vec<(String, Lazy)> = vec![];
    for k in [5usize, 9, 16, 17, 31, 32, 33, 34, 63, 64, 65, 66, 67, 70, 127, 128, 129, 130, 200, 255, 256, 257, 258, 300] {
        if k > max { continue; }
        let mut js: Vec<usize> = [0, 1, 2, 7, 8, 15, 16, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256, k / 2, k - 2, k - 1].into_iter().filter(|&j| j < k).collect();
        js.sort_unstable();
        js.dedup();
        for adjacent in [false, true] {
            let js = js.clone();
            v.push((format!("clique {k} and {} {} vertices that each miss one member of it", js.len(), if adjacent { "adjacent" } else { "independent" }), Box::new(move || {
                let mut e = clique(k).edges;
                for (x, &j) in js.iter().enumerate() {
                    for i in 0..k { if i != j { e.push((i, k + x)); } }
                    if adjacent { for y in 0..x { e.push((k + y, k + x)); } }
                }
                MG::new(k + js.len(), &e)
            })));
        }
        for (what, step) in [("path", 1), ("matching", 2)] {
            v.push((format!("complement of a {what} on {k} vertices"), Box::new(move || {
                MG::new(k, &(0..k).flat_map(|i| (i + 1..k).map(move |j| (i, j))).filter(|&(i, j)| !(j == i + 1 && i % step == 0)).collect::<Vec<_>>())
            })));
        }
    }
    v
}

/// Is this one of the `huge` shapes? (Callers then run fewer variants.)
pub fn is_huge(m: &MG) -> bool { m.n() > 60_000 }
/// Sizes just above 2^16: vertices, degrees, components or positions that no longer fit 16 bits.
pub fn huge() -> Vec<(String, Lazy)> {
    vec![
        ("path 65541".into(), Box::new(|| path(65_541))),
        ("cycle 65543".into(), Box::new(|| cycle(65_543))),
        ("star 65540 centre first".into(), Box::new(|| star_at(65_540, 0))),
        ("star 65540 centre last".into(), Box::new(|| star_at(65_540, 65_540))),
        ("10 pairs far apart and 65529 isolated vertices".into(), Box::new(|| MG::new(65_549, &(0..10).map(|i| (i * 700, 65_548 - 3 * i)).collect::<Vec<_>>()))),
        ("spider 32777x2".into(), Box::new(|| spider(32_777, 2))),
    ]
}

/// Radii, distances and depths around the sizes of machine integers and of small tables.
pub const FAR: [usize; 23] = [6, 7, 8, 9, 10, 12, 15, 16, 17, 20, 31, 32, 33, 40, 63, 64, 65, 100, 127, 128, 129, 255, 257];
/// Long thin graphs on about n vertices, each under four orders.
pub fn longs(n: usize) -> Vec<(String, Lazy)> {
    let mut v: Vec<(String, Lazy)> = vec![];
    for o in 0..4 {
        for k in 0..5 {
            let name = format!("{} of about {n} vertices, {}", ["path", "cycle", "path with a pendant at every vertex", "two paths", "ladder"][k], ["in order", "reversed", "halving", "ends first"][o]);
            v.push((name, Box::new(move || {
                let g = match k { 0 => path(n), 1 => cycle(n), 2 => caterpillar(n / 2, 1), 3 => disjoint(&[path(n * 2 / 3), path(n / 3)]), _ => grid(2, n / 2) };
                let n = g.n();
                let ord: Vec<usize> = match o {
                    0 => (0..n).collect(),
                    1 => (0..n).rev().collect(),
                    2 => { let b = usize::BITS - n.leading_zeros(); let mut v: Vec<usize> = (0..n).collect(); v.sort_by_key(|x| x.reverse_bits() >> (usize::BITS - b)); v }
                    _ => (0..n).map(|i| if i % 2 == 0 { i / 2 } else { n - 1 - i / 2 }).collect(),
                };
                let mut pos = vec![0; n];
                for (i, &x) in ord.iter().enumerate() { pos[x] = i; }
                MG::new(n, &g.edges.iter().map(|&(a, b)| (pos[a], pos[b])).collect::<Vec<_>>())
            })));
        }
    }
    v
}
