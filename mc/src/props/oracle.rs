//! C20: the trace oracle.
use crate::engine::*;
use crate::obs::plain;
use crate::space::*;
use crate::ck_eq;
use graphbench::datastructures::SReachTraceOracle;
use graphbench::degengraph::DegenGraph;
use graphbench::graph::*;
use std::collections::BTreeMap;

/// Checks one oracle on one set of positions (increasing = graph order).
fn check_set(cx: &mut Ctx, o: &SReachTraceOracle, g: &DegenGraph, m: &MG, nb: &[u128], set: &[usize], what: &str) -> Res {
    let inner: Vec<u32> = set.iter().map(|&i| m.l(i)).collect();
    let mask = set.iter().fold(0u128, |a, &i| a | 1 << i);
    let mut want: BTreeMap<u128, usize> = BTreeMap::new();
    let mut touching = 0usize;
    for v in 0..m.n() {
        if mask >> v & 1 == 1 { continue; }
        let t = nb[v] & mask;
        *want.entry(t).or_default() += 1;
        if t != 0 { touching += 1; }
    }
    let lset = |t: u128| -> Vec<u32> { set.iter().filter(|&&i| t >> i & 1 == 1).map(|&i| m.l(i)).collect() };
    let got: BTreeMap<Vec<u32>, usize> = o.compute_traces(&inner, g).into_iter().filter(|(_, c)| *c != 0).collect();
    let want_l: BTreeMap<Vec<u32>, usize> = want.iter().map(|(&t, &c)| (lset(t), c)).collect();
    ck_eq!(cx, got, want_l, "{what}: traces on {inner:?}");
    ck_eq!(cx, o.compute_neighbour_count(&inner, g), touching, "{what}: outside vertices with a neighbour in {inner:?}");
    let k0 = set.len() as u32;
    if k0 <= 12 {
        let full = want.len() == 1usize << k0;
        let least = want.values().cloned().min().unwrap_or(0);
        for k in k0..=if full { k0 + 4 } else { k0 + 1 } {
            let s = full && least >= 1usize << (k - k0);
            // the set may be handed over in any order, by value or by reference
            ck_eq!(cx, o.is_shattered(inner.iter(), k, g), s, "{what}: {inner:?} shattered with parameter {k}");
            if k == k0 || full { ck_eq!(cx, o.is_shattered(plain(inner.iter().rev().cloned()), k, g), s, "{what}: reversed {inner:?} shattered with parameter {k}"); }
        }
        // parameters no graph is large enough for
        for k in if full { vec![k0 + 63, k0 + 64, 100, u32::MAX] } else { vec![[k0 + 64, u32::MAX][(mask % 2) as usize]] } {
            ck_eq!(cx, o.is_shattered(inner.iter(), k, g), false, "{what}: {inner:?} shattered with parameter {k}");
        }
    }
    Ok(())
}
/// The same on graphs of any size.
fn check_big(cx: &mut Ctx, o: &SReachTraceOracle, g: &DegenGraph, m: &MG, set: &[usize]) -> Res {
    cx.state(m.dig().adds(set.iter().map(|&x| x as u64)));
    let inner: Vec<u32> = set.iter().map(|&i| m.l(i)).collect();
    let mut want: BTreeMap<Vec<u32>, usize> = BTreeMap::new();
    for v in 0..m.n() { if set.binary_search(&v).is_err() { *want.entry(set.iter().filter(|&&i| m.adj(v, i)).map(|&i| m.l(i)).collect()).or_default() += 1; } }
    let touching: usize = want.iter().filter(|x| !x.0.is_empty()).map(|x| x.1).sum();
    let got: BTreeMap<Vec<u32>, usize> = o.compute_traces(&inner, g).into_iter().filter(|(_, c)| *c != 0).collect();
    ck_eq!(cx, got, want, "traces on {inner:?}");
    ck_eq!(cx, o.compute_neighbour_count(&inner, g), touching, "outside vertices with a neighbour in {inner:?}");
    let k = set.len() as u32;
    if k < 32 {
        let full = want.len() == 1 << k;
        let least = want.values().min().cloned().unwrap_or(0);
        for p in [k, k + 1, k + 15, k + 16, k + 17] { ck_eq!(cx, o.is_shattered(inner.iter(), p, g), full && least >= 1 << (p - k), "{inner:?} shattered with parameter {p}"); }
    }
    Ok(())
}
fn nbs(m: &MG) -> Vec<u128> { (0..m.n()).map(|i| m.nb[i].iter().fold(0u128, |a, &j| a | 1 << j)).collect() }
fn bits(s: u64) -> Vec<usize> { (0..64).filter(|&i| s >> i & 1 == 1).collect() }

/// Every subset of the vertices.
fn check_all(cx: &mut Ctx, m: &MG, norm: bool) -> Res {
    let g = m.degen();
    let o = SReachTraceOracle::for_graph(&g);
    let nb = nbs(m);
    for s in 0..1u64 << m.n() { check_set(cx, &o, &g, m, &nb, &bits(s), "given order")?; }
    if m.n() <= 5 {
        let g = m.degen_rev();
        let o = SReachTraceOracle::for_graph(&g);
        for s in 0..1u64 << m.n() { check_set(cx, &o, &g, m, &nb, &bits(s), "given order, assembled by hand")?; }
    }
    if norm {
        // the degeneracy ordering the graph picks for itself
        let g = DegenGraph::from_graph(&m.edit());
        let ord: Vec<u32> = g.vertices().cloned().collect();
        let ix = m.index();
        let mut pos = vec![0; m.n()];
        for (p, l) in ord.iter().enumerate() { pos[ix[l]] = p; }
        let m2 = MG::new(m.n(), &m.edges.iter().map(|&(a, b)| (pos[a], pos[b])).collect::<Vec<_>>()).with_labels(ord);
        let o = SReachTraceOracle::for_graph(&g);
        let nb = nbs(&m2);
        for s in 0..1u64 << m.n() { check_set(cx, &o, &g, &m2, &nb, &bits(s), "degeneracy order")?; }
    }
    Ok(())
}

/// Vertices 0..k shattered with multiplicity t; `miss` (if any) is a trace of which one copy is left out.
fn shattered(k: usize, t: usize, miss: Option<usize>, inner_edges: bool) -> MG {
    let mut e = vec![];
    let mut n = k;
    for s in 0..1usize << k {
        for c in 0..t {
            if c == 0 && miss == Some(s) { continue; }
            for i in 0..k { if s >> i & 1 == 1 { e.push((i, n)); } }
            n += 1;
        }
    }
    if inner_edges { for i in 0..k { for j in 0..i { e.push((j, i)); } } }
    MG::new(n, &e)
}
/// All ways to place k special vertices among n positions (injective, ordered).
fn placement(n: usize, k: usize, mut idx: u64) -> Vec<usize> {
    let mut pool: Vec<usize> = (0..n).collect();
    (0..k).map(|_| { let l = pool.len() as u64; let r = pool.remove((idx % l) as usize); idx /= l; r }).collect()
}
fn nplacements(n: usize, k: usize) -> u64 { (0..k).map(|i| (n - i) as u64).product() }
/// Puts the first k vertices at the given positions and the rest, in order (or reversed), around them.
fn place(m: &MG, at: &[usize], rev: bool) -> (MG, Vec<usize>) {
    let n = m.n();
    let mut rest: Vec<usize> = (0..n).filter(|p| !at.contains(p)).collect();
    if rev { rest.reverse(); }
    let pos: Vec<usize> = at.iter().cloned().chain(rest).collect();
    let mut set = at.to_vec();
    set.sort_unstable();
    (MG::new(n, &m.edges.iter().map(|&(a, b)| (pos[a], pos[b])).collect::<Vec<_>>()), set)
}

pub fn c20(t: Tier) -> Vec<Family> {
    let mut f = vec![];
    f.push(fam("all graphs on <= 5 vertices (identity order) x label schemes, every vertex subset", ngraphs_upto(5, false) * SCHEMES, |idx, cx| {
        let m = graph_upto(5, false, idx / SCHEMES);
        let l = labels(idx % SCHEMES, m.n());
        let m = m.with_labels(l);
        cx.note(|| m.show());
        cx.state(m.dig());
        check_all(cx, &m, true)
    }));
    f.push(fam("all 5-vertex graphs x 120 hash orders, every vertex subset", ngraphs(5, false) * 120, |idx, cx| {
        fxhash::seam::set(Some(seam_table(5, idx % 120)));
        let m = MG::from_mask(5, false, idx / 120);
        cx.note(|| format!("{} hash order {:?}", m.show(), perm(5, idx % 120)));
        cx.state(m.dig().add(idx % 120));
        check_all(cx, &m, false)
    }));
    f.push(fam("all 6-vertex graphs, every vertex subset", ngraphs(6, false), |idx, cx| {
        let m = MG::from_mask(6, false, idx);
        cx.note(|| m.show());
        cx.state(m.dig());
        check_all(cx, &m, t_norm(idx))
    }));
    if t.thorough() {
        f.push(fam("all 7-vertex graphs, every vertex subset", ngraphs(7, false), |idx, cx| {
            let m = MG::from_mask(7, false, idx);
            cx.state(m.dig());
            check_all(cx, &m, false)
        }));
    }
    // shattered and almost shattered sets, the set at every placement in the order
    let mut kinds: Vec<(usize, usize, Option<usize>, bool)> = vec![];
    for (k, ts) in [(1usize, 1..=9usize), (2, 1..=5), (3, 1..=t.pick(2, 4))] {
        for mult in ts {
            for ie in [false, true] {
                kinds.push((k, mult, None, ie));
                for s in 0..1 << k { kinds.push((k, mult, Some(s), ie)); }
            }
        }
    }
    if t.thorough() { for ie in [false, true] { kinds.push((4, 1, None, ie)); for s in 0..16 { kinds.push((4, 1, Some(s), ie)); } } }
    let mut starts = vec![0u64];
    for &(k, mu, miss, _) in &kinds { starts.push(starts.last().unwrap() + 2 * nplacements(k + (mu << k) - miss.is_some() as usize, k)); }
    let total = *starts.last().unwrap();
    f.push(fam("shattered sets of size 1..=3 (thorough: 4), complete and with one trace short, the set at every placement x outside order", total, move |idx, cx| {
        let i = starts.partition_point(|&s| s <= idx) - 1;
        let (k, mu, miss, ie) = kinds[i];
        let r = idx - starts[i];
        let base = shattered(k, mu, miss, ie);
        let at = placement(base.n(), k, r / 2);
        let (m, set) = place(&base, &at, r % 2 == 1);
        let l = labels(idx % SCHEMES, m.n());
        let m = m.with_labels(l);
        cx.note(|| format!("set at {at:?} of {}", m.show()));
        cx.state(m.dig());
        let g = m.degen();
        let o = SReachTraceOracle::for_graph(&g);
        check_set(cx, &o, &g, &m, &nbs(&m), &set, "placed set")
    }));
    let sh = shapes(t.pick(36, 70), t.pick(14, 20));
    let pairs_max = t.pick(3usize, 3);
    f.push(fam("named shapes x 4 vertex orders, every subset of size <= 3 of the first 14 vertices, neighbourhoods, residue classes and everything", sh.len() as u64 * 4, move |idx, cx| {
        let (name, mk) = &sh[(idx / 4) as usize];
        let m = reorder(&mk(), idx % 4);
        let l = labels([0, 2, 3, 4][(idx % 4) as usize], m.n());
        let m = m.with_labels(l);
        cx.note(|| format!("{name} order {}: {}", idx % 4, m.show()));
        cx.state(m.dig());
        let n = m.n();
        let g = m.degen();
        let o = SReachTraceOracle::for_graph(&g);
        let nb = nbs(&m);
        let p = n.min(14);
        for s in 0..1u64 << p { if s.count_ones() as usize <= pairs_max { check_set(cx, &o, &g, &m, &nb, &bits(s), name)?; } }
        let mut big: Vec<Vec<usize>> = vec![(0..n).collect(), (0..n / 2).collect(), (n / 2..n).collect()];
        for r in 0..3 { big.push((0..n).filter(|i| i % 3 == r).collect()); }
        for i in 0..n { big.push(m.nb[i].clone()); let mut c = m.nb[i].clone(); c.push(i); c.sort_unstable(); c.dedup(); big.push(c); }
        for b in big { check_set(cx, &o, &g, &m, &nb, &b, name)?; }
        Ok(())
    }));
    // contexts wider than one machine word
    f.push(fam("bicliques, cliques and stars with 60..=70 context vertices x 4 orders", 11 * 3 * 4, |idx, cx| {
        let k = 60 + (idx / 12) as usize;
        let base = match idx / 4 % 3 { 0 => clique(k), 1 => biclique(k, 6), _ => wheel(k) };
        let m = reorder(&base, idx % 4);
        cx.note(|| format!("{} vertices, {} edges, order {}", m.n(), m.m(), idx % 4));
        cx.state(m.dig());
        let n = m.n();
        let g = m.degen();
        let o = SReachTraceOracle::for_graph(&g);
        let nb = nbs(&m);
        for b in [vec![], vec![0], vec![n - 1], vec![0, n - 1], vec![31, 32], (0..n).collect::<Vec<_>>(), (n - 8..n).collect(), (0..8).collect(), (0..n).step_by(9).collect()] { check_set(cx, &o, &g, &m, &nb, &b, "wide")?; }
        Ok(())
    }));
    // contexts of several machine words
    let ks: Vec<usize> = if t.thorough() { (71..=140).chain([191, 192, 193, 255, 256, 257, 258, 300, 511, 512, 513]).collect() } else { vec![71, 95, 99, 101, 127, 128, 129, 130, 192, 256, 257, 300] };
    f.push(fam(format!("bicliques, cliques and wheels with {} to {} context vertices x 4 orders: sets of 0, 1, 2, 3, many and all vertices", ks[0], ks[ks.len() - 1]), ks.len() as u64 * 3 * 4, move |idx, cx| {
        let k = ks[(idx / 12) as usize];
        let base = match idx / 4 % 3 { 0 => clique(k), 1 => biclique(k, 6), _ => wheel(k) };
        let m = { let m = reorder(&base, idx % 4); let l = labels([0, 5, 3, 2][(idx % 4) as usize], m.n()); m.with_labels(l) };
        let n = m.n();
        cx.note(|| format!("{} vertices, {} edges, order {}", n, m.m(), idx % 4));
        let g = m.degen();
        let o = SReachTraceOracle::for_graph(&g);
        let mut sets = vec![vec![], (0..n).collect::<Vec<_>>(), (0..n / 2).collect(), (n / 2..n).collect(), (0..n).step_by(9).collect()];
        for i in 0..n { sets.push(vec![i]); if i > 0 { sets.push(vec![i - 1, i]); } if i > 40 { sets.push(vec![i % 7, i / 2, i]); } if i + 40 < n && i % 5 == 0 { sets.push((i..i + 40).step_by(7).collect()); } }
        for b in sets { check_big(cx, &o, &g, &m, &b)?; }
        Ok(())
    }));
    let hs: Vec<(String, Lazy)> = huge().into_iter().filter(|x| !x.0.contains("centre last")).collect();
    f.push(fam("shapes with more than 2^16 vertices, 6 vertex sets each: traces and neighbour counts", hs.len() as u64 * 2, move |idx, cx| {
        let (name, mk) = &hs[(idx / 2) as usize];
        let m = { let m = mk(); let l = labels(2 * (idx % 2), m.n()); m.with_labels(l) };
        let n = m.n();
        cx.note(|| format!("{name}: {}", m.show()));
        let g = m.degen();
        let o = SReachTraceOracle::for_graph(&g);
        for set in [vec![], vec![0], vec![65_537], vec![1, 3], vec![0, 2, 65_536, n - 1], vec![n - 4, n - 3, n - 1]] { check_big(cx, &o, &g, &m, &set)?; }
        Ok(())
    }));
    iso_fams(&mut f, "every vertex subset: ", t, &[(7, 3)], &[(7, 60), (8, 3)], |cx, m, idx| check_all(cx, m, idx % 3 == 0));
    f
}
fn t_norm(idx: u64) -> bool { idx % 8 == 0 }
