//! C18-C19: the distance-truncated augmentation.
use crate::engine::*;
use crate::obs::*;
use crate::props::basic::check_end;
use crate::space::*;
use crate::{ck, ck_eq};
use graphbench::dtfgraph::*;
use graphbench::editgraph::EditGraph;
use graphbench::graph::*;
use graphbench::iterators::*;
use std::collections::{BTreeMap, BTreeSet};

// ------------------------------------------------------------------ C18
fn check_distances(cx: &mut Ctx, g: &DTFGraph, m: &MG, d: &[Vec<usize>], depth: usize, what: &str) -> Res {
    ck_eq!(cx, g.get_depth(), depth, "{what}: depth");
    for i in 0..m.n() {
        for j in 0..m.n() {
            let want = if d[i][j] <= depth { Some(d[i][j] as u32) } else { None };
            ck_eq!(cx, g.small_distance(&m.l(i), &m.l(j)), want, "{what}: distance of {} and {} in the augmentation of depth {depth} (true distance {:?})", m.l(i), m.l(j), if d[i][j] == usize::MAX { None } else { Some(d[i][j]) });
        }
    }
    Ok(())
}
/// Augments along the given depths with the given lookahead, asking all queries after every step.
fn distances_along(cx: &mut Ctx, m: &MG, d: &[Vec<usize>], steps: &[usize], frat: usize, start: usize) -> Res {
    let e = m.edit();
    let mut g = if start == 0 { DTFGraph::orient(&e) } else { DTFGraph::orient_deep(&e, start) };
    let mut depth = 1;
    check_distances(cx, &g, m, d, depth, "after orienting")?;
    for (k, &s) in steps.iter().enumerate() {
        // looking at a layer (of any weight) must not affect what augmenting does
        g.layer(1 + (k * 3 + frat) % 7);
        g.augment(s, frat);
        depth = depth.max(s);
        check_distances(cx, &g, m, d, depth, &format!("steps {steps:?} lookahead {frat} start {start}"))?;
    }
    // an isolated vertex added afterwards is connected to nothing
    let x = outside(&m.labels)[0];
    g.add_vertex(x);
    ck_eq!(cx, g.small_distance(&x, &x), Some(0), "distance of the added vertex to itself");
    for &l in m.labels.iter().take(3) { ck_eq!(cx, (g.small_distance(&x, &l), g.small_distance(&l, &x)), (None, None), "distance of the added isolated vertex and {l}"); }
    Ok(())
}
/// Every increasing sequence of depths ending in `max`, and some that repeat or go back.
fn step_plans(max: usize) -> Vec<Vec<usize>> {
    let mut v = vec![];
    for s in 0u32..1 << (max - 1) {
        let mut p: Vec<usize> = (1..max).filter(|i| s >> (i - 1) & 1 == 1).collect();
        p.push(max);
        v.push(p);
    }
    v.push(vec![2, 2, max, 1, max]);
    v.push(vec![max, max, 2]);
    v
}

pub fn c18(t: Tier) -> Vec<Family> {
    let mut f = vec![];
    let plans = step_plans(4);
    let np = plans.len() as u64;
    f.push(fam(format!("all graphs on <= 4 vertices x 24 hash orders x lookahead 0..=3 x {np} step plans to depth 4"), ngraphs_upto(4, false) * 24, move |idx, cx| {
        fxhash::seam::set(Some(seam_table(4, idx % 24)));
        let m = graph_upto(4, false, idx / 24);
        cx.note(|| format!("{} hash order {:?}", m.show(), perm(4, idx % 24)));
        let d = m.dists();
        for (k, p) in plans.iter().enumerate() {
            for frat in 0..=3 {
                cx.state(m.dig().add(idx % 24).add(k as u64).add(frat));
                distances_along(cx, &m, &d, p, frat as usize, k % 3)?;
            }
        }
        Ok(())
    }));
    let so = t.pick(4u64, 120);
    let plans = vec![vec![5], vec![2, 5], vec![3, 4, 5], vec![2, 3, 4, 5], vec![6]];
    f.push(fam(format!("all 5-vertex graphs x {so} hash orders x lookahead 0..=3, depth up to 6"), ngraphs(5, false) * so, move |idx, cx| {
        let h = (idx % so) * (120 / so);
        fxhash::seam::set(Some(seam_table(5, h)));
        let m = MG::from_mask(5, false, idx / so);
        cx.note(|| format!("{} hash order {:?}", m.show(), perm(5, h)));
        let d = m.dists();
        for frat in 0..=3 {
            let p = &plans[((idx / so + idx) % plans.len() as u64) as usize];
            cx.state(m.dig().add(h).add(frat));
            distances_along(cx, &m, &d, p, frat as usize, frat as usize % 3)?;
        }
        Ok(())
    }));
    f.push(fam("all graphs on <= 5 vertices x label schemes, depth 5", ngraphs_upto(5, false) * SCHEMES, |idx, cx| {
        let m = graph_upto(5, false, idx / SCHEMES);
        let l = labels(idx % SCHEMES, m.n());
        let m = m.with_labels(l);
        cx.note(|| m.show());
        cx.state(m.dig());
        let d = m.dists();
        distances_along(cx, &m, &d, &[2, 3, 4, 5], (idx % 4) as usize, 0)
    }));
    f.push(fam("all graphs on <= 4 vertices x lookahead 0..=2, depths 17, 65, 255, 256, 257", ngraphs_upto(4, false) * 3, |idx, cx| {
        let m = graph_upto(4, false, idx / 3);
        let l = labels(idx % SCHEMES, m.n());
        let m = m.with_labels(l);
        cx.note(|| m.show());
        cx.state(m.dig().add(idx));
        let d = m.dists();
        distances_along(cx, &m, &d, &[17, 65, 255, 256, 257], (idx % 3) as usize, 0)
    }));
    let fr = t.pick(2u64, 4);
    f.push(fam(format!("all 6-vertex graphs x {fr} lookahead values, depth 6 queried at every depth"), ngraphs(6, false) * fr, move |idx, cx| {
        let (i, fr) = (idx / fr, if fr == 4 { idx % 4 } else { 2 * (idx % 2) });
        fxhash::seam::set(Some(seam_table(6, (i * 7919) % 720)));
        let m = MG::from_mask(6, false, i);
        cx.note(|| m.show());
        cx.state(m.dig().add(fr));
        let d = m.dists();
        distances_along(cx, &m, &d, &[2, 3, 4, 5, 6], fr as usize, 0)
    }));
    let tn = t.pick(7usize, 8);
    f.push(fam(format!("all {tn}-vertex trees x lookahead 0..=2, depth {tn} queried at every depth"), ntrees(tn) * 3, move |idx, cx| {
        let m = tree(tn, idx / 3);
        fxhash::seam::set(Some(seam_table(tn, (idx * 104_729) % factorial(tn))));
        cx.note(|| m.show());
        cx.state(m.dig().add(idx % 3));
        let d = m.dists();
        distances_along(cx, &m, &d, &(2..=tn).collect::<Vec<_>>(), (idx % 3) as usize, 0)
    }));
    let pn = 7usize;
    let pf = t.pick(2u64, 8);
    f.push(fam(format!("path and cycle on {pn} vertices under every hash order x {} settings", pf / 2), factorial(pn) * pf, move |idx, cx| {
        let base = if idx % 2 == 0 { path(pn) } else { cycle(pn) };
        let h = idx / pf;
        fxhash::seam::set(Some(seam_table(pn, h)));
        let frat = if pf == 2 { (h % 4) as usize } else { (idx / 2 % 4) as usize };
        cx.note(|| format!("{} hash order {:?} lookahead {frat}", base.show(), perm(pn, h)));
        cx.state(base.dig().add(h).add(frat as u64));
        let d = base.dists();
        distances_along(cx, &base, &d, &[2, 3, 4, 5, 6, 7], frat, 0)
    }));
    if t.thorough() {
        f.push(fam("all 7-vertex graphs, depth 6", ngraphs(7, false), |idx, cx| {
            let m = MG::from_mask(7, false, idx);
            cx.state(m.dig());
            let d = m.dists();
            distances_along(cx, &m, &d, &[6], (idx % 3) as usize, 0)
        }));
    }
    let hub = t.pick(13usize, 18);
    f.push(fam("hubs with 7 and more in-neighbours that have nothing else in common x lookahead 0..=2, depth 2 and 3", (hub as u64 - 6) * 3, move |idx, cx| {
        let m = hub_of_cliques(7 + (idx / 3) as usize);
        let l = labels(idx % 3, m.n());
        let m = m.with_labels(l);
        cx.note(|| format!("hub of {} cliques", 7 + idx / 3));
        cx.state(m.dig().add(idx % 3));
        distances_along(cx, &m, &m.dists(), &[2, 3], (idx % 3) as usize, 0)
    }));
    let mut sh = shapes(t.pick(36, 70), t.pick(9, 14));
    sh.extend(large(t.pick(127, 130), false));
    f.push(fam("named shapes x 4 vertex orders x lookahead 0..=3, depths 2..=8", sh.len() as u64 * 16, move |idx, cx| {
        let (name, mk) = &sh[(idx / 16) as usize];
        let (o, frat) = (idx / 4 % 4, (idx % 4) as usize);
        let m = reorder(&mk(), o);
        let l = labels([0, 5, 3, 2][o as usize], m.n());
        let m = m.with_labels(l);
        cx.note(|| format!("{name} order {o} lookahead {frat}: {}", m.show()));
        cx.state(m.dig().add(frat as u64));
        let d = m.dists();
        let steps: &[usize] = if frat % 2 == 0 { &[2, 3, 4, 5, 6, 7, 8] } else { &[3, 8] };
        distances_along(cx, &m, &d, steps, frat, 0)
    }));
    let lg = longs(t.pick(36, 72));
    f.push(fam("long thin graphs x lookahead 0..=2, depths up to 12, 17, 33, 35", lg.len() as u64 * 12, move |idx, cx| {
        let (name, mk) = &lg[(idx / 12) as usize];
        let m = mk();
        let l = labels(idx % SCHEMES, m.n());
        let m = m.with_labels(l);
        cx.note(|| format!("{name} plan {} lookahead {}", idx % 4, idx / 4 % 3));
        cx.state(m.dig().add(idx));
        let steps: &[usize] = [&[2, 4, 6, 7, 8, 9, 10, 11, 12][..], &[9, 16, 17], &[5, 33], &[35]][(idx % 4) as usize];
        distances_along(cx, &m, &m.dists(), steps, (idx / 4 % 3) as usize, 0)
    }));
    let lg = longs(t.pick(280, 540));
    let far: &'static [usize] = t.pick(&[40, 257], &[40, 257, 513]);
    f.push(fam(format!("long thin graphs of about {} vertices x lookahead 0..=2, depths {far:?}, from 9 vertices to all others", t.pick(280, 540)), lg.len() as u64 * 3, move |idx, cx| {
        let (name, mk) = &lg[(idx / 3) as usize];
        let m = mk();
        let l = labels(idx % SCHEMES, m.n());
        let m = m.with_labels(l);
        let n = m.n();
        cx.note(|| format!("{name} lookahead {}", idx % 3));
        cx.state(m.dig().add(idx));
        let mut g = DTFGraph::orient(&m.edit());
        for &depth in far {
            g.augment(depth, (idx % 3) as usize);
            ck_eq!(cx, g.get_depth(), depth, "depth");
            for s in (0..9).map(|k| k * (n - 1) / 8) {
                let d = m.bfs(&[s]);
                for j in 0..n {
                    let want = if d[j] <= depth { Some(d[j] as u32) } else { None };
                    ck_eq!(cx, g.small_distance(&m.l(s), &m.l(j)), want, "distance of {} and {} in the augmentation of depth {depth}", m.l(s), m.l(j));
                    ck_eq!(cx, g.small_distance(&m.l(j), &m.l(s)), want, "distance of {} and {} in the augmentation of depth {depth}", m.l(j), m.l(s));
                }
            }
        }
        Ok(())
    }));
    let hs = huge();
    f.push(fam("shapes with more than 2^16 vertices, depths 1 to 3, from 5 vertices to all others", hs.len() as u64 * 2, move |idx, cx| {
        let (name, mk) = &hs[(idx / 2) as usize];
        let m = { let m = mk(); let l = labels(2 * (idx % 2), m.n()); m.with_labels(l) };
        let n = m.n();
        cx.note(|| format!("{name}: {}", m.show()));
        cx.state(m.dig());
        let mut g = DTFGraph::orient(&m.edit());
        for depth in 1..=3 {
            if depth > 1 { g.augment(depth, idx as usize % 2); }
            ck_eq!(cx, g.get_depth(), depth, "depth");
            for s in [0, 1, n / 2, 65_537, n - 1] {
                let d = m.bfs(&[s]);
                for j in 0..n {
                    let want = if d[j] <= depth { Some(d[j] as u32) } else { None };
                    ck_eq!(cx, g.small_distance(&m.l(s), &m.l(j)), want, "distance of {} and {} in the augmentation of depth {depth}", m.l(s), m.l(j));
                }
            }
        }
        Ok(())
    }));
    let check = |cx: &mut Ctx, m: &MG, idx: u64| {
        let d = m.dists();
        distances_along(cx, m, &d, if idx % 2 == 0 { &[2, 3, 4, 5, 6, 7] } else { &[4, 7] }, (idx / 2 % 4) as usize, (idx % 3) as usize)
    };
    iso_fams(&mut f, "lookahead 0..=3, depth up to 7: ", t, &[(7, 12), (8, 2)], &[(7, 120), (8, 24), (9, 2)], check);
    tree_fams(&mut f, "lookahead 0..=3, depth up to 7: ", t, &[(9, 16), (10, 8), (11, 4), (12, 2)], &[(9, 100), (10, 60), (11, 30), (12, 20), (13, 4)], check);
    f
}

// ------------------------------------------------------------------ C19
/// Stored arcs (tail, head, weight).
type Arcs = BTreeSet<(u32, u32, u32)>;
fn multi<I: IntoIterator<Item = (u32, u32)>>(it: I) -> Vec<(u32, u32)> { spairs(it) }

/// Everything an augmentation reports against one set of arcs.
fn check_dtf(cx: &mut Ctx, g: &mut DTFGraph, verts: &BTreeSet<u32>, arcs: &Arcs, depth: usize) -> Res {
    ck_eq!(cx, g.get_depth(), depth, "depth");
    let vs: Vec<u32> = verts.iter().cloned().collect();
    let n = vs.len();
    ck_eq!(cx, (g.num_vertices(), g.len(), g.is_empty()), (n, n, n == 0), "num_vertices, len, is_empty");
    ck_eq!(cx, sorted(g.vertices().cloned()), vs, "vertices");
    ck_eq!(cx, multi(g.arcs()), multi(arcs.iter().map(|a| (a.0, a.1))), "arcs()");
    for w in 1..=depth + 2 {
        let at: Vec<(u32, u32)> = multi(arcs.iter().filter(|a| a.2 as usize == w).map(|a| (a.0, a.1)));
        ck_eq!(cx, g.num_arcs_at_depth(w), at.len(), "num_arcs_at_depth({w})");
        ck_eq!(cx, multi(g.arcs_at(w)), at, "arcs_at({w})");
        let it: BTreeMap<u32, Vec<u32>> = g.in_neighbourhoods_iter_at(w).map(|(v, x)| (v, sorted(x.cloned()))).collect();
        let want: BTreeMap<u32, Vec<u32>> = vs.iter().map(|&v| (v, sorted(at.iter().filter(|a| a.1 == v).map(|a| a.0)))).collect();
        ck_eq!(cx, it, want, "in-neighbourhoods of weight {w}");
    }
    ck_eq!(cx, (g.num_arcs_at_depth(depth + 1), g.num_arcs_at_depth(depth + 7)), (0, 0), "number of arcs heavier than the depth");
    let m1 = arcs.iter().filter(|a| a.2 == 1).count();
    ck!(cx, g.num_edges() == m1 || g.num_edges() == arcs.len(), "num_edges() is {}, stored arcs of weight 1: {m1}, all: {}", g.num_edges(), arcs.len());
    if depth == 1 { ck_eq!(cx, g.num_edges(), arcs.len(), "num_edges() at depth 1"); }
    let it: Vec<(u32, Vec<u32>)> = { let mut v: Vec<_> = g.in_neighbourhoods_iter().map(|(v, x)| (v, sorted(x.cloned()))).collect(); v.sort(); v };
    let it2: Vec<(u32, Vec<u32>)> = { let mut v: Vec<_> = g.in_neighbourhoods().map(|(v, x)| (v, sorted(x.cloned()))).collect(); v.sort(); v };
    let want: Vec<(u32, Vec<u32>)> = vs.iter().map(|&v| (v, sorted(arcs.iter().filter(|a| a.1 == v).map(|a| a.0)))).collect();
    ck_eq!(cx, it, want, "in_neighbourhoods_iter()");
    ck_eq!(cx, it2, want, "in_neighbourhoods()");
    if n <= 4 || n > 7 {
        check_end(cx, || g.arcs(), |a| a, arcs.len(), "arcs()")?;
        check_end(cx, || g.in_neighbourhoods_iter(), |(v, x)| (v, sorted(x.cloned())), n, "in_neighbourhoods_iter()")?;
        for w in 1..=depth.min(3) { check_end(cx, || g.arcs_at(w), |a| a, arcs.iter().filter(|a| a.2 as usize == w).count(), &format!("arcs_at({w})"))?; }
    }
    let (da, di, dout) = (g.degrees(), g.in_degrees(), g.out_degrees());
    for (k, &v) in vs.iter().enumerate() {
        ck!(cx, g.contains(&v), "contains({v}) is false");
        let (i, o) = (want[k].1.len() as u32, arcs.iter().filter(|a| a.0 == v).count() as u32);
        ck_eq!(cx, (g.in_degree(&v), g.out_degree(&v), g.degree(&v)), (i, o, i + o), "in-, out- and total degree of {v}");
        ck_eq!(cx, (di.get(&v), dout.get(&v), da.get(&v)), (Some(&i), Some(&o), Some(&(i + o))), "degree maps at {v}");
        ck_eq!(cx, sorted(g.in_neighbours(&v).cloned()), want[k].1, "in-neighbours of {v}");
        for w in 1..=depth + 2 { ck_eq!(cx, sorted(g.in_neighbours_at(&v, w).cloned()), sorted(arcs.iter().filter(|a| a.1 == v && a.2 as usize == w).map(|a| a.0)), "in-neighbours of {v} with weight {w}"); }
        let nw = g.in_neighbours_with_weights(&v);
        ck_eq!(cx, sorted(nw.keys().cloned()), { let mut x = want[k].1.clone(); x.dedup(); x }, "in-neighbours of {v} in the weight map");
        for (x, w) in &nw { ck!(cx, arcs.contains(&(*x, v, *w)), "weight map of {v} says {w} for {x}"); }
        for &u in &vs {
            let ws: Vec<u32> = arcs.range((u, v, 0)..=(u, v, u32::MAX)).map(|a| a.2).collect();
            ck_eq!(cx, g.has_arc(&u, &v), !ws.is_empty(), "has_arc({u},{v})");
            ck_eq!(cx, g.get_arc_depth(&u, &v), ws.first().cloned(), "weight of the arc ({u},{v})");
            ck_eq!(cx, g.adjacent(&u, &v), !ws.is_empty() || arcs.range((v, u, 0)..=(v, u, u32::MAX)).next().is_some(), "adjacent({u},{v})");
            for w in 1..=depth + 1 { ck_eq!(cx, g.has_arc_at(&u, &v, w), ws.contains(&(w as u32)), "has_arc_at({u},{v},{w})"); }
        }
    }
    for x in outside(&vs) {
        ck!(cx, !g.contains(&x), "contains({x}) for an absent vertex");
        for &v in vs.iter().take(3) { ck!(cx, !g.has_arc(&x, &v) && !g.has_arc(&v, &x) && !g.adjacent(&v, &x) && !g.has_arc_at(&v, &x, 1), "absent vertex {x} has an arc with {v}"); }
    }
    // undirected conversion
    let pos: BTreeMap<u32, usize> = vs.iter().enumerate().map(|(i, &v)| (v, i)).collect();
    let und = MG::new(n, &arcs.iter().map(|a| (pos[&a.0], pos[&a.1])).collect::<Vec<_>>()).with_labels(vs.clone());
    check_same(cx, &g.to_undirected::<EditGraph>(), &und, "to_undirected")?;
    // layers: every weight, once through the constructor and once through layer()
    for w in 1..=depth + 2 {
        check_layer(cx, &DTFLayer::new(g, w), &vs, arcs, w).map_err(|e| format!("DTFLayer::new(_, {w}): {e}"))?;
        let l = g.layer(w);
        check_layer(cx, &l, &vs, arcs, w).map_err(|e| format!("layer({w}): {e}"))?;
        ck_eq!(cx, g.get_depth(), depth, "depth after viewing layer {w}");
    }
    Ok(())
}
fn check_layer(cx: &mut Ctx, l: &DTFLayer, vs: &[u32], arcs: &Arcs, w: usize) -> Res {
    let at: Vec<(u32, u32)> = arcs.iter().filter(|a| a.2 as usize == w).map(|a| (a.0, a.1)).collect();
    let set: BTreeSet<(u32, u32)> = at.iter().cloned().collect();
    ck_eq!(cx, (l.num_vertices(), l.num_edges(), l.len()), (vs.len(), at.len(), vs.len()), "numbers of vertices and arcs");
    ck_eq!(cx, sorted(l.vertices().cloned()), vs.to_vec(), "vertices");
    for &v in vs {
        ck!(cx, l.contains(&v), "contains({v}) is false");
        let (i, o) = (at.iter().filter(|a| a.1 == v).count() as u32, at.iter().filter(|a| a.0 == v).count() as u32);
        ck_eq!(cx, (l.in_degree(&v), l.out_degree(&v), l.degree(&v)), (i, o, i + o), "in-, out- and total degree of {v}");
        ck_eq!(cx, sorted(l.in_neighbours(&v).cloned()), sorted(at.iter().filter(|a| a.1 == v).map(|a| a.0)), "in-neighbours of {v}");
        for &u in vs {
            ck_eq!(cx, l.has_arc(&u, &v), set.contains(&(u, v)), "has_arc({u},{v})");
            ck_eq!(cx, l.adjacent(&u, &v), set.contains(&(u, v)) || set.contains(&(v, u)), "adjacent({u},{v})");
        }
    }
    let (d, i, o) = (l.degrees(), l.in_degrees(), l.out_degrees());
    ck!(cx, d.len() == vs.len() && vs.iter().all(|v| d[v] == i[v] + o[v] && i[v] == l.in_degree(v) && o[v] == l.out_degree(v)), "degree maps {d:?} {i:?} {o:?}");
    let it: BTreeMap<u32, Vec<u32>> = l.in_neighbourhoods().map(|(v, x)| (v, sorted(x.cloned()))).collect();
    ck_eq!(cx, it, vs.iter().map(|&v| (v, sorted(at.iter().filter(|a| a.1 == v).map(|a| a.0)))).collect::<BTreeMap<_, _>>(), "in_neighbourhoods()");
    Ok(())
}
/// The arcs as has_arc_at reports them.
fn read_arcs(g: &DTFGraph) -> Arcs {
    let vs: Vec<u32> = sorted(g.vertices().cloned());
    let mut a = Arcs::new();
    for &u in &vs { for &v in &vs { for w in 1..=g.get_depth() { if g.has_arc_at(&u, &v, w) { a.insert((u, v, w as u32)); } } } }
    a
}
/// walks[w] = set of ordered pairs joined by a walk of total weight w over the given edges.
fn walks(vs: &[u32], base: &Arcs, max: usize) -> Vec<BTreeSet<(u32, u32)>> {
    let mut r: Vec<BTreeSet<(u32, u32)>> = vec![BTreeSet::new(); max + 1];
    for &v in vs { r[0].insert((v, v)); }
    for w in 1..=max {
        let mut s = BTreeSet::new();
        for &(a, b, k) in base {
            if k as usize > w { continue; }
            for &(x, y) in &r[w - k as usize] {
                if y == a { s.insert((x, b)); }
                if y == b { s.insert((x, a)); }
            }
        }
        r[w] = s;
    }
    r
}
/// Augments step by step and checks that arcs are only added, with walk lengths as weights.
fn check_augment(cx: &mut Ctx, g: &mut DTFGraph, verts: &BTreeSet<u32>, steps: &[usize], frat: usize) -> Res {
    let base = read_arcs(g);
    let vs: Vec<u32> = verts.iter().cloned().collect();
    let max = steps.iter().cloned().max().unwrap_or(1).max(g.get_depth());
    let simple = base.iter().all(|a| a.0 != a.1);
    let wk = walks(&vs, &base, max);
    let mut cur = base.clone();
    for &s in steps {
        let d0 = g.get_depth();
        g.augment(s, frat);
        let depth = d0.max(s);
        let now = read_arcs(g);
        check_dtf(cx, g, verts, &now, depth).map_err(|e| format!("after augmenting to {s} with lookahead {frat}: {e}"))?;
        for a in &cur { ck!(cx, now.contains(a), "augmenting to {s} with lookahead {frat} removed the arc {a:?}"); }
        for a in now.difference(&cur) {
            ck!(cx, a.0 != a.1 || !simple, "augmenting to {s} with lookahead {frat} added the loop {a:?}");
            ck!(cx, wk[a.2 as usize].contains(&(a.0, a.1)), "augmenting to {s} with lookahead {frat} added {a:?} (tail, head, weight) but no walk of that length joins them");
        }
        cur = now;
    }
    Ok(())
}
fn check_oriented(cx: &mut Ctx, g: &mut DTFGraph, m: &MG, what: &str) -> Res {
    let verts: BTreeSet<u32> = m.labels.iter().cloned().collect();
    let a = read_arcs(g);
    let got: Vec<(u32, u32)> = multi(a.iter().map(|x| (x.0.min(x.1), x.0.max(x.1))));
    ck_eq!(cx, got, m.ledges_norm(), "{what}: oriented edges (one arc per edge)");
    ck!(cx, a.iter().all(|x| x.2 == 1), "{what}: arcs {a:?} do not all have weight 1");
    check_dtf(cx, g, &verts, &a, 1).map_err(|e| format!("{what}: {e}"))
}
/// par[s][2v + b]: length of a shortest walk from s to v whose length is b modulo 2; a walk of length w exists
/// exactly if that is at most w, for b = w modulo 2 (if s has a neighbour at all).
fn walk_parities(m: &MG) -> Vec<Vec<usize>> {
    let n = m.n();
    let double = MG::new(2 * n, &m.edges.iter().flat_map(|&(a, b)| [(2 * a, 2 * b + 1), (2 * a + 1, 2 * b)]).collect::<Vec<_>>());
    (0..n).map(|s| double.bfs(&[2 * s])).collect()
}
/// The augmentation of a larger graph: the queries about single arcs, for every stored arc and depth, but not
/// all pairs of vertices.
fn check_long(cx: &mut Ctx, m: &MG, steps: &[usize], frat: usize) -> Res {
    let ix = m.index();
    let par = walk_parities(m);
    let mut g = DTFGraph::orient(&m.edit());
    let mut cur: Arcs = g.arcs_at(1).map(|(a, b)| (a, b, 1)).collect();
    ck_eq!(cx, multi(cur.iter().map(|x| (x.0.min(x.1), x.0.max(x.1)))), m.ledges_norm(), "oriented edges (one arc per edge)");
    for (k, &depth) in steps.iter().enumerate() {
        g.augment(depth, frat);
        let depth = *steps[..=k].iter().max().unwrap();
        ck_eq!(cx, (g.get_depth(), g.num_vertices()), (depth, m.n()), "depth, number of vertices");
        let mut now = Arcs::new();
        for w in 1..=depth + 2 {
            let at = multi(g.arcs_at(w));
            ck_eq!(cx, g.num_arcs_at_depth(w), at.len(), "num_arcs_at_depth({w})");
            if !at.is_empty() || w % 16 < 3 {
                let mut it = multi(g.in_neighbourhoods_iter_at(w).flat_map(|(v, x)| x.map(move |u| (*u, v)).collect::<Vec<_>>()));
                it.sort_unstable();
                ck_eq!(cx, it, at, "in-neighbourhoods of weight {w}");
                let l = g.layer(w);
                ck_eq!(cx, (l.num_edges(), multi(l.in_neighbourhoods().flat_map(|(v, x)| x.map(move |u| (*u, v)).collect::<Vec<_>>()))), (at.len(), at.clone()), "layer({w})");
            }
            for (a, b) in at { now.insert((a, b, w as u32)); }
        }
        ck_eq!(cx, multi(g.arcs()), multi(now.iter().map(|a| (a.0, a.1))), "arcs() and the arcs of each weight");
        ck!(cx, cur.is_subset(&now), "augmenting to {depth} removed arcs: {:?}", cur.difference(&now).take(5).collect::<Vec<_>>());
        for a in now.difference(&cur) {
            ck!(cx, a.0 != a.1, "augmenting to {depth} added the loop {a:?}");
            let (u, v, w) = (ix[&a.0], ix[&a.1], a.2 as usize);
            ck!(cx, par[u][2 * v + w % 2] <= w, "augmenting to {depth} added {a:?} (tail, head, weight) but no walk of that length joins them (true distance {})", par[u][2 * v].min(par[u][2 * v + 1]));
        }
        let (mut din, mut dout): (BTreeMap<u32, u32>, BTreeMap<u32, u32>) = Default::default();
        let mut into: BTreeMap<u32, Vec<(u32, u32)>> = Default::default();
        for &(u, v, w) in &now {
            *din.entry(v).or_default() += 1;
            *dout.entry(u).or_default() += 1;
            into.entry(v).or_default().push((u, w));
            let first = now.range((u, v, 0)..=(u, v, u32::MAX)).next().map(|a| a.2);
            ck_eq!(cx, g.get_arc_depth(&u, &v), first, "weight of the arc ({u},{v})");
            ck!(cx, g.has_arc(&u, &v) && g.adjacent(&u, &v) && g.adjacent(&v, &u), "has_arc({u},{v}) or adjacent is false");
            for x in [1, 2, w - 1, w, w + 1, w % 256, w % 128, w + 128, w + 256] {
                if x == 0 || x as usize > depth + 1 { continue; }
                ck_eq!(cx, g.has_arc_at(&u, &v, x as usize), now.contains(&(u, v, x)), "has_arc_at({u},{v},{x})");
            }
            if now.range((v, u, 0)..=(v, u, u32::MAX)).next().is_none() { ck_eq!(cx, (g.has_arc(&v, &u), g.get_arc_depth(&v, &u)), (false, None), "has_arc({v},{u})"); }
        }
        for &v in &m.labels {
            let (i, o) = (din.get(&v).copied().unwrap_or(0), dout.get(&v).copied().unwrap_or(0));
            ck_eq!(cx, (g.in_degree(&v), g.out_degree(&v), g.degree(&v)), (i, o, i + o), "in-, out- and total degree of {v}");
            let want = into.remove(&v).unwrap_or_default();
            ck_eq!(cx, sorted(g.in_neighbours(&v).cloned()), sorted(want.iter().map(|a| a.0)), "in-neighbours of {v}");
            let nw = g.in_neighbours_with_weights(&v);
            for (u, w) in &nw { ck!(cx, now.contains(&(*u, v, *w)), "weight map of {v} says {w} for {u}"); }
            ck_eq!(cx, sorted(nw.keys().cloned()), { let mut x = sorted(want.iter().map(|a| a.0)); x.dedup(); x }, "in-neighbours of {v} in the weight map");
        }
        cur = now;
    }
    Ok(())
}
fn c19_graph(cx: &mut Ctx, m: &MG, steps: &[usize], frat: usize) -> Res {
    let e = m.edit();
    let verts: BTreeSet<u32> = m.labels.iter().cloned().collect();
    let mut g = DTFGraph::orient(&e);
    check_oriented(cx, &mut g, m, "orient")?;
    for d in 0..=3 { check_oriented(cx, &mut DTFGraph::orient_deep(&e, d), m, &format!("orient_deep with depth {d}"))?; }
    check_augment(cx, &mut g, &verts, steps, frat)?;
    // edge subgraphs: nothing, everything, each single pair in both orientations, alternating edges, absent vertices
    let arcs = read_arcs(&g);
    let x = outside(&m.labels)[0];
    let mut lists: Vec<Vec<(u32, u32)>> = vec![vec![], m.ledges(), m.ledges().iter().map(|&(a, b)| (b, a)).collect(), m.ledges().iter().step_by(2).cloned().collect()];
    if m.n() <= 5 {
        for i in 0..m.n() { for j in 0..m.n() { if i != j { lists.push(vec![(m.l(i), m.l(j))]); } } }
        let k = m.labels.len();
        lists.push((0..k).flat_map(|i| (i + 1..k).map(move |j| (i, j))).map(|(i, j)| (m.l(i), m.l(j))).collect());
    }
    lists.push(m.ledges().into_iter().chain(m.labels.iter().map(|&l| (l, x))).chain(m.ledges()).collect());
    for l in lists {
        let mut s = if l.len() % 2 == 0 { g.edge_subgraph(l.iter().cloned()) } else { g.edge_subgraph(plain(l.iter().cloned())) };
        let want: BTreeSet<(u32, u32)> = arcs.iter().map(|a| (a.0, a.1)).filter(|a| l.contains(a) || l.contains(&(a.1, a.0))).collect();
        let got = read_arcs(&s);
        ck_eq!(cx, got.iter().map(|a| (a.0, a.1)).collect::<BTreeSet<_>>(), want, "edge_subgraph({l:?})");
        let dp = s.get_depth();
        check_dtf(cx, &mut s, &verts, &got, dp).map_err(|e| format!("edge_subgraph({l:?}): {e}"))?;
    }
    Ok(())
}

pub fn c19(t: Tier) -> Vec<Family> {
    let mut f = vec![];
    // histories of explicit edits on 3 vertices: every arc (loops included) with weights 1..3, and vertices
    let uni = [3u32, 9, u32::MAX];
    let wmax = 3u64;
    let nops = 9 * wmax + 3 + 3;
    let len = t.pick(3u32, 4);
    f.push(fam(format!("all histories of {len} edits (add_arc with weight 1..=3 incl. loops, add_vertex, layer) on 3 vertices, checked after every edit"), nops.pow(len), move |idx, cx| {
        let mut g = DTFGraph::orient(&EditGraph::new());
        let (mut verts, mut arcs, mut depth) = (BTreeSet::new(), Arcs::new(), 1usize);
        let mut k = idx;
        for _ in 0..len {
            let op = k % nops;
            k /= nops;
            if op < 9 * wmax {
                let (a, b, w) = (uni[(op % 3) as usize], uni[(op / 3 % 3) as usize], (op / 9 + 1) as u32);
                cx.note(|| format!("add_arc({a},{b},{w})"));
                g.add_arc(&a, &b, w as usize);
                verts.extend([a, b]);
                arcs.insert((a, b, w));
                depth = depth.max(w as usize);
            } else if op < 9 * wmax + 3 {
                let a = uni[(op - 9 * wmax) as usize];
                cx.note(|| format!("add_vertex({a})"));
                g.add_vertex(a);
                verts.insert(a);
            } else {
                let w = (op - 9 * wmax - 3) as usize * 2 + 1;
                cx.note(|| format!("layer({w})"));
                let vs: Vec<u32> = verts.iter().cloned().collect();
                { let l = g.layer(w); check_layer(cx, &l, &vs, &arcs, w).map_err(|e| format!("layer({w}): {e}"))?; }
                ck_eq!(cx, g.get_depth(), depth, "depth after layer({w})");
            }
            cx.state(Dig::new(19).adds(verts.iter().map(|&x| x as u64)).adds(arcs.iter().map(|a| (a.0 as u64) << 40 ^ (a.1 as u64) << 4 ^ a.2 as u64)).add(depth as u64));
            check_dtf(cx, &mut g, &verts, &arcs, depth)?;
        }
        Ok(())
    }));
    // explicit loop-free weighted arcs, then augment
    let k2 = t.pick(2u32, 3);
    let ops2 = 12 * 3u64;
    f.push(fam(format!("all sets of <= {k2} weighted arcs on 4 vertices over a path, then augmentation to depth 5"), ops2.pow(k2) * 3, move |idx, cx| {
        let mut g = DTFGraph::orient(&path(4).edit());
        let mut k = idx / 3;
        for _ in 0..k2 {
            let op = k % ops2;
            k /= ops2;
            let (p, w) = (op % 12, op / 12 + 1);
            let (a, mut b) = (p / 3, p % 3);
            if b >= a { b += 1; }
            cx.note(|| format!("add_arc({a},{b},{w})"));
            g.add_arc(&(a as u32), &(b as u32), w as usize);
        }
        cx.state(Dig::new(191).add(idx));
        let verts: BTreeSet<u32> = (0..4).collect();
        let a = read_arcs(&g);
        let d = g.get_depth();
        check_dtf(cx, &mut g, &verts, &a, d)?;
        check_augment(cx, &mut g, &verts, &[4, 5], (idx % 3) as usize)
    }));
    f.push(fam("all graphs on <= 4 vertices x 24 hash orders x lookahead 0..=2, depths 2,3,4", ngraphs_upto(4, false) * 72, |idx, cx| {
        fxhash::seam::set(Some(seam_table(4, idx / 3 % 24)));
        let m = graph_upto(4, false, idx / 72);
        cx.note(|| format!("{} hash order {:?}", m.show(), perm(4, idx / 3 % 24)));
        cx.state(m.dig().add(idx % 72));
        c19_graph(cx, &m, &[2, 3, 4], (idx % 3) as usize)
    }));
    f.push(fam("all 5-vertex graphs x label schemes, depths 2,3,5", ngraphs(5, false) * SCHEMES, |idx, cx| {
        let m = MG::from_mask(5, false, idx / SCHEMES).with_labels(labels(idx % SCHEMES, 5));
        cx.note(|| m.show());
        cx.state(m.dig());
        c19_graph(cx, &m, &[2, 3, 5], (idx % 4) as usize)
    }));
    f.push(fam("all graphs on <= 4 vertices, depths 9, 33, 64, 257", ngraphs_upto(4, false), |idx, cx| {
        let m = graph_upto(4, false, idx);
        let l = labels(idx % SCHEMES, m.n());
        let m = m.with_labels(l);
        cx.note(|| m.show());
        cx.state(m.dig());
        c19_graph(cx, &m, &[9, 33, 64, 257], (idx % 3) as usize)
    }));
    let th = t.thorough();
    f.push(fam("all 6-vertex graphs, depth 5", ngraphs(6, false), move |idx, cx| {
        let m = MG::from_mask(6, false, idx).with_labels(labels(idx % SCHEMES, 6));
        cx.note(|| m.show());
        cx.state(m.dig());
        let e = m.edit();
        let mut g = DTFGraph::orient(&e);
        check_oriented(cx, &mut g, &m, "orient")?;
        check_oriented(cx, &mut DTFGraph::orient_deep(&e, 2), &m, "orient_deep")?;
        let verts: BTreeSet<u32> = m.labels.iter().cloned().collect();
        check_augment(cx, &mut g, &verts, if th { &[2, 3, 4, 5, 6] } else { &[3, 5] }, (idx % 3) as usize)
    }));
    let mut sh = shapes(t.pick(24, 40), t.pick(8, 12));
    sh.extend(large(t.pick(127, 130), false));
    f.push(fam("named shapes x 4 vertex orders, depths 2,4,5", sh.len() as u64 * 4, move |idx, cx| {
        let (name, mk) = &sh[(idx / 4) as usize];
        let m = reorder(&mk(), idx % 4);
        let l = labels([0, 2, 3, 4][(idx % 4) as usize], m.n());
        let m = m.with_labels(l);
        cx.note(|| format!("{name} order {}: {}", idx % 4, m.show()));
        cx.state(m.dig());
        c19_graph(cx, &m, &[2, 4, 5], (idx % 3) as usize)
    }));
    let lg = longs(t.pick(280, 540));
    let far: &'static [usize] = t.pick(&[33, 257], &[33, 257, 513]);
    f.push(fam(format!("long thin graphs of about {} vertices, depths {far:?}, lookahead 0..=2", t.pick(280, 540)), lg.len() as u64 * 3, move |idx, cx| {
        let (name, mk) = &lg[(idx / 3) as usize];
        let m = mk();
        let l = labels(idx % SCHEMES, m.n());
        let m = m.with_labels(l);
        cx.note(|| format!("{name} lookahead {}", idx % 3));
        cx.state(m.dig().add(idx));
        check_long(cx, &m, far, (idx % 3) as usize)
    }));
    let mut sh = shapes(t.pick(60, 100), t.pick(24, 40));
    sh.extend(large(t.pick(258, 513), false));
    f.push(fam("larger named shapes x 4 vertex orders, depths 2, 3, 6, queries about stored arcs", sh.len() as u64 * 4, move |idx, cx| {
        let (name, mk) = &sh[(idx / 4) as usize];
        let m = reorder(&mk(), idx % 4);
        if m.m() > 1200 { cx.state(Dig::new(0)); return Ok(()); }
        let l = labels([0, 5, 3, 2][(idx % 4) as usize], m.n());
        let m = m.with_labels(l);
        cx.note(|| format!("{name} order {}: {}", idx % 4, m.show()));
        cx.state(m.dig());
        check_long(cx, &m, &[2, 3, 6], (idx % 3) as usize)
    }));
    let hs = huge();
    f.push(fam("shapes with more than 2^16 vertices, oriented and augmented to depth 2: arcs, degrees, weights", hs.len() as u64 * 2, move |idx, cx| {
        let (name, mk) = &hs[(idx / 2) as usize];
        let m = { let m = mk(); let l = labels(2 * (idx % 2), m.n()); m.with_labels(l) };
        let n = m.n();
        cx.note(|| format!("{name}: {}", m.show()));
        cx.state(m.dig());
        let e = m.edit();
        let ix = m.index();
        let mut g = DTFGraph::orient(&e);
        let norm = |v: &[(u32, u32)]| { let mut x: Vec<(u32, u32)> = v.iter().map(|&(a, b)| (a.min(b), a.max(b))).collect(); x.sort_unstable(); x };
        let one: Vec<(u32, u32)> = spairs(g.arcs());
        ck!(cx, norm(&one) == m.ledges_norm(), "the arcs of the orientation are not the edges, each once");
        for aug in [false, true] {
            if aug { g.augment(2, 0); }
            let depth = 1 + aug as usize;
            ck_eq!(cx, (g.get_depth(), g.num_vertices(), g.num_arcs_at_depth(1)), (depth, n, m.m()), "depth, vertices, arcs of weight 1");
            ck!(cx, spairs(g.arcs_at(1)) == one, "arcs of weight 1 at depth {depth}");
            let two = if aug { spairs(g.arcs_at(2)) } else { vec![] };
            ck_eq!(cx, g.num_arcs_at_depth(2), two.len(), "number of arcs of weight 2");
            let mut all = one.clone();
            all.extend(&two);
            all.sort_unstable();
            ck!(cx, spairs(g.arcs()) == all, "arcs() at depth {depth}");
            let (mut din, mut dout) = (vec![0u32; n], vec![0u32; n]);
            for (a, b) in &all { dout[ix[a]] += 1; din[ix[b]] += 1; }
            for i in 0..n {
                let u = m.l(i);
                ck_eq!(cx, (g.in_degree(&u), g.out_degree(&u), g.degree(&u)), (din[i], dout[i], din[i] + dout[i]), "in-, out- and total degree of {u} at depth {depth}");
            }
            for &(a, b) in &two {
                let (i, j) = (ix[&a], ix[&b]);
                let (s, t) = if m.nb[i].len() < m.nb[j].len() { (i, j) } else { (j, i) };
                ck!(cx, i != j && !m.adj(i, j) && m.nb[s].iter().any(|&x| m.adj(x, t)), "arc ({a},{b}) of weight 2 joins vertices that are not at distance 2");
                ck_eq!(cx, (g.get_arc_depth(&a, &b), g.has_arc_at(&a, &b, 2), g.has_arc_at(&a, &b, 1)), (Some(2), true, false), "weight of the arc ({a},{b})");
            }
            for &(a, b) in &one { ck_eq!(cx, (g.get_arc_depth(&a, &b), g.has_arc(&a, &b), g.has_arc(&b, &a)), (Some(1), true, false), "weight of the arc ({a},{b}) and its reverse"); }
        }
        Ok(())
    }));
    let check = |cx: &mut Ctx, m: &MG, idx: u64| c19_graph(cx, m, &[2, 3, 5], (idx % 4) as usize);
    iso_fams(&mut f, "depths 2,3,5: ", t, &[(7, 6), (8, 1)], &[(7, 60), (8, 12), (9, 1)], check);
    tree_fams(&mut f, "depths 2,3,5: ", t, &[(9, 8), (10, 4), (11, 2)], &[(9, 100), (10, 60), (11, 30), (12, 20), (13, 4)], check);
    f
}
