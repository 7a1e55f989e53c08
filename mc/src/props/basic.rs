//! C04–C10: iterators, set operations, graph operations, generators, components, bipartiteness.
use crate::engine::*;
use crate::space::*;
use crate::obs::*;
use crate::{ck, ck_eq};
use graphbench::algorithms::*;
use graphbench::compare::*;
use graphbench::editdigraph::EditDigraph;
use graphbench::editgraph::EditGraph;
use graphbench::graph::*;
use graphbench::iterators::*;
use graphbench::operations::*;

// ------------------------------------------------------------------ C04
fn check_iters<G: Graph>(cx: &mut Ctx, g: &G, m: &MG, what: &str) -> Res {
    ck_eq!(cx, spairs(g.edges()), m.ledges_norm(), "{what}: edges()");
    let (mut vs, mut es) = (vec![], vec![]);
    for x in g.vertices_and_edges() {
        match x { VertexOrEdge::V(v) => vs.push(v), VertexOrEdge::E((a, b)) => es.push((a.min(b), a.max(b))) }
        if vs.len() + es.len() > 4 * (m.n() + m.m()) + 8 { return Err(format!("{what}: vertices_and_edges() does not stop")); }
    }
    ck_eq!(cx, sorted(vs), m.slabels(), "{what}: vertices of vertices_and_edges()");
    ck_eq!(cx, spairs(es), m.ledges_norm(), "{what}: edges of vertices_and_edges()");
    Ok(())
}
fn check_neigh<G: Graph>(cx: &mut Ctx, g: &G, m: &MG, what: &str) -> Res {
    let mut got: Vec<(u32, Vec<u32>)> = g.neighbourhoods().map(|(v, it)| (v, sorted(it.cloned()))).collect();
    got.sort();
    let mut want: Vec<(u32, Vec<u32>)> = (0..m.n()).map(|i| (m.l(i), m.lnb(i))).collect();
    want.sort();
    ck_eq!(cx, got, want, "{what}: neighbourhoods()");
    Ok(())
}
fn osorted<T: Ord>(mut v: Vec<T>) -> Vec<T> { v.sort(); v }
/// An iterator that has ended stays ended, size hints (if given) are honest, and every way of consuming it - one by one,
/// the rest at once, skipping, from two places at a time - gives the same items.
pub fn check_end<I: Iterator, T: Ord + Clone + std::fmt::Debug>(cx: &mut Ctx, mk: impl Fn() -> I, key: impl Fn(I::Item) -> T, len: usize, what: &str) -> Res {
    let mut it = mk();
    let mut all = vec![];
    loop {
        let ((lo, hi), left) = (it.size_hint(), len - all.len());
        ck!(cx, lo <= left && hi.is_none_or(|h| h >= left), "{what}: size_hint {lo},{hi:?} before the last {left} of {len} items");
        match it.next() { Some(x) => all.push(key(x)), None => break }
        ck!(cx, all.len() <= len, "{what}: more than {len} items");
    }
    ck_eq!(cx, all.len(), len, "{what}: number of items");
    ck!(cx, it.next().is_none(), "{what}: yields again after its end");
    let want = osorted(all);
    let starts: Vec<usize> = if len <= 3 { (0..=len).collect() } else if len <= 300 { vec![1, len / 2 + len % 3] } else { vec![len / 2] };
    for j in starts {
        let first = |it: &mut I| -> Vec<T> { (0..j).map_while(|_| it.next().map(&key)).collect() };
        let mut it = mk();
        let mut got = first(&mut it);
        it.for_each(|x| got.push(key(x)));
        ck!(cx, osorted(got.clone()) == want, "{what}: {j} items one by one, then for_each: {got:?} instead of {want:?}");
        let mut it = mk();
        let _ = first(&mut it);
        ck_eq!(cx, it.count(), len - j, "{what}: count() after {j} items");
        let mut it = mk();
        let _ = first(&mut it);
        ck!(cx, it.last().map(&key).map_or(j == len, |x| j < len && want.binary_search(&x).is_ok()), "{what}: last() after {j} items");
        let mut it = mk();
        let mut got = first(&mut it);
        let x = it.nth(0);
        ck_eq!(cx, x.is_some(), j < len, "{what}: nth(0) after {j} items");
        got.extend(x.map(&key));
        got.extend(it.map(&key));
        ck!(cx, osorted(got.clone()) == want, "{what}: {j} items one by one, nth(0), then the rest: {got:?} instead of {want:?}");
        let mut it = mk();
        ck_eq!(cx, it.nth(j).is_some(), j < len, "{what}: nth({j})");
        ck_eq!(cx, it.count(), len.saturating_sub(j + 1), "{what}: items after nth({j})");
        ck_eq!(cx, mk().skip(j).count(), len - j, "{what}: items after skip({j})");
        ck_eq!(cx, mk().take(j).count(), j, "{what}: items of take({j})");
    }
    let (mut a, mut b, mut x, mut y) = (mk(), mk(), vec![], vec![]);
    for k in 0..2 * len {
        if k % 3 != 2 { x.extend(a.next().map(&key)); } else { y.extend(b.next().map(&key)); }
    }
    y.extend(b.map(&key));
    x.extend(a.map(&key));
    ck!(cx, osorted(x) == want && osorted(y) == want, "{what}: two iterators at a time");
    Ok(())
}
fn iters_undirected(cx: &mut Ctx, m: &MG) -> Res {
    let g = m.edit();
    check_iters(cx, &g, m, "EditGraph")?;
    check_neigh(cx, &g, m, "EditGraph")?;
    check_ends(cx, &g, m, "EditGraph")
}
fn mixed(x: VertexOrEdge) -> (u32, u32, u32) { match x { VertexOrEdge::V(v) => (0, v, v), VertexOrEdge::E((a, b)) => (1, a, b) } }
fn check_ends<G: Graph>(cx: &mut Ctx, g: &G, m: &MG, what: &str) -> Res {
    check_end(cx, || g.vertices(), |x| *x, m.n(), &format!("{what}: vertices()"))?;
    check_end(cx, || g.edges(), |x| x, m.m(), &format!("{what}: edges()"))?;
    check_end(cx, || g.vertices_and_edges(), mixed, m.m() + m.n(), &format!("{what}: vertices_and_edges()"))?;
    check_end(cx, || g.neighbourhoods(), |(v, it)| (v, sorted(it.cloned())), m.n(), &format!("{what}: neighbourhoods()"))?;
    for i in (0..m.n()).step_by(1 + m.n() / 8) { let v = m.l(i); check_end(cx, || g.neighbours(&v), |x| *x, m.nb[i].len(), &format!("{what}: neighbours({v})"))?; }
    Ok(())
}
fn iters_linear(cx: &mut Ctx, m: &MG) -> Res {
    let o = m.ord();
    check_iters(cx, &o, m, "OrdGraph")?;
    check_neigh(cx, &o, m, "OrdGraph")?;
    check_left_iter(cx, &o, m)?;
    check_ends(cx, &o, m, "OrdGraph")?;
    check_end(cx, || o.left_neighbourhoods(), |x| x, m.n(), "OrdGraph: left_neighbourhoods()")?;
    let d = m.degen();
    check_iters(cx, &d, m, "DegenGraph")?;
    check_neigh(cx, &d, m, "DegenGraph")?;
    check_left_iter(cx, &d, m)?;
    check_ends(cx, &d, m, "DegenGraph")?;
    check_end(cx, || d.left_neighbourhoods(), |x| x, m.n(), "DegenGraph: left_neighbourhoods()")?;
    check_end(cx, || d.iter(), |x| x, m.n(), "DegenGraph: iter()")?;
    let got: Vec<(u32, Vec<u32>)> = d.iter().map(|(v, x)| (v, sorted(x.iter().cloned()))).collect();
    let want: Vec<(u32, Vec<u32>)> = (0..m.n()).map(|i| (m.l(i), sorted(m.nb[i].iter().filter(|&&j| j < i).map(|&j| m.l(j))))).collect();
    ck_eq!(cx, got, want, "DegenGraph.iter()");
    let d = m.degen_rev();
    check_iters(cx, &d, m, "DegenGraph by hand")?;
    check_neigh(cx, &d, m, "DegenGraph by hand")?;
    check_left_iter(cx, &d, m)
}
fn iters_directed(cx: &mut Ctx, d: &DG) -> Res {
    let g = d.edit();
    ck_eq!(cx, spairs(g.arcs()), d.larcs(), "arcs()");
    check_end(cx, || g.arcs(), |x| x, d.arcs.len(), "arcs()")?;
    check_end(cx, || g.vertices(), |x| *x, d.n(), "vertices() of a digraph")?;
    check_end(cx, || g.in_neighbourhoods(), |(v, it)| (v, sorted(it.cloned())), d.n(), "in_neighbourhoods()")?;
    check_end(cx, || g.out_neighbourhoods(), |(v, it)| (v, sorted(it.cloned())), d.n(), "out_neighbourhoods()")?;
    check_end(cx, || NeighIterable::neighbourhoods(&g), |(v, it)| (v, sorted(it.cloned())), d.n(), "neighbourhoods() of a digraph")?;
    check_end(cx, || g.edges(), |x| x, g.edges().count(), "edges() of a digraph")?;
    check_end(cx, || g.vertices_and_edges(), mixed, g.vertices_and_edges().count(), "vertices_and_edges() of a digraph")?;
    let norm = |it: Vec<(u32, Vec<u32>)>| { let mut v = it; v.sort(); v };
    let i = norm(g.in_neighbourhoods().map(|(v, it)| (v, sorted(it.cloned()))).collect());
    let o = norm(g.out_neighbourhoods().map(|(v, it)| (v, sorted(it.cloned()))).collect());
    let li = norm((0..d.n()).map(|x| (d.l(x), sorted(d.inn[x].iter().map(|&j| d.l(j))))).collect());
    let lo = norm((0..d.n()).map(|x| (d.l(x), sorted(d.out[x].iter().map(|&j| d.l(j))))).collect());
    ck_eq!(cx, i, li, "in_neighbourhoods()");
    ck_eq!(cx, o, lo, "out_neighbourhoods()");
    let u = d.under();
    let mut e = spairs(g.edges());
    e.dedup();
    ck_eq!(cx, e, u.ledges_norm(), "set of edges() of a digraph");
    let (mut vs, mut es) = (vec![], vec![]);
    for x in g.vertices_and_edges() { match x { VertexOrEdge::V(v) => vs.push(v), VertexOrEdge::E((a, b)) => es.push((a.min(b), a.max(b))) } }
    let mut es = spairs(es);
    es.dedup();
    ck_eq!(cx, sorted(vs), u.slabels(), "vertices of vertices_and_edges() of a digraph");
    ck_eq!(cx, es, u.ledges_norm(), "edge set of vertices_and_edges() of a digraph");
    Ok(())
}
pub fn c04(t: Tier) -> Vec<Family> {
    let mut f = vec![];
    let mx = t.pick(4, 5);
    f.push(fam(format!("EditGraph: all graphs with loops on <= {mx} vertices x {SCHEMES} label schemes"), ngraphs_upto(mx, true) * SCHEMES, move |idx, cx| {
        let m = graph_upto(mx, true, idx / SCHEMES);
        let l = labels(idx % SCHEMES, m.n());
        let m = m.with_labels(l);
        cx.note(|| m.show());
        cx.state(m.dig());
        iters_undirected(cx, &m)
    }));
    f.push(fam("EditGraph: all 4-vertex graphs with loops x 24 hash orders", ngraphs(4, true) * 24, move |idx, cx| {
        fxhash::seam::set(Some(seam_table(4, idx % 24)));
        let m = MG::from_mask(4, true, idx / 24);
        cx.note(|| format!("{} hash order {:?}", m.show(), perm(4, idx % 24)));
        cx.state(m.dig().add(idx % 24));
        iters_undirected(cx, &m)
    }));
    let mx = t.pick(5, 6);
    f.push(fam(format!("EditGraph, OrdGraph, DegenGraph: all loop-free graphs on <= {mx} vertices x {SCHEMES} label schemes"), ngraphs_upto(mx, false) * SCHEMES, move |idx, cx| {
        let m = graph_upto(mx, false, idx / SCHEMES);
        let l = labels(idx % SCHEMES, m.n());
        let m = m.with_labels(l);
        cx.note(|| m.show());
        cx.state(m.dig());
        iters_undirected(cx, &m)?;
        iters_linear(cx, &m)
    }));
    f.push(fam("OrdGraph, DegenGraph: all 4-vertex graphs x all orderings x 24 hash orders", ngraphs(4, false) * 576, move |idx, cx| {
        fxhash::seam::set(Some(seam_table(4, idx % 24)));
        let m = MG::from_mask(4, false, idx / 576).with_labels(perm(4, idx / 24 % 24).into_iter().map(|x| x as u32).collect());
        cx.note(|| m.show());
        cx.state(m.dig().add(idx % 24));
        iters_linear(cx, &m)
    }));
    f.push(fam(format!("EditDigraph: all digraphs with loops on <= 3 vertices, loop-free on 4, x {SCHEMES} label schemes"), (ndigraphs_upto(3, true) + ndigraphs(4, false)) * SCHEMES, move |idx, cx| {
        let (g, s) = (idx / SCHEMES, idx % SCHEMES);
        let k = ndigraphs_upto(3, true);
        let d = if g < k { digraph_upto(3, true, g) } else { DG::from_mask(4, false, g - k) };
        let l = labels(s, d.n());
        let d = d.with_labels(l);
        cx.note(|| d.show());
        cx.state(d.dig());
        iters_directed(cx, &d)
    }));
    if t.thorough() {
        f.push(fam("EditDigraph: all digraphs with loops on 4 vertices x 24 hash orders", ndigraphs(4, true) * 24, move |idx, cx| {
            fxhash::seam::set(Some(seam_table(4, idx % 24)));
            let d = DG::from_mask(4, true, idx / 24);
            cx.state(d.dig());
            iters_directed(cx, &d)
        }));
        f.push(fam("EditDigraph: all loop-free digraphs on 5 vertices", ndigraphs(5, false), move |idx, cx| {
            let d = DG::from_mask(5, false, idx).with_labels(labels(2, 5));
            cx.state(d.dig());
            iters_directed(cx, &d)
        }));
    }
    let mut sh = shapes(t.pick(100, 260), t.pick(20, 40));
    sh.extend(large(t.pick(1025, 4097), true));
    sh.extend(huge());
    f.push(fam("named shapes x 4 vertex orders, all representations", sh.len() as u64 * 4, move |idx, cx| {
        let (name, mk) = &sh[(idx / 4) as usize];
        let m = reorder(&mk(), idx % 4);
        if is_huge(&m) && idx % 2 == 1 { cx.state(Dig::new(0)); return Ok(()); }
        let l = labels([2, 1, 3, 4][(idx % 4) as usize].min(if m.n() < 700 { 4 } else { 2 }), m.n());
        let m = m.with_labels(l);
        cx.note(|| format!("{name} order {}", idx % 4));
        cx.state(m.dig());
        iters_undirected(cx, &m)?;
        iters_linear(cx, &m)?;
        let d = DG::new(m.n(), &m.edges.iter().enumerate().flat_map(|(i, &(a, b))| match i % 3 { 0 => vec![(a, b)], 1 => vec![(b, a)], _ => vec![(a, b), (b, a)] }).collect::<Vec<_>>()).with_labels(m.labels.clone());
        iters_directed(cx, &d)
    }));
    let mut ls = shapes(t.pick(60, 160), t.pick(14, 30));
    ls.extend(large(t.pick(513, 1025), true));
    f.push(fam("named shapes with loops (4 ways), undirected and oriented", ls.len() as u64 * 4, move |idx, cx| {
        let (name, mk) = &ls[(idx / 4) as usize];
        let m = looped(&reorder(&mk(), idx / 4 % 4), idx % 4);
        let l = labels((idx / 4 + idx) % SCHEMES, m.n());
        let m = m.with_labels(l);
        cx.note(|| format!("{name} with loops {}", idx % 4));
        cx.state(m.dig());
        iters_undirected(cx, &m)?;
        iters_directed(cx, &oriented(&m))
    }));
    iso_fams(&mut f, "", t, &[(7, 4), (8, 1)], &[(7, 40), (8, 8)], |cx, m, _| { iters_undirected(cx, m)?; iters_linear(cx, m) });
    f
}

// ------------------------------------------------------------------ C05
fn names(m: &MG, x: &[usize]) -> Vec<u32> { sorted(x.iter().map(|&i| m.l(i))) }
fn check_sets<G: Graph>(cx: &mut Ctx, g: &G, m: &MG, s: &[usize], rmax: usize, what: &str) -> Res {
    let n = m.n();
    let ls: Vec<u32> = s.iter().map(|&i| m.l(i)).collect();
    let mut dup = ls.clone();
    dup.extend(ls.iter().rev());
    let d = m.bfs(s);
    let mut inside = vec![false; n];
    for &i in s { inside[i] = true; }
    let nb = |i: usize| m.nb[i].iter().any(|&j| inside[j]);
    let open: Vec<usize> = (0..n).filter(|&i| !inside[i] && nb(i)).collect();
    let closed: Vec<usize> = (0..n).filter(|&i| inside[i] || nb(i)).collect();
    ck_eq!(cx, sset(&g.neighbourhood(ls.iter())), names(m, &open), "{what}: neighbourhood({ls:?})");
    ck_eq!(cx, sset(&g.neighbourhood(plain(dup.clone()))), names(m, &open), "{what}: neighbourhood({dup:?})");
    ck_eq!(cx, sset(&g.closed_neighbourhood(plain(dup.iter()))), names(m, &closed), "{what}: closed_neighbourhood({dup:?})");
    ck_eq!(cx, sset(&g.closed_neighbourhood(ls.iter())), names(m, &closed), "{what}: closed_neighbourhood({ls:?})");
    ck_eq!(cx, sset(&g.r_neighbourhood(plain(dup.iter()), 1)), names(m, &closed), "{what}: r_neighbourhood({dup:?}, 1)");
    for r in 0..=rmax {
        let ball: Vec<usize> = (0..n).filter(|&i| d[i] <= r).collect();
        ck_eq!(cx, sset(&g.r_neighbourhood(if r % 2 == 0 { ls.iter() } else { dup.iter() }, r)), names(m, &ball), "{what}: r_neighbourhood({ls:?}, {r})");
        if s.len() == 1 { ck_eq!(cx, sset(&g.r_neighbours(&ls[0], r)), names(m, &ball), "{what}: r_neighbours({}, {r})", ls[0]); }
    }
    let h: EditGraph = if n % 2 == 0 { g.subgraph(dup.iter()) } else { g.subgraph(plain(dup.iter())) };
    let mut pos = s.to_vec();
    pos.sort_unstable();
    pos.dedup();
    let p = |v: usize| pos.binary_search(&v).ok();
    let sub = MG::new(pos.len(), &m.edges.iter().filter_map(|&(a, b)| Some((p(a)?, p(b)?))).collect::<Vec<_>>()).with_labels(pos.iter().map(|&i| m.l(i)).collect());
    check_graph(cx, &h, &sub).map_err(|e| format!("{what}: subgraph({dup:?}): {e}"))
}
fn check_dsets(cx: &mut Ctx, g: &EditDigraph, d: &DG, s: &[usize]) -> Res {
    let ls: Vec<u32> = s.iter().map(|&i| d.l(i)).collect();
    let mut dup = ls.clone();
    dup.extend(ls.iter());
    let o = sorted((0..d.n()).filter(|i| !s.contains(i) && d.inn[*i].iter().any(|j| s.contains(j))).map(|i| d.l(i)));
    let n = sorted((0..d.n()).filter(|i| !s.contains(i) && d.out[*i].iter().any(|j| s.contains(j))).map(|i| d.l(i)));
    ck_eq!(cx, sset(&g.out_neighbourhood(ls.iter())), o, "out_neighbourhood({ls:?})");
    ck_eq!(cx, sset(&g.in_neighbourhood(dup.iter())), n, "in_neighbourhood({dup:?})");
    ck_eq!(cx, sset(&g.out_neighbourhood(plain(dup.iter()))), o, "out_neighbourhood({dup:?})");
    ck_eq!(cx, sset(&g.in_neighbourhood(plain(ls.clone()))), n, "in_neighbourhood({ls:?})");
    Ok(())
}
fn subset(n: usize, s: u64) -> Vec<usize> { (0..n).filter(|i| s >> i & 1 == 1).collect() }
pub fn c05(t: Tier) -> Vec<Family> {
    let mut f = vec![];
    let mx = t.pick(4, 5);
    f.push(fam(format!("EditGraph with loops on <= {mx} vertices x all subsets x all radii"), ngraphs_upto(mx, true), move |idx, cx| {
        let m = graph_upto(mx, true, idx);
        let l = labels(idx % SCHEMES, m.n());
        let m = m.with_labels(l);
        cx.note(|| m.show());
        cx.state(m.dig());
        let g = m.edit();
        for s in 0..1u64 << m.n() { check_sets(cx, &g, &m, &subset(m.n(), s), m.n() + 1, "EditGraph")?; }
        Ok(())
    }));
    let mx = t.pick(5, 6);
    f.push(fam(format!("EditGraph, OrdGraph, DegenGraph loop-free on <= {mx} vertices x all subsets x all radii"), ngraphs_upto(mx, false) * 2, move |idx, cx| {
        let m = graph_upto(mx, false, idx / 2);
        let l = labels([2, 3, 5][(idx % 3) as usize], m.n());
        let m = m.with_labels(l);
        cx.note(|| m.show());
        cx.state(m.dig());
        let (g, o, d, dr) = (m.edit(), m.ord(), m.degen(), m.degen_rev());
        for s in 0..1u64 << m.n() {
            let s = subset(m.n(), s);
            if idx % 2 == 0 { check_sets(cx, &g, &m, &s, m.n() + 1, "EditGraph")?; }
            else { check_sets(cx, &o, &m, &s, m.n() + 1, "OrdGraph")?; check_sets(cx, if s.len() % 2 == 0 { &d } else { &dr }, &m, &s, m.n() + 1, "DegenGraph")?; }
        }
        Ok(())
    }));
    f.push(fam("EditGraph: all 4-vertex graphs x 24 hash orders x all subsets", ngraphs(4, true) * 24, move |idx, cx| {
        fxhash::seam::set(Some(seam_table(4, idx % 24)));
        let m = MG::from_mask(4, true, idx / 24);
        cx.note(|| m.show());
        cx.state(m.dig().add(idx % 24));
        let g = m.edit();
        for s in 0..16 { check_sets(cx, &g, &m, &subset(4, s), 4, "EditGraph")?; }
        Ok(())
    }));
    let k = ndigraphs_upto(3, true);
    let four = true;
    f.push(fam("EditDigraph: all digraphs with loops on <= 3 vertices, loop-free on 4, x all subsets x all radii", k + if four { ndigraphs(4, false) } else { 0 }, move |idx, cx| {
        let d = if idx < k { digraph_upto(3, true, idx) } else { DG::from_mask(4, false, idx - k) };
        let l = labels(idx % SCHEMES, d.n());
        let d = d.with_labels(l);
        cx.note(|| d.show());
        cx.state(d.dig());
        let (g, u) = (d.edit(), d.under());
        for s in 0..1u64 << d.n() {
            let s = subset(d.n(), s);
            check_sets(cx, &g, &u, &s, d.n(), "EditDigraph")?;
            check_dsets(cx, &g, &d, &s)?;
        }
        Ok(())
    }));
    let mut sh = shapes(t.pick(60, 200), t.pick(14, 30));
    sh.extend(large(t.pick(258, 1025), true));
    f.push(fam("named shapes: single vertices, every pair with the middle, halves; radii to beyond the diameter", sh.len() as u64, move |idx, cx| {
        let (name, mk) = &sh[idx as usize];
        let m = reorder(&mk(), idx % 4);
        let l = labels(idx % SCHEMES, m.n());
        let m = m.with_labels(l);
        cx.note(|| format!("{name} order {}", idx % 4));
        cx.state(m.dig());
        let n = m.n();
        let rs: usize = m.bfs(&[0]).iter().filter(|x| **x != usize::MAX).max().map(|x| x + 2).unwrap().min(40);
        let (g, o, d) = (m.edit(), m.ord(), m.degen());
        let mut sets: Vec<Vec<usize>> = vec![vec![], (0..n).collect(), (0..n / 2).collect(), (0..n).filter(|i| i % 3 == 0).collect()];
        for i in (0..n).step_by(1 + n / 12) { sets.push(vec![i]); if i != n / 2 { sets.push(vec![n / 2, i]); } }
        for s in &sets {
            check_sets(cx, &g, &m, s, rs, "EditGraph")?;
            check_sets(cx, &o, &m, s, 2, "OrdGraph")?;
            check_sets(cx, &d, &m, s, 2, "DegenGraph")?;
        }
        Ok(())
    }));
    let mut ls = shapes(t.pick(40, 120), t.pick(12, 24));
    ls.extend(large(t.pick(258, 1025), true));
    f.push(fam("named shapes with loops (4 ways), undirected and oriented: all, half, most, a third, no and single vertices, ends and middle", ls.len() as u64 * 4, move |idx, cx| {
        let (name, mk) = &ls[(idx / 4) as usize];
        let m = looped(&reorder(&mk(), idx / 4 % 4), idx % 4);
        let n = m.n();
        let l = labels((idx / 4 + idx) % SCHEMES, n);
        let m = m.with_labels(l);
        let d = oriented(&m);
        cx.note(|| format!("{name} with loops {}", idx % 4));
        cx.state(m.dig());
        let (g, e) = (m.edit(), d.edit());
        let sets: [Vec<usize>; 8] = [vec![], (0..n).collect(), (0..n / 2).collect(), (n / 5..n).collect(), (0..n - n.min(2)).collect(), (0..n).filter(|i| i % 3 == 0).collect(), vec![idx as usize % n], vec![n - 1, 0, n / 2]];
        for s in &sets {
            check_sets(cx, &g, &m, s, 3, "EditGraph")?;
            if s.len() < 100 { check_sets(cx, &e, &d.under(), s, 2, "EditDigraph")?; check_dsets(cx, &e, &d, s)?; }
        }
        Ok(())
    }));
    f.push(fam("all graphs on <= 3 vertices x all subsets, radii 255 to 65,537", ngraphs_upto(3, true) * 8, |idx, cx| {
        let m = graph_upto(3, true, idx / 8);
        if 1 << m.n() <= idx % 8 { cx.state(Dig::new(0)); return Ok(()); }
        let l = labels(idx % SCHEMES, m.n());
        let m = m.with_labels(l);
        let s = subset(m.n(), idx % 8);
        cx.note(|| format!("{} set {s:?}", m.show()));
        cx.state(m.dig().add(idx));
        let d = m.bfs(&s);
        let ball: Vec<usize> = (0..m.n()).filter(|&i| d[i] != usize::MAX).collect();
        let (g, ls) = (m.edit(), s.iter().map(|&i| m.l(i)).collect::<Vec<u32>>());
        for r in [255, 256, 257, 65_535, 65_536, 65_537] {
            ck_eq!(cx, sset(&g.r_neighbourhood(ls.iter(), r)), names(&m, &ball), "r_neighbourhood({ls:?}, {r})");
            if ls.len() == 1 { ck_eq!(cx, sset(&g.r_neighbours(&ls[0], r)), names(&m, &ball), "r_neighbours({}, {r})", ls[0]); }
        }
        Ok(())
    }));
    let lg = longs(t.pick(280, 360));
    f.push(fam("long thin graphs: ends, middle, both, every radius to beyond the length", lg.len() as u64 * 3, move |idx, cx| {
        let (name, mk) = &lg[(idx / 3) as usize];
        let m = mk();
        let n = m.n();
        let l = labels(idx % SCHEMES, n);
        let m = m.with_labels(l);
        cx.note(|| format!("{name}, set {}", idx % 3));
        cx.state(m.dig().add(idx));
        let s = match idx % 3 { 0 => vec![0], 1 => vec![n / 2, n - 1], _ => vec![n - 1] };
        check_sets(cx, &m.edit(), &m, &s, n + 2, "EditGraph")
    }));
    let hs = huge();
    f.push(fam("shapes with more than 2^16 vertices: single vertices, all, half, a third; radii 0..=3", hs.len() as u64 * 6, move |idx, cx| {
        let (name, mk) = &hs[(idx / 6) as usize];
        if name.contains("centre last") && [2, 3, 4].contains(&(idx % 6)) { cx.state(Dig::new(0)); return Ok(()); }
        let m = mk();
        let n = m.n();
        let m = m.with_labels(labels(2 * (idx % 2), n));
        cx.note(|| format!("{name} set {}", idx % 6));
        cx.state(m.dig().add(idx % 6));
        let s: Vec<usize> = match idx % 6 { 0 => vec![0], 1 => vec![n - 1], 2 => (0..n).collect(), 3 => (0..n / 2).collect(), 4 => (0..n).filter(|i| i % 3 == 0).collect(), _ => vec![n / 2] };
        check_sets(cx, &m.edit(), &m, &s, 3, "EditGraph")?;
        if idx % 6 < 3 { check_sets(cx, &m.ord(), &m, &s, 2, "OrdGraph")?; check_sets(cx, &m.degen(), &m, &s, 2, "DegenGraph")?; }
        Ok(())
    }));
    f
}

// ------------------------------------------------------------------ C06
/// Larger graphs are not complemented.
const NOINV: usize = 5000;
fn model_pair(a: &MG, b: &MG) -> (MG, MG, MG, SubgraphRel) {
    let la = a.slabels();
    let lb = b.slabels();
    let (ea, eb) = (a.ledges_norm(), b.ledges_norm());
    let mk = |ls: Vec<u32>, es: Vec<(u32, u32)>| {
        let p = |x: u32| ls.binary_search(&x).unwrap();
        MG::new(ls.len(), &es.iter().map(|&(x, y)| (p(x), p(y))).collect::<Vec<_>>()).with_labels(ls.clone())
    };
    let mut u = la.clone();
    u.extend(&lb);
    u.sort_unstable();
    u.dedup();
    let mut ue = ea.clone();
    ue.extend(&eb);
    let merged = mk(u, ue);
    let inter = mk(la.iter().cloned().filter(|x| lb.binary_search(x).is_ok()).collect(), ea.iter().cloned().filter(|x| eb.binary_search(x).is_ok()).collect());
    let mut comp = vec![];
    if la.len() <= NOINV { for (i, &x) in la.iter().enumerate() { for &y in &la[i + 1..] { if ea.binary_search(&(x, y)).is_err() { comp.push((x, y)); } } } }
    let inv = mk(la.clone(), comp);
    let sub = la.iter().all(|x| lb.binary_search(x).is_ok()) && ea.iter().all(|x| eb.binary_search(x).is_ok());
    let sup = lb.iter().all(|x| la.binary_search(x).is_ok()) && eb.iter().all(|x| ea.binary_search(x).is_ok());
    let rel = match (sub, sup) { (true, true) => SubgraphRel::Eq, (true, false) => SubgraphRel::Sub, (false, true) => SubgraphRel::Sup, _ => SubgraphRel::Incomp };
    (inv, merged, inter, rel)
}
fn check_pair<G: Graph>(cx: &mut Ctx, ga: &G, gb: &G, ma: &MG, mb: &MG, what: &str) -> Res {
    let (inv, mer, int, rel) = model_pair(ma, mb);
    ck_eq!(cx, ga.compare_subgraph(gb), rel, "{what}: compare_subgraph");
    check_same(cx, &ga.merge(gb), &mer, &format!("{what}: merge"))?;
    check_same(cx, &ga.intersect(gb), &int, &format!("{what}: intersect"))?;
    if ma.n() > NOINV { return Ok(()); }
    check_same(cx, &ga.invert(), &inv, &format!("{what}: invert"))
}
pub fn c06(t: Tier) -> Vec<Family> {
    let mut f = vec![];
    let mut pairs = |k: usize, loops: bool, uni: Vec<u32>, linear: bool| {
        let c = nsubgraphs(k, loops);
        f.push(fam(format!("all pairs of graphs on subsets of {k} labels{}{}", if loops { " with loops" } else { "" }, if linear { ", OrdGraph and DegenGraph" } else { "" }), c * c, move |idx, cx| {
            let (a, b) = (subgraph_at(k, loops, &uni, idx / c), subgraph_at(k, loops, &uni, idx % c));
            cx.note(|| format!("{} and {}", a.show(), b.show()));
            cx.state(a.dig().add(b.dig().0));
            if linear {
                check_pair(cx, &a.ord(), &b.ord(), &a, &b, "OrdGraph")?;
                check_pair(cx, &a.degen(), &b.degen(), &a, &b, "DegenGraph")
            } else { check_pair(cx, &a.edit(), &b.edit(), &a, &b, "EditGraph") }
        }));
    };
    pairs(3, true, vec![7, u32::MAX, 0], false);
    pairs(4, false, vec![3, 0, 2, 1], false);
    pairs(4, false, vec![2, 9, 1, 100_000], true);
    pairs(5, false, vec![0, 1, 2, 3, 4], false);
    if t.thorough() { pairs(4, true, vec![0, 1, 2, 3], false); pairs(5, false, vec![40, 3, 2, 1, 10], true); }
    // digraphs: the undirected view
    let c = ndigraphs_upto(2, true) + ndigraphs(3, false);
    let k2 = ndigraphs_upto(2, true);
    f.push(fam("all pairs of digraphs on <= 3 vertices (undirected view)", c * c * 2, move |idx, cx| {
        let mk = |x: u64, l: [u32; 3]| { let d = if x < k2 { digraph_upto(2, true, x) } else { DG::from_mask(3, false, x - k2) }; let n = d.n(); d.with_labels(l[..n].to_vec()) };
        let (a, b) = (mk(idx / 2 / c, [0, 1, 2]), mk(idx / 2 % c, if idx % 2 == 0 { [0, 1, 2] } else { [2, 7, 0] }));
        cx.note(|| format!("{} and {}", a.show(), b.show()));
        cx.state(a.dig().add(b.dig().0));
        check_pair(cx, &a.edit(), &b.edit(), &a.under(), &b.under(), "EditDigraph")
    }));
    f.push(fam("all pairs of graphs on subsets of 3 labels with loops x 6 hash orders", 95 * 95 * 6, move |idx, cx| {
        fxhash::seam::set(Some(seam_table(3, idx % 6)));
        let (a, b) = (subgraph_at(3, true, &[0, 1, 2], idx / 6 / 95), subgraph_at(3, true, &[0, 1, 2], idx / 6 % 95));
        cx.note(|| format!("{} and {}", a.show(), b.show()));
        cx.state(a.dig().add(b.dig().0).add(idx % 6));
        check_pair(cx, &a.edit(), &b.edit(), &a, &b, "EditGraph")
    }));
    let mut sh = shapes(t.pick(40, 80), t.pick(12, 20));
    sh.extend(large(t.pick(258, 1025), true));
    sh.extend(huge().into_iter().filter(|x| !x.0.starts_with("star")));
    f.push(fam("named shapes against near copies (edge, loop or vertex dropped or added, other order, shifted labels)", sh.len() as u64 * 10, move |idx, cx| {
        let (name, mk) = &sh[(idx / 10) as usize];
        let a = mk();
        let n = a.n();
        if is_huge(&a) && idx % 10 > 6 { cx.state(Dig::new(0)); return Ok(()); }
        let a = if idx % 10 >= 6 { looped(&a, idx % 4) } else { a };
        let b = match idx % 10 {
            5 | 6 => looped(&a, 3 - idx % 4),
            7 => MG::new(n, &a.edges.iter().cloned().filter(|e| e.0 != e.1).collect::<Vec<_>>()),
            8 => { let at = a.edges.iter().rposition(|e| e.0 == e.1).unwrap(); let mut e = a.edges.clone(); e.remove(at); MG::new(n + 2, &e) }
            9 => { let mut a = a.clone(); a.edges.extend([(n / 2, n / 2), (0, n - 1)]); MG::new(n, &a.edges) }
            0 => MG::new(n, &a.edges[..a.m().saturating_sub(1)]),
            1 => { let mut e = a.edges.clone(); if n > 3 { e.push((1, n - 2)); } MG::new(n + 1, &e) }
            2 => reorder(&a, 1),
            3 => MG::new(n, &a.edges).with_labels((1..=n as u32).collect()),
            _ => MG::new(n - 1, &a.edges.iter().cloned().filter(|e| e.0 < n - 1 && e.1 < n - 1).collect::<Vec<_>>()),
        };
        cx.note(|| format!("{name} variant {}", idx % 10));
        cx.state(a.dig().add(b.dig().0));
        let (ga, gb) = (a.edit(), b.edit());
        check_pair(cx, &ga, &gb, &a, &b, "EditGraph")?;
        check_pair(cx, &gb, &ga, &b, &a, "EditGraph")
    }));
    let mut ps = shapes(t.pick(40, 80), t.pick(12, 20));
    ps.extend(large(t.pick(258, 1025), true));
    f.push(fam("named shapes with and without loops against a small part of them (a tenth, a third, all but one), exactly or with a foreign vertex, a foreign edge, a loop or an edge more, in both directions", ps.len() as u64 * 15, move |idx, cx| {
        let (name, mk) = &ps[(idx / 15) as usize];
        let a = if idx % 2 == 0 { mk() } else { looped(&mk(), idx % 4) };
        let n = a.n();
        let k = [n / 10 + 1, n / 3 + 1, n.max(2) - 1][(idx % 3) as usize].min(n);
        let mut e: Vec<(usize, usize)> = a.edges.iter().cloned().filter(|e| e.0 < k && e.1 < k).collect();
        let mut add = 0;
        match idx / 3 % 5 { 0 => (), 1 => add = 1, 2 => { add = 2; e.push((k, k + 1)); } 3 => e.push((k / 2, k / 2)), _ => e.push((0, k - 1)) }
        let b = MG::new(k + add, &e);
        let l = labels((idx / 15 + idx) % SCHEMES, n + 2);
        let foreign = MG::new(k + add, &b.edges).with_labels((0..k).map(|i| l[i]).chain((0..add).map(|i| l[n + i])).collect());
        let a = a.with_labels(l[..n].to_vec());
        cx.note(|| format!("{name} part {} variant {}", idx % 3, idx / 3 % 5));
        cx.state(a.dig().add(foreign.dig().0));
        let (ga, gb) = (a.edit(), foreign.edit());
        check_pair(cx, &ga, &gb, &a, &foreign, "EditGraph")?;
        check_pair(cx, &gb, &ga, &foreign, &a, "EditGraph")
    }));
    f
}

// ------------------------------------------------------------------ C07
fn check_products<G: Graph>(cx: &mut Ctx, ga: &G, gb: &G, a: &MG, b: &MG, what: &str) -> Res {
    for lex in [false, true] { check_product(cx, ga, gb, a, b, lex, what)?; }
    Ok(())
}
fn check_product<G: Graph>(cx: &mut Ctx, ga: &G, gb: &G, a: &MG, b: &MG, lex: bool, what: &str) -> Res {
    let (ia, ib) = (a.index(), b.index());
    {
        let (p, map) = if lex { ga.lexicographic_product(gb) } else { ga.cartesian_product(gb) };
        let w = format!("{what} {}", if lex { "lexicographic" } else { "cartesian" });
        let n = a.n() * b.n();
        ck_eq!(cx, p.num_vertices(), n, "{w}: number of product vertices");
        ck_eq!(cx, map.len(), n, "{w}: size of the map");
        let mut at = vec![None; n];
        for (&x, &(u, v)) in &map {
            ck!(cx, p.contains(&x), "{w}: mapped vertex {x} is not in the product");
            let (Some(&i), Some(&j)) = (ia.get(&u), ib.get(&v)) else { return Err(format!("{w}: map sends {x} to ({u},{v}), not a pair of vertices")); };
            ck!(cx, at[i * b.n() + j].replace(x).is_none(), "{w}: pair ({u},{v}) mapped twice");
        }
        let mut es = vec![];
        for u in 0..a.n() { for v in 0..b.n() {
            let at = |u: usize, v: usize| u * b.n() + v;
            for &u2 in &a.nb[u] { es.push((at(u, v), at(u2, v))); }
            for &v2 in &b.nb[v] {
                if lex { for u2 in 0..a.n() { es.push((at(u, v), at(u2, v2))); } } else { es.push((at(u, v), at(u, v2))); }
            }
        } }
        let m = MG::new(n, &es).with_labels(at.iter().map(|x| x.unwrap()).collect());
        check_same(cx, &p, &m, &w)?;
    }
    Ok(())
}
fn check_subdivide<G: Graph>(cx: &mut Ctx, g: &G, m: &MG, times: usize, what: &str) -> Res {
    let r = g.subdivide(times as u32);
    let w = format!("{what}: subdivide({times})");
    let (n, k) = (m.n(), m.m());
    ck_eq!(cx, r.num_vertices(), n + times * k, "{w}: number of vertices");
    ck_eq!(cx, r.num_edges(), k * (times + 1), "{w}: number of edges");
    for &l in &m.labels { ck!(cx, r.contains(&l), "{w}: original vertex {l} is gone"); }
    let ix = m.index();
    for i in 0..n { ck_eq!(cx, r.degree(&m.l(i)) as usize, m.deg(i), "{w}: degree of original vertex {}", m.l(i)); }
    let fresh: Vec<u32> = r.vertices().cloned().filter(|v| !ix.contains_key(v)).collect();
    ck_eq!(cx, fresh.len(), times * k, "{w}: number of fresh vertices");
    for v in &fresh { ck_eq!(cx, r.degree(v), 2, "{w}: degree of fresh vertex {v}"); }
    // walk from every original vertex along every incident path
    let mut found = vec![];
    for i in 0..n {
        let u = m.l(i);
        let starts: Vec<u32> = r.neighbours(&u).cloned().collect();
        for s in starts {
            let (mut last, mut cur, mut steps) = (u, s, 0);
            while !ix.contains_key(&cur) {
                steps += 1;
                let Some(nx) = r.neighbours(&cur).cloned().find(|x| *x != last) else { return Err(format!("{w}: dead end at {cur}")); };
                last = cur;
                cur = nx;
                if steps > times { return Err(format!("{w}: path from {u} has more than {times} inner vertices")); }
            }
            ck_eq!(cx, steps, times, "{w}: inner vertices on a path from {u}");
            found.push((i, ix[&cur]));
        }
    }
    found.sort_unstable();
    let mut want: Vec<(usize, usize)> = m.edges.iter().flat_map(|&(a, b)| [(a, b), (b, a)]).collect();
    want.sort_unstable();
    if times == 0 { want.dedup(); } // a loop is one step
    ck_eq!(cx, found, want, "{w}: ends of the paths");
    Ok(())
}
pub fn c07(t: Tier) -> Vec<Family> {
    let mut f = vec![];
    let mx = 4;
    let c = ngraphs_upto(mx, false);
    f.push(fam(format!("products of all pairs of graphs on <= {mx} vertices, 3 label schemes"), c * c * 3, move |idx, cx| {
        let (a, b) = (graph_upto(mx, false, idx / 3 / c), graph_upto(mx, false, idx / 3 % c));
        let s = [0, 3, 5][(idx % 3) as usize];
        let (la, lb) = (labels(s, a.n()), labels([0, 1, 5][(idx % 3) as usize], b.n()));
        let (a, b) = (a.with_labels(la), b.with_labels(lb));
        cx.note(|| format!("{} times {}", a.show(), b.show()));
        cx.state(a.dig().add(b.dig().0));
        if idx % 3 == 1 { check_products(cx, &a.ord(), &b.ord(), &a, &b, "OrdGraph") }
        else if idx % 3 == 2 { check_products(cx, &a.degen(), &b.degen(), &a, &b, "DegenGraph") }
        else { check_products(cx, &a.edit(), &b.edit(), &a, &b, "EditGraph") }
    }));
    if t.thorough() {
        let (c5, c3) = (ngraphs(5, false), ngraphs_upto(4, false));
        f.push(fam("products of all 5-vertex graphs with all graphs on <= 4 vertices, both ways", c5 * c3 * 2, move |idx, cx| {
            let (a, b) = (MG::from_mask(5, false, idx / 2 / c3), graph_upto(4, false, idx / 2 % c3));
            cx.state(a.dig().add(b.dig().0).add(idx % 2));
            if idx % 2 == 0 { check_products(cx, &a.edit(), &b.edit(), &a, &b, "EditGraph") } else { check_products(cx, &b.edit(), &a.edit(), &b, &a, "EditGraph") }
        }));
    }
    f.push(fam("products of all pairs of graphs on <= 3 vertices x 24 hash orders", 12 * 12 * 24, move |idx, cx| {
        fxhash::seam::set(Some(seam_table(4, idx % 24)));
        let (a, b) = (graph_upto(3, false, idx / 24 / 12), graph_upto(3, false, idx / 24 % 12));
        cx.note(|| format!("{} times {}", a.show(), b.show()));
        cx.state(a.dig().add(b.dig().0).add(idx % 24));
        check_products(cx, &a.edit(), &b.edit(), &a, &b, "EditGraph")
    }));
    let (la, lb) = (3, t.pick(3, 4));
    let (ca, cb) = (ngraphs_upto(la, true), ngraphs_upto(lb, true));
    f.push(fam(format!("products of all pairs of graphs with loops on <= {la} and <= {lb} vertices, both ways"), ca * cb * 2, move |idx, cx| {
        let (a, b) = (graph_upto(la, true, idx / 2 / cb), graph_upto(lb, true, idx / 2 % cb));
        let (sa, sb) = (labels(idx / 2 % SCHEMES, a.n()), labels((idx / 12 + idx) % SCHEMES, b.n()));
        let (a, b) = (a.with_labels(sa), b.with_labels(sb));
        let (a, b) = if idx % 2 == 0 { (a, b) } else { (b, a) };
        cx.note(|| format!("{} times {}", a.show(), b.show()));
        cx.state(a.dig().add(b.dig().0));
        check_products(cx, &a.edit(), &b.edit(), &a, &b, "EditGraph")
    }));
    let ls = t.pick(4, 5);
    f.push(fam(format!("subdivision of all graphs with loops on <= {ls} vertices, 0, 2 and 3 times (a loop becomes a cycle)"), ngraphs_upto(ls, true) * 3, move |idx, cx| {
        let m = graph_upto(ls, true, idx / 3);
        let l = if idx / 3 % 4 == 3 { (0..m.n() as u32).map(|i| if i % 2 == 0 { u32::MAX - 2000 - 3 * i } else { (1 << 31) - 1 + i }).collect() } else { labels([0, 2, 4][(idx / 3 % 4) as usize], m.n()) };
        let m = m.with_labels(l);
        let times = [0usize, 2, 3][(idx % 3) as usize];
        cx.note(|| format!("{} subdivided {times}", m.show()));
        cx.state(m.dig().add(times as u64));
        check_subdivide(cx, &m.edit(), &m, times, "EditGraph")
    }));
    let big = [0usize, 1, 2, 3, 4, 7, 12, 17];
    f.push(fam("products of paths, cycles, cliques, independent sets, stars of 8 sizes, without and with loops", (8 * 5u64).pow(2) * 2, move |idx, cx| {
        let (loops, idx) = (idx / 1600 == 1, idx % 1600);
        let mk = |x: u64| { let s = big[(x / 5) as usize]; match x % 5 { 0 => path(s), 1 => cycle(s), 2 => clique(s), 3 => MG::new(s, &[]), _ => star_at(s, s / 2) } };
        let (a, b) = (mk(idx / 40), mk(idx % 40));
        if a.n() * b.n() > t.pick(160, 340) { cx.state(Dig::new(0)); return Ok(()); }
        let (a, b) = if loops && a.n() > 0 && b.n() > 0 { (looped(&a, idx % 4), looped(&b, idx / 3 % 4)) } else { (a, b) };
        let (la, lb) = if idx % 3 == 0 { (labels(5, a.n()), labels(5, b.n())) } else { (labels(4, a.n()), labels(2, b.n())) };
        let (a, b) = (a.with_labels(la), b.with_labels(lb));
        cx.note(|| format!("{} times {}", a.show(), b.show()));
        cx.state(a.dig().add(b.dig().0));
        check_products(cx, &a.edit(), &b.edit(), &a, &b, "EditGraph")
    }));
    let mx = t.pick(5, 6);
    f.push(fam(format!("subdivision of all graphs on <= {mx} vertices, 0..4 times, 3 label schemes"), ngraphs_upto(mx, false) * 15, move |idx, cx| {
        let m = graph_upto(mx, false, idx / 15);
        let (times, s) = ((idx % 5) as usize, [0, 2, 5][(idx / 5 % 3) as usize]);
        let l = labels(s, m.n());
        let m = m.with_labels(l);
        cx.note(|| format!("{} subdivided {times}", m.show()));
        cx.state(m.dig().add(times as u64));
        match s { 0 => check_subdivide(cx, &m.edit(), &m, times, "EditGraph"), 2 => check_subdivide(cx, &m.ord(), &m, times, "OrdGraph"), _ => check_subdivide(cx, &m.degen(), &m, times, "DegenGraph") }
    }));
    f.push(fam("subdivision of all 4-vertex graphs x 24 hash orders x 0..3 times", ngraphs(4, false) * 96, move |idx, cx| {
        fxhash::seam::set(Some(seam_table(4, idx / 4 % 24)));
        let m = MG::from_mask(4, false, idx / 96);
        cx.note(|| format!("{} subdivided {}", m.show(), idx % 4));
        cx.state(m.dig().add(idx % 96));
        check_subdivide(cx, &m.edit(), &m, (idx % 4) as usize, "EditGraph")
    }));
    let mut sh = shapes(t.pick(40, 120), t.pick(12, 24));
    sh.extend(large(t.pick(258, 1025), false));
    sh.extend(huge());
    f.push(fam("products with more than 2^16 vertices", 4, |idx, cx| {
        let (a, b) = match idx { 0 => (path(300), path(220)), 1 => (MG::new(65_540, &[]), path(1)), 2 => (path(2), path(32_771)), _ => (path(32_771), path(2)) };
        let (la, lb) = (labels(2, a.n()), labels(1, b.n()));
        let (a, b) = (a.with_labels(la), b.with_labels(lb));
        cx.note(|| format!("{} times {}", a.show(), b.show()));
        cx.state(a.dig().add(b.dig().0));
        check_product(cx, &a.edit(), &b.edit(), &a, &b, false, "EditGraph")?;
        if idx == 1 || idx == 2 { check_product(cx, &a.edit(), &b.edit(), &a, &b, true, "EditGraph")?; }
        Ok(())
    }));
    f.push(fam("subdivision of named shapes, 0..3 and 9 times, with loops 2 and 3 times", sh.len() as u64 * 7, move |idx, cx| {
        let (name, mk) = &sh[(idx / 7) as usize];
        let m = mk();
        let m = if idx % 7 > 4 { looped(&m, idx % 4) } else { m };
        let l = labels([0, 1, 2, 5, 4, 2, 5][(idx % 7) as usize], m.n());
        let m = m.with_labels(l);
        let times = [0, 1, 2, 3, 9, 2, 3][(idx % 7) as usize];
        if m.n() > 60_000 && times > 1 { cx.state(Dig::new(0)); return Ok(()); }
        cx.note(|| format!("{name} subdivided {times}"));
        cx.state(m.dig().add(times as u64));
        check_subdivide(cx, &m.edit(), &m, times, "EditGraph")
    }));
    f
}

// ------------------------------------------------------------------ C08
/// Does `got` restricted to the labels not in `used` look like `m`? Tries the order-preserving
/// correspondence first, then (small graphs) every correspondence.
fn iso(n: usize, has: &dyn Fn(usize, usize) -> bool, want: &dyn Fn(usize, usize) -> bool) -> bool {
    let ok = |p: &[usize]| (0..n).all(|i| (0..n).all(|j| has(p[i], p[j]) == want(i, j)));
    let id: Vec<usize> = (0..n).collect();
    if ok(&id) { return true; }
    if n <= 6 { return (0..factorial(n)).any(|k| ok(&perm(n, k))); }
    // large: cheap invariant only (never an alarm on a correct result)
    let prof = |f: &dyn Fn(usize, usize) -> bool| { let mut v: Vec<(usize, usize)> = (0..n).map(|i| ((0..n).filter(|&j| f(i, j)).count(), (0..n).filter(|&j| f(j, i)).count())).collect(); v.sort_unstable(); v };
    prof(has) == prof(want)
}
/// Checks a disjoint union: result labels/arcs against the operand models (directed closure form).
fn check_union(cx: &mut Ctx, rl: Vec<u32>, has: &dyn Fn(u32, u32) -> bool, m: usize, ops: &[(Vec<u32>, Box<dyn Fn(usize, usize) -> bool + '_>, usize)]) -> Res {
    let total: usize = ops.iter().map(|o| o.0.len()).sum();
    ck_eq!(cx, rl.len(), total, "number of vertices of the union");
    ck_eq!(cx, m, ops.iter().map(|o| o.2).sum::<usize>(), "number of edges of the union");
    let mut rest = rl.clone();
    if let Some((l, adj, _)) = ops.first() {
        for (i, x) in l.iter().enumerate() {
            ck!(cx, rl.contains(x), "vertex {x} of the first operand is not in the union");
            for (j, y) in l.iter().enumerate() { ck_eq!(cx, has(*x, *y), adj(i, j), "first operand's adjacency ({x},{y})"); }
        }
        for &y in rl.iter().filter(|y| !l.contains(y)) { for &x in l { ck!(cx, !has(x, y) && !has(y, x), "edge between the first operand and the rest: {x},{y}"); } }
        rest.retain(|x| !l.contains(x));
    }
    // remaining operands: blocks in increasing label order (one operand), or any arrangement
    if ops.len() <= 1 { return Ok(()); }
    let mut off = 0;
    let mut all_ok = true;
    for (l, adj, _) in &ops[1..] {
        let blk = &rest[off..off + l.len()];
        let mut srt: Vec<usize> = (0..l.len()).collect();
        srt.sort_by_key(|&i| l[i]);
        all_ok &= iso(l.len(), &|i, j| has(blk[i], blk[j]), &|i, j| adj(srt[i], srt[j]));
        all_ok &= blk.iter().all(|&x| rest.iter().all(|&y| blk.contains(&y) || (!has(x, y) && !has(y, x))));
        off += l.len();
    }
    if !all_ok {
        // some other arrangement of the copies
        let n = rest.len();
        let mut own = vec![];
        for (k, (l, _, _)) in ops[1..].iter().enumerate() { for i in 0..l.len() { own.push((k, i)); } }
        let want = |i: usize, j: usize| own[i].0 == own[j].0 && (ops[1 + own[i].0].1)(own[i].1, own[j].1);
        all_ok = iso(n, &|i, j| has(rest[i], rest[j]), &want);
    }
    ck!(cx, all_ok, "the further operands do not appear as disjoint isomorphic copies (labels {rest:?})");
    Ok(())
}
type Operand<'a> = (Vec<u32>, Box<dyn Fn(usize, usize) -> bool + 'a>, usize);
fn uop(m: &MG) -> Operand<'_> { (m.labels.clone(), Box::new(move |i, j| m.adj(i, j)), m.m()) }
fn dop(d: &DG) -> Operand<'_> { (d.labels.clone(), Box::new(move |i, j| d.has(i, j)), d.arcs.len()) }
fn check_norm(cx: &mut Ctx, m: &MG) -> Res {
    let (g, map) = m.edit().normalize();
    let s = m.slabels();
    ck_eq!(cx, map.len(), m.n(), "normalize: size of the map");
    for (i, l) in s.iter().enumerate() { ck_eq!(cx, map.get(&(i as u32)), Some(l), "normalize: map({i})"); }
    let p = |x: u32| s.binary_search(&x).unwrap();
    check_same(cx, &g, &MG::new(m.n(), &m.ledges().iter().map(|&(a, b)| (p(a), p(b))).collect::<Vec<_>>()), "normalize")
}
fn check_dnorm(cx: &mut Ctx, d: &DG) -> Res {
    let (g, map) = d.edit().normalize();
    let mut s = d.labels.clone();
    s.sort_unstable();
    ck_eq!(cx, map.len(), d.n(), "normalize: size of the map");
    for (i, l) in s.iter().enumerate() { ck_eq!(cx, map.get(&(i as u32)), Some(l), "normalize: map({i})"); }
    let p = |x: u32| s.binary_search(&x).unwrap();
    check_digraph(cx, &g, &DG::new(d.n(), &d.larcs().iter().map(|&(a, b)| (p(a), p(b))).collect::<Vec<_>>())).map_err(|e| format!("normalize: {e}"))
}
fn un(cx: &mut Ctx, g: &EditGraph, ops: &[Operand]) -> Res {
    check_union(cx, sorted(g.vertices().cloned()), &|a, b| g.adjacent(&a, &b), g.num_edges(), ops)
}
fn dun(cx: &mut Ctx, g: &EditDigraph, ops: &[Operand]) -> Res {
    check_union(cx, sorted(g.vertices().cloned()), &|a, b| g.has_arc(&a, &b), g.num_edges(), ops)
}
/// Union of two large operands, given as sorted (out-)neighbour lists: the first keeps its labels; the copy of
/// the second is compared in label order, and (should the copy be numbered otherwise) by its degrees only.
fn check_union_large(cx: &mut Ctx, rl: Vec<u32>, out: &dyn Fn(u32) -> Vec<u32>, a: (&[u32], &[Vec<usize>]), b: (&[u32], &[Vec<usize>])) -> Res {
    ck_eq!(cx, rl.len(), a.0.len() + b.0.len(), "number of vertices of the union");
    let la: std::collections::HashSet<u32> = a.0.iter().cloned().collect();
    for (i, &x) in a.0.iter().enumerate() {
        ck!(cx, rl.binary_search(&x).is_ok(), "vertex {x} of the first operand is not in the union");
        ck_eq!(cx, out(x), sorted(a.1[i].iter().map(|&j| a.0[j])), "neighbours of the first operand's {x}");
    }
    let rest: Vec<u32> = rl.iter().cloned().filter(|x| !la.contains(x)).collect();
    let mut srt: Vec<usize> = (0..b.0.len()).collect();
    srt.sort_by_key(|&i| b.0[i]);
    let mut at = vec![0; b.0.len()];
    for (p, &i) in srt.iter().enumerate() { at[i] = rest[p]; }
    if (0..b.0.len()).all(|i| out(at[i]) == sorted(b.1[i].iter().map(|&j| at[j]))) { return Ok(()); }
    for &x in &rest { ck!(cx, out(x).iter().all(|y| !la.contains(y)), "edge between the first operand and {x}"); }
    ck!(cx, { let mut d: Vec<usize> = rest.iter().map(|&x| out(x).len()).collect(); d.sort_unstable(); let mut e: Vec<usize> = b.1.iter().map(|x| x.len()).collect(); e.sort_unstable(); d == e },
        "the second operand does not appear as a disjoint isomorphic copy: other degrees");
    Ok(())
}
pub fn c08(t: Tier) -> Vec<Family> {
    let mut f = vec![];
    let hs = huge();
    f.push(fam("shapes with more than 2^16 vertices: union with a short path (either way) and with a copy, normalize; oriented too", hs.len() as u64 * 3, move |idx, cx| {
        let (name, mk) = &hs[(idx / 3) as usize];
        if name.contains("centre last") || name.contains("star") && idx % 3 == 2 { cx.state(Dig::new(0)); return Ok(()); }
        let a = mk();
        let a = { let l = labels(2 * (idx % 2), a.n()); a.with_labels(l) };
        let p = path(5);
        let p = { let l = labels(4, 5); p.with_labels(l) };
        let (x, y) = match idx % 3 { 0 => (&a, &p), 1 => (&p, &a), _ => (&a, &a) };
        cx.note(|| format!("{name} variant {}", idx % 3));
        cx.state(a.dig().add(idx % 3));
        check_norm(cx, &a)?;
        let r = x.edit().disj_union(&y.edit());
        ck_eq!(cx, r.num_edges(), x.m() + y.m(), "number of edges of the union");
        check_union_large(cx, sorted(r.vertices().cloned()), &|v| sorted(r.neighbours(&v).cloned()), (&x.labels, &x.nb), (&y.labels, &y.nb))?;
        let (dx, dy) = (DG::new(x.n(), &x.edges).with_labels(x.labels.clone()), DG::new(y.n(), &y.edges).with_labels(y.labels.clone()));
        let r = dx.edit().disj_union(&dy.edit());
        ck_eq!(cx, r.num_edges(), dx.arcs.len() + dy.arcs.len(), "number of arcs of the union");
        check_union_large(cx, sorted(r.vertices().cloned()), &|v| sorted(r.out_neighbours(&v).cloned()), (&dx.labels, &dx.out), (&dy.labels, &dy.out))?;
        check_union_large(cx, sorted(r.vertices().cloned()), &|v| sorted(r.in_neighbours(&v).cloned()), (&dx.labels, &dx.inn), (&dy.labels, &dy.inn))?;
        if idx % 3 == 0 { check_dnorm(cx, &dx)?; }
        Ok(())
    }));
    let us: [[u32; 3]; 5] = [[0, 1, 2], [5, 0, 3], [100, 7, 4000], [2, 1, 0], [3_000_000_000, 1 << 31, 65_535]];
    let other = [1usize, 3, 1, 3, 2, 4]; // labels of the second operand; the sixth combination swaps the last two
    let first = [0usize, 1, 2, 3, 4, 2];
    let c = nsubgraphs(3, true);
    f.push(fam("disjoint union of all pairs of graphs with loops on subsets of 3 labels, 6 label combinations (ids up to 3,000,000,000)", c * c * 6, move |idx, cx| {
        let (x, w) = (idx / 6, (idx % 6) as usize);
        let (a, b) = (subgraph_at(3, true, &us[first[w]], x / c), subgraph_at(3, true, &us[other[w]], x % c));
        cx.note(|| format!("{} + {}", a.show(), b.show()));
        cx.state(a.dig().add(b.dig().0));
        let r = a.edit().disj_union(&b.edit());
        un(cx, &r, &[uop(&a), uop(&b)])?;
        if w == 0 { // second operand of another representation (loop-free)
            if b.edges.iter().all(|e| e.0 != e.1) {
                un(cx, &a.edit().disj_union(&b.ord()), &[uop(&a), uop(&b)])?;
                un(cx, &a.edit().disj_union(&b.degen()), &[uop(&a), uop(&b)])?;
            }
        }
        let l = [a.edit(), b.edit()];
        un(cx, &EditGraph::disj_unions(l.iter()), &[uop(&a), uop(&b)])
    }));
    let c = ngraphs_upto(2, true) + ngraphs(3, false);
    let k2 = ngraphs_upto(2, true);
    f.push(fam("disj_unions of all triples of graphs on <= 3 vertices (and of none, one)", c * c * c + c + 1, move |idx, cx| {
        let mk = |x: u64, s: u64| { let m = if x < k2 { graph_upto(2, true, x) } else { MG::from_mask(3, false, x - k2) }; let l = labels(s, m.n()); m.with_labels(l) };
        let ms: Vec<MG> = if idx == c * c * c + c { vec![] } else if idx >= c * c * c { vec![mk(idx - c * c * c, 4)] } else { vec![mk(idx / c / c, 4), mk(idx / c % c, 0), mk(idx % c, 1)] };
        cx.note(|| ms.iter().map(|m| m.show()).collect::<Vec<_>>().join(" + "));
        cx.state(ms.iter().fold(Dig::new(5), |d, m| d.add(m.dig().0)));
        let gs: Vec<EditGraph> = ms.iter().map(|m| m.edit()).collect();
        un(cx, &EditGraph::disj_unions(plain(gs.iter())), &ms.iter().map(uop).collect::<Vec<_>>())
    }));
    let mx = t.pick(4, 5);
    f.push(fam(format!("normalize all graphs with loops on <= {mx} vertices x {SCHEMES} label schemes"), ngraphs_upto(mx, true) * SCHEMES, move |idx, cx| {
        let m = graph_upto(mx, true, idx / SCHEMES);
        let l = labels(idx % SCHEMES, m.n());
        let m = m.with_labels(l);
        cx.note(|| m.show());
        cx.state(m.dig());
        check_norm(cx, &m)
    }));
    f.push(fam("normalize and union of all 4-vertex graphs x 24 hash orders", ngraphs(4, true) * 24, move |idx, cx| {
        fxhash::seam::set(Some(seam_table(4, idx % 24)));
        let m = MG::from_mask(4, true, idx / 24).with_labels(vec![9, 2, 11, 3]);
        cx.note(|| m.show());
        cx.state(m.dig().add(idx % 24));
        check_norm(cx, &m)?;
        let b = MG::from_mask(3, true, idx % 64);
        un(cx, &m.edit().disj_union(&b.edit()), &[uop(&m), uop(&b)])
    }));
    // digraphs
    let c = ndigraphs_upto(2, true) + ndigraphs(3, false);
    let k2 = ndigraphs_upto(2, true);
    let mk = move |x: u64, l: &[u32; 3]| { let d = if x < k2 { digraph_upto(2, true, x) } else { DG::from_mask(3, false, x - k2) }; let n = d.n(); d.with_labels(l[..n].to_vec()) };
    f.push(fam("disjoint union of all pairs of digraphs on <= 3 vertices, 6 label combinations", c * c * 6, move |idx, cx| {
        let w = (idx % 6) as usize;
        let (a, b) = (mk(idx / 6 / c, &us[first[w]]), mk(idx / 6 % c, &us[other[w]]));
        cx.note(|| format!("{} + {}", a.show(), b.show()));
        cx.state(a.dig().add(b.dig().0));
        dun(cx, &a.edit().disj_union(&b.edit()), &[dop(&a), dop(&b)])?;
        let l = [a.edit(), b.edit()];
        dun(cx, &EditDigraph::disj_unions(l.iter()), &[dop(&a), dop(&b)])
    }));
    let c2 = k2;
    f.push(fam("disj_unions of all triples of digraphs with loops on <= 2 vertices (and of none, one)", c2 * c2 * c2 + c2 + 1, move |idx, cx| {
        let k = c2 * c2 * c2;
        let ds: Vec<DG> = if idx == k + c2 { vec![] } else if idx >= k { vec![mk(idx - k, &us[2])] } else { vec![mk(idx / c2 / c2, &us[2]), mk(idx / c2 % c2, &us[0]), mk(idx % c2, &us[3])] };
        cx.note(|| ds.iter().map(|m| m.show()).collect::<Vec<_>>().join(" + "));
        cx.state(ds.iter().fold(Dig::new(6), |d, m| d.add(m.dig().0)));
        let gs: Vec<EditDigraph> = ds.iter().map(|m| m.edit()).collect();
        dun(cx, &EditDigraph::disj_unions(plain(gs.iter())), &ds.iter().map(dop).collect::<Vec<_>>())
    }));
    let k3 = ndigraphs_upto(3, true);
    f.push(fam(format!("normalize all digraphs with loops on <= 3 vertices, loop-free on 4, x {SCHEMES} label schemes"), (k3 + ndigraphs(4, false)) * SCHEMES, move |idx, cx| {
        let x = idx / SCHEMES;
        let d = if x < k3 { digraph_upto(3, true, x) } else { DG::from_mask(4, false, x - k3) };
        let l = labels(idx % SCHEMES, d.n());
        let d = d.with_labels(l);
        cx.note(|| d.show());
        cx.state(d.dig());
        check_dnorm(cx, &d)
    }));
    let mut sh = shapes(t.pick(40, 100), t.pick(12, 20));
    sh.extend(large(258, false));
    f.push(fam("named shapes: union with their reordering, normalize; oriented too", sh.len() as u64 * 3, move |idx, cx| {
        let (name, mk) = &sh[(idx / 3) as usize];
        let a = mk();
        let n = a.n();
        let s = [2, 4, 1][(idx % 3) as usize];
        let a = a.with_labels(labels(s, n));
        let b = reorder(&a, 1 + idx % 3);
        cx.note(|| format!("{name} scheme {s}"));
        cx.state(a.dig());
        check_norm(cx, &a)?;
        un(cx, &a.edit().disj_union(&b.edit()), &[uop(&a), uop(&b)])?;
        let d = DG::new(n, &a.edges.iter().enumerate().flat_map(|(i, &(x, y))| match i % 3 { 0 => vec![(x, y)], 1 => vec![(y, x)], _ => vec![(x, y), (y, x)] }).collect::<Vec<_>>()).with_labels(a.labels.clone());
        check_dnorm(cx, &d)?;
        dun(cx, &d.edit().disj_union(&d.edit()), &[dop(&d), dop(&d)])
    }));
    // label sets that are (nearly) an interval: at most two gaps, at the edges and in the middle
    let ns = [1usize, 2, 3, 4, 5, 8, 16, 33, 63, 64, 65, 99, 100, 101, 102, 128, 129, 200, 255, 256, 257, 300, 513];
    f.push(fam("normalize and union: paths, cycles and stars with loops on 1..513 vertices whose labels are an interval with at most two gaps, in order, reversed or interleaved", ns.len() as u64 * 3 * 3 * 5 * 3 * 3, move |idx, cx| {
        let (sh, st, gp, gs, or) = (idx % 3, idx / 3 % 3, idx / 9 % 5, idx / 45 % 3, idx / 135 % 3);
        let n = ns[(idx / 405) as usize];
        let size = [1u32, 2, n as u32][gs as usize];
        let cuts: &[usize] = &[vec![], vec![1.min(n - 1)], vec![n / 2], vec![n - 1], vec![1.min(n - 1), n - 1]][gp as usize][..];
        let mut l: Vec<u32> = (0..n).map(|i| [0u32, 1, 7][st as usize] + i as u32 + size * cuts.iter().filter(|&&c| i >= c).count() as u32).collect();
        match or { 0 => (), 1 => l.reverse(), _ => l = (0..n).map(|i| if i % 2 == 0 { l[i / 2] } else { l[n - 1 - i / 2] }).collect() }
        let mut m = match sh { 0 => path(n), 1 => cycle(n), _ => star_at(n - 1, n / 3) };
        if gs != 1 { m.edges.extend((0..n).step_by(5).map(|i| (i, i))); }
        let m = MG::new(n, &m.edges).with_labels(l);
        cx.note(|| format!("shape {sh} on {n} vertices, labels from {} with gaps {size} at {cuts:?}, order {or}", [0, 1, 7][st as usize]));
        cx.state(m.dig());
        check_norm(cx, &m)?;
        let d = DG::new(n, &m.edges).with_labels(m.labels.clone());
        check_dnorm(cx, &d)?;
        if n <= 102 {
            un(cx, &m.edit().disj_union(&m.edit()), &[uop(&m), uop(&m)])?;
            dun(cx, &d.edit().disj_union(&d.edit()), &[dop(&d), dop(&d)])?;
        }
        Ok(())
    }));
    f
}

// ------------------------------------------------------------------ C09
pub fn c09(t: Tier) -> Vec<Family> {
    let mut f = vec![];
    let top = t.pick(130u64, 400);
    f.push(fam(format!("one-parameter generators, every size 0..{top}"), (top + 1) * 6, move |idx, cx| {
        let (n, w) = ((idx / 6) as usize, idx % 6);
        if w == 4 && n > 150 { cx.state(Dig::new(9)); return Ok(()); }
        cx.note(|| format!("{} ({n})", ["path", "cycle", "matching", "star", "clique", "independent"][w as usize]));
        cx.state(Dig::new(90 + w).add(n as u64));
        let k = n as u32;
        let arcs: Vec<(usize, usize)> = match w {
            0 => (1..n).map(|i| (i - 1, i)).collect(),
            1 => (0..n).map(|i| (i, (i + 1) % n)).collect(),
            2 => (0..n).map(|i| (i, i + n)).collect(),
            3 => (1..=n).map(|i| (0, i)).collect(),
            4 => (0..n).flat_map(|i| (i + 1..n).map(move |j| (i, j))).collect(),
            _ => vec![],
        };
        let size = match w { 2 => 2 * n, 3 => n + 1, _ => n };
        let (g, d) = match w {
            0 => (EditGraph::path(k), EditDigraph::path(k)),
            1 => (EditGraph::cycle(k), EditDigraph::cycle(k)),
            2 => (EditGraph::matching(k), EditDigraph::matching(k)),
            3 => (EditGraph::star(k), EditDigraph::star(k)),
            4 => (EditGraph::clique(k), EditDigraph::clique(k)),
            _ => (EditGraph::independent(k), EditDigraph::independent(k)),
        };
        check_same(cx, &g, &MG::new(size, &arcs), "undirected")?;
        check_digraph(cx, &d, &DG::new(size, &arcs)).map_err(|e| format!("directed: {e}"))
    }));
    let top = t.pick(24u64, 48);
    f.push(fam(format!("bicliques and grids, all pairs of sizes 0..{top}"), (top + 1) * (top + 1) * 2, move |idx, cx| {
        let (w, s, q) = (idx % 2, (idx / 2 / (top + 1)) as usize, (idx / 2 % (top + 1)) as usize);
        cx.note(|| format!("{} ({s},{q})", ["biclique", "grid"][w as usize]));
        cx.state(Dig::new(97 + w).add(s as u64).add(q as u64));
        let (a, b) = (s as u32, q as u32);
        let (size, arcs): (usize, Vec<(usize, usize)>) = if w == 0 { (s + q, (0..s).flat_map(|i| (s..s + q).map(move |j| (i, j))).collect()) } else {
            let mut e = vec![];
            for y in 0..s { for x in 0..q { let u = y * q + x; if x + 1 < q { e.push((u, u + 1)); } if y + 1 < s { e.push((u, u + q)); } } }
            (s * q, e)
        };
        let (g, d) = if w == 0 { (EditGraph::biclique(a, b), EditDigraph::biclique(a, b)) } else { (EditGraph::grid(a, b), EditDigraph::grid(a, b)) };
        check_same(cx, &g, &MG::new(size, &arcs), "undirected")?;
        if size > 220 { ck_eq!(cx, (d.num_vertices(), spairs(d.arcs())), (size, { let mut v: Vec<_> = arcs.iter().map(|&(x, y)| (x as u32, y as u32)).collect(); v.sort(); v }), "directed arcs"); return Ok(()); }
        check_digraph(cx, &d, &DG::new(size, &arcs)).map_err(|e| format!("directed: {e}"))
    }));
    let big: Vec<u32> = t.pick(vec![255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 4096, 4097, 65_535, 65_536, 65_537], vec![255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4096, 4097, 32_769, 65_535, 65_536, 65_537, 131_073, 300_001]);
    f.push(fam("generators at large sizes: vertices and edges/arcs as lists", big.len() as u64 * 8, move |idx, cx| {
        let (n, w) = (big[(idx / 8) as usize], idx % 8);
        let k = n;
        cx.note(|| format!("{} ({n})", ["path", "cycle", "matching", "star", "clique", "independent", "grid 3 x", "biclique 2 x"][w as usize]));
        cx.state(Dig::new(95).add(idx));
        if w == 4 && n > 600 { return Ok(()); }
        let grid = |s: u32, t: u32| (0..s).flat_map(|y| (0..t).flat_map(move |x| { let u = y * t + x; let mut v = vec![]; if x + 1 < t { v.push((u, u + 1)); } if y + 1 < s { v.push((u, u + t)); } v })).collect::<Vec<_>>();
        let (size, mut arcs, g, d): (u32, Vec<(u32, u32)>, _, _) = match w {
            0 => (n, (1..n).map(|i| (i - 1, i)).collect(), EditGraph::path(k), EditDigraph::path(k)),
            1 => (n, (0..n).map(|i| (i, (i + 1) % n)).collect(), EditGraph::cycle(k), EditDigraph::cycle(k)),
            2 => (2 * n, (0..n).map(|i| (i, i + n)).collect(), EditGraph::matching(k), EditDigraph::matching(k)),
            3 => (n + 1, (1..=n).map(|i| (0, i)).collect(), EditGraph::star(k), EditDigraph::star(k)),
            4 => (n, (0..n).flat_map(|i| (i + 1..n).map(move |j| (i, j))).collect(), EditGraph::clique(k), EditDigraph::clique(k)),
            5 => (n, vec![], EditGraph::independent(k), EditDigraph::independent(k)),
            6 => (3 * n, grid(3, n), EditGraph::grid(3, k), EditDigraph::grid(3, k)),
            _ => (n + 2, (0..2).flat_map(|i| (2..n + 2).map(move |j| (i, j))).collect(), EditGraph::biclique(2, k), EditDigraph::biclique(2, k)),
        };
        arcs.sort_unstable();
        let mut edges: Vec<_> = arcs.iter().map(|&(a, b)| (a.min(b), a.max(b))).collect();
        edges.sort_unstable();
        let vs: Vec<u32> = (0..size).collect();
        ck!(cx, sorted(g.vertices().cloned()) == vs && sorted(d.vertices().cloned()) == vs, "the vertices are not 0..{size}");
        ck_eq!(cx, (g.num_vertices(), g.num_edges(), d.num_vertices(), d.num_edges()), (size as usize, edges.len(), size as usize, arcs.len()), "counts");
        ck!(cx, spairs(g.edges().map(|(a, b)| (a.min(b), a.max(b)))) == edges, "the undirected edges are not those of the family");
        ck!(cx, spairs(d.arcs()) == arcs, "the arcs are not those of the family");
        Ok(())
    }));
    let (len, top) = t.pick((4u32, 5u64), (5, 6));
    let total: u64 = (0..=len).map(|l| (top + 1).pow(l)).sum();
    f.push(fam(format!("complete k-partite graphs, all size vectors of length <= {len} with entries 0..{top}"), total, move |idx, cx| {
        let (mut x, mut l) = (idx, 0);
        while x >= (top + 1).pow(l) { x -= (top + 1).pow(l); l += 1; }
        let mut sizes = vec![];
        for _ in 0..l { sizes.push((x % (top + 1)) as u32); x /= top + 1; }
        cx.note(|| format!("complete_kpartite({sizes:?})"));
        cx.state(Dig::new(99).adds(sizes.iter().map(|&x| x as u64)));
        let us: Vec<usize> = sizes.iter().map(|&x| x as usize).collect();
        check_same(cx, &EditGraph::complete_kpartite(plain(sizes.iter())), &multipartite(&us), "complete k-partite, sizes one by one")?;
        check_same(cx, &EditGraph::complete_kpartite(sizes.iter()), &multipartite(&us), "complete k-partite")
    }));
    // many parts: every number of parts up to 70 and around the powers of two, with small part sizes
    let parts: Vec<usize> = (5..=t.pick(70, 140)).chain([127, 128, 129, 130, 255, 256, 257, 258]).collect();
    let np = parts.len() as u64;
    f.push(fam(format!("complete k-partite graphs with 5 to 258 parts ({np} numbers of parts x 8 patterns of sizes 0 to 5)"), np * 8, move |idx, cx| {
        let k = parts[(idx % np) as usize];
        let pat: &[u32] = [&[1u32][..], &[0, 1], &[1, 0], &[1, 2], &[2, 0, 1], &[2], &[0, 0, 0, 1], &[5, 0, 1, 1, 0, 2, 0, 0, 0]][(idx / np) as usize];
        if k > 140 && pat.iter().sum::<u32>() as usize * k > 260 * pat.len() { return Ok(()); }
        let us: Vec<u32> = (0..k).map(|i| pat[i % pat.len()]).collect();
        cx.note(|| format!("complete_kpartite with {k} parts of sizes {pat:?} repeated"));
        cx.state(Dig::new(98).adds(us.iter().map(|&x| x as u64)));
        let g = EditGraph::complete_kpartite(us.iter());
        let mut part = vec![];
        for (i, &s) in us.iter().enumerate() { part.extend(vec![i; s as usize]); }
        let n = part.len() as u32;
        let want: Vec<(u32, u32)> = (0..n).flat_map(|a| (a + 1..n).map(move |b| (a, b))).filter(|&(a, b)| part[a as usize] != part[b as usize]).collect();
        ck!(cx, sorted(g.vertices().cloned()) == (0..n).collect::<Vec<_>>(), "the vertices are not 0..{n}");
        ck_eq!(cx, (g.num_vertices(), g.num_edges()), (n as usize, want.len()), "counts");
        ck!(cx, spairs(g.edges().map(|(a, b)| (a.min(b), a.max(b)))) == want, "the edges are not those between different parts");
        Ok(())
    }));
    f
}

// ------------------------------------------------------------------ C10
fn check_witness<G: Graph>(cx: &mut Ctx, g: &G, m: &MG, what: &str) -> Res {
    let mut got: Vec<Vec<u32>> = g.components().iter().map(sset).collect();
    got.sort();
    let mut want: Vec<Vec<u32>> = m.components().iter().map(|c| names(m, c)).collect();
    want.sort();
    ck_eq!(cx, got, want, "{what}: components");
    // two-colour the model
    let mut col = vec![None; m.n()];
    let mut bip = true;
    for s in 0..m.n() {
        if col[s].is_some() { continue; }
        col[s] = Some(false);
        let mut st = vec![s];
        while let Some(u) = st.pop() { for &v in &m.nb[u] { if col[v].is_none() { col[v] = Some(!col[u].unwrap()); st.push(v); } else if col[v] == col[u] { bip = false; } } }
    }
    let ix = m.index();
    match g.is_bipartite() {
        BipartiteWitness::Bipartition(a, b) => {
            cx.note(|| format!("{what}: bipartition {:?} | {:?}", sset(&a), sset(&b)));
            ck!(cx, bip, "{what}: bipartition reported for a graph with an odd cycle");
            ck_eq!(cx, sorted(a.iter().chain(b.iter()).cloned()), m.slabels(), "{what}: the parts do not partition the vertices");
            for (x, y) in m.ledges() { ck!(cx, a.contains(&x) != a.contains(&y), "{what}: edge {x},{y} inside a part"); }
        }
        BipartiteWitness::OddCycle(c) => {
            cx.note(|| format!("{what}: odd cycle {c:?}"));
            ck!(cx, !bip, "{what}: odd cycle {c:?} reported for a bipartite graph");
            ck!(cx, c.len() % 2 == 1, "{what}: witness {c:?} has even length");
            let mut s = c.clone();
            s.sort_unstable();
            s.dedup();
            ck_eq!(cx, s.len(), c.len(), "{what}: the odd cycle {c:?} repeats a vertex; distinct vertices vs length");
            for i in 0..c.len() {
                let (x, y) = (c[i], c[(i + 1) % c.len()]);
                let (Some(&i), Some(&j)) = (ix.get(&x), ix.get(&y)) else { return Err(format!("{what}: witness {c:?} leaves the graph")); };
                ck!(cx, m.adj(i, j), "{what}: witness {c:?} uses the non-edge {x},{y}");
            }
        }
    }
    Ok(())
}
pub fn c10(t: Tier) -> Vec<Family> {
    let mut f = vec![];
    f.push(fam("all graphs with loops on <= 4 vertices x 24 hash orders", ngraphs_upto(4, true) * 24, move |idx, cx| {
        fxhash::seam::set(Some(seam_table(4, idx % 24)));
        let m = graph_upto(4, true, idx / 24);
        cx.note(|| format!("{} hash order {:?}", m.show(), perm(4, idx % 24)));
        cx.state(m.dig().add(idx % 24));
        check_witness(cx, &m.edit(), &m, "EditGraph")
    }));
    f.push(fam("all 5-vertex graphs x 120 hash orders", ngraphs(5, false) * 120, move |idx, cx| {
        fxhash::seam::set(Some(seam_table(5, idx % 120)));
        let m = MG::from_mask(5, false, idx / 120);
        cx.note(|| format!("{} hash order {:?}", m.show(), perm(5, idx % 120)));
        cx.state(m.dig().add(idx % 120));
        check_witness(cx, &m.edit(), &m, "EditGraph")
    }));
    let so = t.pick(4u64, 720);
    f.push(fam(format!("all 6-vertex graphs x {so} hash orders"), ngraphs(6, false) * so, move |idx, cx| {
        let h = if so == 720 { idx % 720 } else { [0, 719, 301, 430][(idx % 4) as usize] };
        fxhash::seam::set(Some(seam_table(6, h)));
        let m = MG::from_mask(6, false, idx / so);
        cx.note(|| format!("{} hash order {:?}", m.show(), perm(6, h)));
        cx.state(m.dig().add(h));
        check_witness(cx, &m.edit(), &m, "EditGraph")
    }));
    let mx = t.pick(5, 6);
    f.push(fam(format!("EditGraph, OrdGraph, DegenGraph: all graphs on <= {mx} vertices x {SCHEMES} label schemes"), ngraphs_upto(mx, false) * SCHEMES, move |idx, cx| {
        let m = graph_upto(mx, false, idx / SCHEMES);
        let l = labels(idx % SCHEMES, m.n());
        let m = m.with_labels(l);
        cx.note(|| m.show());
        cx.state(m.dig());
        check_witness(cx, &m.edit(), &m, "EditGraph")?;
        check_witness(cx, &m.ord(), &m, "OrdGraph")?;
        check_witness(cx, &m.degen_rev(), &m, "DegenGraph by hand")?;
        check_witness(cx, &m.degen(), &m, "DegenGraph")
    }));
    let k3 = ndigraphs_upto(3, true);
    f.push(fam("EditDigraph (undirected view): all digraphs with loops on <= 3 vertices x 6 hash orders, loop-free on 4", k3 * 6 + ndigraphs(4, false), move |idx, cx| {
        let d = if idx < k3 * 6 { fxhash::seam::set(Some(seam_table(3, idx % 6))); digraph_upto(3, true, idx / 6) } else { DG::from_mask(4, false, idx - k3 * 6).with_labels(labels(3, 4)) };
        cx.note(|| d.show());
        cx.state(d.dig());
        check_witness(cx, &d.edit(), &d.under(), "EditDigraph")
    }));
    if t.thorough() {
        f.push(fam("all 7-vertex graphs", ngraphs(7, false), move |idx, cx| {
            let m = MG::from_mask(7, false, idx);
            cx.state(m.dig());
            check_witness(cx, &m.edit(), &m, "EditGraph")
        }));
    }
    let mut sh = shapes(t.pick(120, 300), t.pick(20, 40));
    sh.extend(large(4097, true));
    sh.extend(huge());
    f.push(fam("named shapes x 4 vertex orders, alone, with an odd cycle attached by a path, and with other components", sh.len() as u64 * 12, move |idx, cx| {
        let (name, mk) = &sh[(idx / 12) as usize];
        let (o, v) = (idx / 3 % 4, idx % 3);
        let base = mk();
        if is_huge(&base) && v != o % 3 { cx.state(Dig::new(0)); return Ok(()); }
        let g = match v {
            0 => base,
            1 => { let n = base.n(); let mut e = base.edges.clone(); let k = 3 + 2 * (idx as usize % 5); let p = 1 + idx as usize % 4;
                for i in 0..p { e.push((if i == 0 { n / 2 } else { n + i - 1 }, n + i)); }
                for i in 0..k { e.push((n + p - 1 + i, n + p - 1 + (i + 1) % k)); }
                MG::new(n + p + k - 1, &e) }
            _ => disjoint(&[path(4), base, MG::new(2, &[]), cycle(6)]),
        };
        let m = reorder(&g, o);
        let l = labels([0, 2, 3, 1][o as usize], m.n());
        let m = m.with_labels(l);
        cx.note(|| format!("{name} variant {v} order {o}: {}", m.show()));
        cx.state(m.dig());
        check_witness(cx, &m.edit(), &m, "EditGraph")
    }));
    let mut ls = shapes(t.pick(60, 160), t.pick(14, 30));
    ls.extend(large(t.pick(1025, 4097), true));
    f.push(fam("named shapes with a loop on one vertex (first, middle, last) or on many, next to other components", ls.len() as u64 * 4, move |idx, cx| {
        let (name, mk) = &ls[(idx / 4) as usize];
        let b = mk();
        let n = b.n();
        let b = if idx % 4 == 3 { looped(&b, idx / 4 % 4) } else { let mut e = b.edges.clone(); let x = [0, n / 2, n - 1][(idx % 4) as usize]; e.push((x, x)); MG::new(n, &e) };
        let b = disjoint(&[cycle(4), b, MG::new(1, &[]), path(5)]);
        let l = labels((idx / 4 + idx) % SCHEMES, b.n());
        let m = reorder(&b, idx / 4 % 4).with_labels(l);
        cx.note(|| format!("{name} with loops {}", idx % 4));
        cx.state(m.dig());
        check_witness(cx, &m.edit(), &m, "EditGraph")
    }));
    iso_fams(&mut f, "", t, &[(7, 24), (8, 6)], &[(7, 240), (8, 60), (9, 6)], |cx, m, idx| {
        match idx % 3 { 0 => check_witness(cx, &m.edit(), m, "EditGraph"), 1 => check_witness(cx, &m.ord(), m, "OrdGraph"), _ => check_witness(cx, &m.degen(), m, "DegenGraph") }
    });
    f
}
