//! C11-C17: ordered representations and the algorithms on them.
use crate::engine::*;
use crate::obs::*;
use crate::props::basic::check_end;
use crate::space::*;
use crate::{ck, ck_eq};
use fxhash::FxHashMap;
use graphbench::algorithms::*;
use graphbench::degengraph::*;
use graphbench::dtfgraph::DTFGraph;
use graphbench::editgraph::EditGraph;
use graphbench::graph::*;
use graphbench::ordgraph::OrdGraph;
use graphbench::reachgraph::*;

// ------------------------------------------------------------------ C11
/// True core numbers by peeling, and the degeneracy.
fn cores(m: &MG) -> (usize, Vec<usize>) {
    let n = m.n();
    let mut d: Vec<usize> = (0..n).map(|i| m.nb[i].len()).collect();
    let mut core = vec![usize::MAX; n];
    let mut k = 0;
    let mut q: std::collections::BTreeSet<(usize, usize)> = (0..n).map(|i| (d[i], i)).collect();
    while let Some((x, v)) = q.pop_first() {
        k = k.max(x);
        core[v] = k;
        for &w in &m.nb[v] { if core[w] == usize::MAX { q.remove(&(d[w], w)); d[w] -= 1; q.insert((d[w], w)); } }
    }
    (k, core)
}

fn check_degeneracy<G: Graph>(cx: &mut Ctx, g: &G, m: &MG, what: &str) -> Res {
    let (dg, core) = cores(m);
    let (lo, up, ord, nums) = g.degeneracy();
    let ix = m.index();
    ck_eq!(cx, sorted(ord.iter().cloned()), m.slabels(), "{what}: ordering as a list of all vertices");
    ck!(cx, lo as usize <= dg, "{what}: lower bound {lo} above the degeneracy {dg}");
    ck!(cx, up as usize >= dg, "{what}: upper bound {up} below the degeneracy {dg}");
    let small = (0..m.n()).all(|i| m.nb[i].len() < 128);
    if small { ck_eq!(cx, (lo as usize, up as usize), (dg, dg), "{what}: bounds of a graph with all degrees below 128"); }
    let mut pos = vec![0; m.n()];
    for (p, v) in ord.iter().enumerate() { pos[ix[v]] = p; }
    ck_eq!(cx, nums.len(), m.n(), "{what}: number of core numbers");
    for i in 0..m.n() {
        let left = m.nb[i].iter().filter(|&&j| pos[j] < pos[i]).count();
        ck!(cx, left <= up as usize, "{what}: vertex {} has {left} earlier neighbours, upper bound {up}", m.l(i));
        let Some(&c) = nums.get(&m.l(i)) else { return Err(format!("{what}: no core number for {}", m.l(i))) };
        ck!(cx, c as usize >= core[i] && c <= up, "{what}: core number of {} is {c}, true {}, upper bound {up}", m.l(i), core[i]);
        if small { ck_eq!(cx, c as usize, core[i], "{what}: core number of {}", m.l(i)); }
    }
    Ok(())
}

pub fn c11(t: Tier) -> Vec<Family> {
    let mut f = vec![];
    let k4 = ngraphs_upto(4, false);
    f.push(fam("all graphs on <= 4 vertices x 24 hash orders", k4 * 24, |idx, cx| {
        fxhash::seam::set(Some(seam_table(4, idx % 24)));
        let m = graph_upto(4, false, idx / 24);
        cx.note(|| format!("{} hash order {:?}", m.show(), perm(4, idx % 24)));
        cx.state(m.dig().add(idx % 24));
        check_degeneracy(cx, &m.edit(), &m, "EditGraph")
    }));
    f.push(fam("all 5-vertex graphs x 120 hash orders", ngraphs(5, false) * 120, |idx, cx| {
        fxhash::seam::set(Some(seam_table(5, idx % 120)));
        let m = MG::from_mask(5, false, idx / 120);
        cx.note(|| format!("{} hash order {:?}", m.show(), perm(5, idx % 120)));
        cx.state(m.dig().add(idx % 120));
        check_degeneracy(cx, &m.edit(), &m, "EditGraph")
    }));
    let so = t.pick(6u64, 720);
    f.push(fam(format!("all 6-vertex graphs x {so} hash orders"), ngraphs(6, false) * so, move |idx, cx| {
        let h = (idx % so) * (720 / so) + (720 / so - 1) / 2;
        fxhash::seam::set(Some(seam_table(6, h)));
        let m = MG::from_mask(6, false, idx / so);
        cx.note(|| format!("{} hash order {:?}", m.show(), perm(6, h)));
        cx.state(m.dig().add(h));
        check_degeneracy(cx, &m.edit(), &m, "EditGraph")
    }));
    f.push(fam("three representations: all graphs on <= 5 vertices x label schemes", ngraphs_upto(5, false) * SCHEMES, |idx, cx| {
        let m = graph_upto(5, false, idx / SCHEMES);
        let l = labels(idx % SCHEMES, m.n());
        let m = m.with_labels(l);
        cx.note(|| m.show());
        cx.state(m.dig());
        check_degeneracy(cx, &m.edit(), &m, "EditGraph")?;
        check_degeneracy(cx, &m.ord(), &m, "OrdGraph")?;
        check_degeneracy(cx, &m.degen(), &m, "DegenGraph")
    }));
    if t.thorough() {
        f.push(fam("all 7-vertex graphs", ngraphs(7, false), |idx, cx| {
            let m = MG::from_mask(7, false, idx);
            cx.state(m.dig());
            check_degeneracy(cx, &m.edit(), &m, "EditGraph")
        }));
    }
    let mut sh = shapes(t.pick(150, 300), t.pick(40, 90));
    sh.extend(large(4097, false));
    sh.extend(huge());
    f.push(fam("named shapes x 4 vertex orders", sh.len() as u64 * 4, move |idx, cx| {
        let (name, mk) = &sh[(idx / 4) as usize];
        let m = reorder(&mk(), idx % 4);
        let l = labels([0, 5, 3, 2][(idx % 4) as usize], m.n());
        let m = m.with_labels(l);
        cx.note(|| format!("{name} order {}: {}", idx % 4, m.show()));
        cx.state(m.dig());
        check_degeneracy(cx, &m.edit(), &m, "EditGraph")
    }));
    // around the thresholds where the bucket width changes: 128, 129, 131, 135, 143, 159, 191, 255, 383 ...
    let mut big: Vec<(String, Lazy)> = vec![];
    let sizes: Vec<usize> = t.pick(
        (120..=148).chain([158, 159, 160, 161, 162, 190, 191, 192, 193, 194, 255, 256, 257, 258, 259, 320]).collect(),
        (118..=330).chain([382, 383, 384, 385, 386, 510, 511, 512, 513, 640, 641]).collect());
    for &k in &sizes {
        big.push((format!("clique {k}"), Box::new(move || clique(k))));
        big.push((format!("star {k}"), Box::new(move || star_at(k, k / 3))));
        big.push((format!("clique {k} with pendant path 5"), Box::new(move || lollipop(k, 5))));
        big.push((format!("biclique {k} x {}", k + 1), Box::new(move || biclique(k, k + 1))));
        big.push((format!("biclique 3 x {k}"), Box::new(move || biclique(3, k))));
        big.push((format!("biclique {} x {k}", 126), Box::new(move || biclique(126, k))));
        big.push((format!("clique {k} + clique 9 + star 130"), Box::new(move || disjoint(&[clique(9), clique(k), star_at(130, 5)]))));
        big.push((format!("wheel {k}"), Box::new(move || wheel(k))));
        big.push((format!("half graph {k}"), Box::new(move || half_graph(k))));
        // clique minus a perfect matching, clique where vertex i loses i%7 edges
        big.push((format!("clique {k} minus matching"), Box::new(move || MG::new(k, &clique(k).edges.into_iter().filter(|&(a, b)| !(a % 2 == 0 && b == a + 1)).collect::<Vec<_>>()))));
        big.push((format!("clique {k} thinned"), Box::new(move || MG::new(k, &clique(k).edges.into_iter().filter(|&(a, b)| !(b - a <= a % 7)).collect::<Vec<_>>()))));
        big.push((format!("clique {k} glued to clique {} in 4 vertices", k / 2 + 40), Box::new(move || {
            let mut e = clique(k).edges;
            e.extend(clique(k / 2 + 40).edges.into_iter().map(|(a, b)| (a + k - 4, b + k - 4)));
            MG::new(k + k / 2 + 36, &e)
        })));
    }
    f.push(fam(format!("{} large shapes around the bucket thresholds x 2 vertex orders", big.len()), big.len() as u64 * 2, move |idx, cx| {
        let (name, mk) = &big[(idx / 2) as usize];
        let m = reorder(&mk(), 2 * (idx % 2));
        let l = labels(2 * (idx % 2), m.n());
        let m = m.with_labels(l);
        cx.note(|| format!("{name} order {}", 2 * (idx % 2)));
        cx.state(m.dig());
        check_degeneracy(cx, &m.edit(), &m, "EditGraph")
    }));
    iso_fams(&mut f, "", t, &[(7, 24), (8, 6)], &[(7, 240), (8, 60), (9, 6)], |cx, m, idx| {
        match idx % 3 { 0 => check_degeneracy(cx, &m.ord(), m, "OrdGraph"), 1 => check_degeneracy(cx, &m.degen(), m, "DegenGraph"), _ => check_degeneracy(cx, &m.edit(), m, "EditGraph") }
    });
    f
}

// ------------------------------------------------------------------ C12
fn check_ord(cx: &mut Ctx, g: &OrdGraph, m: &MG) -> Res {
    let n = m.n();
    check_graph(cx, g, m)?;
    check_linear(cx, g, m)?;
    check_left_order(cx, g, m)?;
    for i in 0..n {
        let u = m.l(i);
        ck_eq!(cx, g.index_of(&u), i, "position of {u}");
        let mut right: Vec<usize> = m.nb[i].iter().cloned().filter(|&j| j > i).collect();
        right.sort_unstable();
        ck_eq!(cx, g.right_neighbours(&u), right.into_iter().map(|j| m.l(j)).collect::<Vec<_>>(), "right neighbours of {u} in the order of the graph");
    }
    let subs: Vec<u32> = if n <= 6 { (0..1 << n).collect() } else { (0..40).map(|k: u32| k.wrapping_mul(0x9E37_79B9) ^ (k << 7)).collect() };
    for s in subs {
        let mut pick: Vec<usize> = (0..n).filter(|&i| s >> (i % 32) & 1 == 1).collect();
        let (lo, hi) = (pick.first().map(|&i| m.l(i)), pick.last().map(|&i| m.l(i)));
        // given in position order, reversed, and rotated
        for k in 0..3 {
            match k { 1 => pick.reverse(), 2 if pick.len() > 1 => pick.rotate_left(1), _ => {} }
            let v: Vec<u32> = pick.iter().map(|&i| m.l(i)).collect();
            ck_eq!(cx, (g.leftmost(plain(v.iter())), g.rightmost(plain(v.clone()))), (lo, hi), "leftmost and rightmost of {v:?}");
        }
    }
    Ok(())
}
/// The model after exchanging positions a and b.
fn swapped(m: &MG, a: usize, b: usize) -> MG {
    let p = |x: usize| if x == a { b } else if x == b { a } else { x };
    let mut l = m.labels.clone();
    l.swap(a, b);
    MG::new(m.n(), &m.edges.iter().map(|&(x, y)| (p(x), p(y))).collect::<Vec<_>>()).with_labels(l)
}
/// All swap sequences up to `depth` from `m`; the code's graph is rebuilt by replaying, so that no
/// state is shared between branches.
fn swaps(cx: &mut Ctx, base: &MG, m: &MG, hist: &mut Vec<(u32, u32)>, depth: usize) -> Res {
    let mut g = base.ord();
    for &(a, b) in hist.iter() { g.swap(&a, &b); }
    let n = m.n();
    cx.state(m.dig());
    let res = check_ord(cx, &g, m);
    if let Err(e) = res { return Err(format!("after swaps {hist:?}: {e}")); }
    if depth == 0 { return Ok(()); }
    for i in 0..n {
        for j in 0..n {
            if i == j { continue; }
            hist.push((m.l(i), m.l(j)));
            swaps(cx, base, &swapped(m, i, j), hist, depth - 1)?;
            hist.pop();
        }
    }
    // swaps that must change nothing
    let x = outside(&m.labels)[0];
    for i in 0..n.min(3) {
        let u = m.l(i);
        g.swap(&u, &u);
        g.swap(&u, &x);
        g.swap(&x, &u);
    }
    g.swap(&x, &x);
    check_ord(cx, &g, m).map_err(|e| format!("after swaps {hist:?} and swaps with an absent vertex or itself: {e}"))
}

pub fn c12(t: Tier) -> Vec<Family> {
    let mut f = vec![];
    let d = t.pick(3, 4);
    f.push(fam(format!("all swap sequences of length <= {d}: all graphs on <= 4 vertices x label schemes"), ngraphs_upto(4, false) * SCHEMES, move |idx, cx| {
        let m = graph_upto(4, false, idx / SCHEMES);
        let l = labels(idx % SCHEMES, m.n());
        let m = m.with_labels(l);
        cx.note(|| m.show());
        swaps(cx, &m, &m, &mut vec![], d)
    }));
    let d5 = t.pick(2, 3);
    f.push(fam(format!("all swap sequences of length <= {d5}: all 5-vertex graphs"), ngraphs(5, false), move |idx, cx| {
        let m = MG::from_mask(5, false, idx).with_labels(labels(idx % SCHEMES, 5));
        cx.note(|| m.show());
        swaps(cx, &m, &m, &mut vec![], d5)
    }));
    let d6 = t.pick(1, 2);
    f.push(fam(format!("all swap sequences of length <= {d6}: all 6-vertex graphs"), ngraphs(6, false), move |idx, cx| {
        let m = MG::from_mask(6, false, idx).with_labels(labels(idx % SCHEMES, 6));
        cx.note(|| m.show());
        swaps(cx, &m, &m, &mut vec![], d6)
    }));
    // one long history through every ordering
    let ln = t.pick(5, 6);
    f.push(fam(format!("one walk through all orderings by swaps, checked at each step: all graphs on 3..={ln} vertices"), (3..=ln).map(|n| ngraphs(n, false)).sum::<u64>(), move |mut idx, cx| {
        let mut n = 3;
        while idx >= ngraphs(n, false) { idx -= ngraphs(n, false); n += 1; }
        let mut m = MG::from_mask(n, false, idx).with_labels(labels(4, n));
        cx.note(|| m.show());
        let mut g = m.ord();
        // Heap's algorithm: every permutation by single swaps
        let mut c = vec![0usize; n];
        let mut i = 0;
        while i < n {
            if c[i] < i {
                let (a, b) = if i % 2 == 0 { (0, i) } else { (c[i], i) };
                g.swap(&m.l(a), &m.l(b));
                m = swapped(&m, a, b);
                cx.state(m.dig());
                check_graph(cx, &g, &m)?;
                check_linear(cx, &g, &m)?;
                c[i] += 1;
                i = 0;
            } else { c[i] = 0; i += 1; }
        }
        check_ord(cx, &g, &m)
    }));
    f.push(fam("sources: EditGraph, OrdGraph, DegenGraph x every ordering, all graphs on <= 4 vertices", ngraphs_upto(4, false) * 24, |idx, cx| {
        let m = graph_upto(4, false, idx / 24);
        let n = m.n();
        if idx % 24 >= factorial(n) { return Ok(()); }
        let m = m.with_labels(labels(idx % SCHEMES, n));
        let p = perm(n, idx % 24);
        let mut inv = vec![0; n];
        for (k, &x) in p.iter().enumerate() { inv[x] = k; }
        // position k holds old vertex p[k]
        let want = MG::new(n, &m.edges.iter().map(|&(a, b)| (inv[a], inv[b])).collect::<Vec<_>>()).with_labels(p.iter().map(|&x| m.l(x)).collect());
        cx.note(|| format!("{} ordering {:?}", m.show(), want.labels));
        cx.state(want.dig());
        check_ord(cx, &OrdGraph::with_ordering(&m.edit(), want.labels.iter()), &want)?;
        check_ord(cx, &OrdGraph::with_ordering(&m.ord(), plain(want.labels.clone())), &want)?;
        check_ord(cx, &OrdGraph::with_ordering(&m.degen(), want.labels.iter()), &want)
    }));
    let big = t.pick(5, 6);
    f.push(fam(format!("by_degeneracy: all graphs on <= {big} vertices x label schemes"), ngraphs_upto(big, false) * SCHEMES, move |idx, cx| {
        let m = graph_upto(big, false, idx / SCHEMES);
        let l = labels(idx % SCHEMES, m.n());
        let m = m.with_labels(l);
        cx.note(|| m.show());
        let g = OrdGraph::by_degeneracy(&m.edit());
        let want = reordered_to(&m, &g.vertices().cloned().collect::<Vec<_>>())?;
        cx.state(want.dig());
        check_ord(cx, &g, &want)?;
        let (dg, _) = cores(&m);
        ck_eq!(cx, g.max_left_degree() as usize, dg, "largest left degree of a degeneracy ordering");
        Ok(())
    }));
    let mut sh = shapes(t.pick(30, 60), t.pick(9, 16));
    sh.extend(large(t.pick(130, 513), true));
    let hs = huge();
    f.push(fam("shapes with more than 2^16 vertices x 3 orders: three swaps across the whole order", hs.len() as u64 * 3, move |idx, cx| {
        let (name, mk) = &hs[(idx / 3) as usize];
        let mut m = { let m = reorder(&mk(), idx % 3); let l = labels(idx % 3, m.n()); m.with_labels(l) };
        let n = m.n();
        cx.note(|| format!("{name} order {}", idx % 3));
        let mut g = m.ord();
        for (a, b) in [(0, n - 1), (1, 65_537), (n / 2, 2)] {
            g.swap(&m.l(a), &m.l(b));
            m = swapped(&m, a, b);
        }
        cx.state(m.dig());
        check_graph(cx, &g, &m)?;
        check_linear(cx, &g, &m)?;
        for i in 0..n { ck_eq!(cx, g.index_of(&m.l(i)), i, "position of {}", m.l(i)); }
        for s in [vec![0, n - 1], vec![65_536, 65_537, 1], vec![n - 1], vec![n - 1, 65_530]] {
            let v: Vec<u32> = s.iter().map(|&i| m.l(i)).collect();
            ck_eq!(cx, (g.leftmost(v.iter()), g.rightmost(v.iter())), (s.iter().min().map(|&i| m.l(i)), s.iter().max().map(|&i| m.l(i))), "leftmost and rightmost of {v:?}");
        }
        Ok(())
    }));
    f.push(fam("named shapes: swap histories of length 12 (all start positions and strides)", sh.len() as u64 * 6, move |idx, cx| {
        let (name, mk) = &sh[(idx / 6) as usize];
        let m0 = mk();
        let n = m0.n();
        let mut m = m0.with_labels(labels(idx % SCHEMES, n));
        cx.note(|| format!("{name}: {}", m.show()));
        let mut g = m.ord();
        check_ord(cx, &g, &m)?;
        if n < 2 { return Ok(()); }
        for k in 0..12usize {
            let s = 1 + (idx as usize % 6) * (1 + n / 7);
            let (a, b) = ((k * s) % n, (k * s + 1 + k * (1 + n / 5)) % n);
            if a == b { continue; }
            g.swap(&m.l(a), &m.l(b));
            m = swapped(&m, a, b);
            cx.state(m.dig());
            check_ord(cx, &g, &m).map_err(|e| format!("after swap {k} of positions {a} and {b}: {e}"))?;
        }
        Ok(())
    }));
    f
}
/// The model with its positions rearranged to the given label order.
pub fn reordered_to(m: &MG, ord: &[u32]) -> Result<MG, String> {
    let ix = m.index();
    let mut s = ord.to_vec();
    s.sort_unstable();
    if s != m.slabels() { return Err(format!("vertices {ord:?} instead of {:?}", m.labels)); }
    let mut pos = vec![0; m.n()];
    for (p, v) in ord.iter().enumerate() { pos[ix[v]] = p; }
    Ok(MG::new(m.n(), &m.edges.iter().map(|&(a, b)| (pos[a], pos[b])).collect::<Vec<_>>()).with_labels(ord.to_vec()))
}

// ------------------------------------------------------------------ reachability model
/// dist[v][u] for u >= v: length of a shortest path from v to u inside positions >= v.
pub fn right_dists(m: &MG) -> Vec<Vec<usize>> {
    let n = m.n();
    (0..n).map(|s| {
        let mut d = vec![usize::MAX; n];
        d[s] = 0;
        let mut q = vec![s];
        let mut h = 0;
        while h < q.len() {
            let u = q[h];
            h += 1;
            for &v in &m.nb[u] { if v > s && d[v] == usize::MAX { d[v] = d[u] + 1; q.push(v); } }
        }
        d
    }).collect()
}
/// Weakly reachable from u with exact lengths: sorted (label, length), lengths at most r.
pub fn wreach_model(m: &MG, rd: &[Vec<usize>], u: usize, r: usize) -> Vec<(u32, u32)> {
    spairs((0..u).filter(|&v| rd[v][u] <= r).map(|v| (m.l(v), rd[v][u] as u32)))
}
pub fn sreach_model(m: &MG, rd: &[Vec<usize>], u: usize, r: usize) -> Vec<(u32, u32)> {
    let mut res = vec![];
    for v in 0..u {
        let d = m.nb[v].iter().filter(|&&x| x >= u && rd[u][x] != usize::MAX).map(|&x| rd[u][x] + 1).min();
        if let Some(d) = d { if d <= r { res.push((m.l(v), d as u32)); } }
    }
    spairs(res)
}
/// Both kinds of reachable sets, by bounded search from every vertex (for graphs where few vertices are close).
fn reach_sparse(m: &MG, r: usize) -> (Vec<Vec<(u32, u32)>>, Vec<Vec<(u32, u32)>>) {
    let n = m.n();
    let (mut w, mut s) = (vec![vec![]; n], vec![vec![]; n]);
    let mut seen = vec![usize::MAX; n];
    for v in 0..n {
        let mut q = vec![(v, 0)];
        seen[v] = v;
        let mut best: std::collections::BTreeMap<usize, usize> = Default::default();
        let mut h = 0;
        while h < q.len() {
            let (u, d) = q[h];
            h += 1;
            if d > 0 { w[u].push((m.l(v), d as u32)); }
            if d == r { continue; }
            for &x in &m.nb[u] {
                if x < v { best.entry(x).and_modify(|b| *b = (*b).min(d + 1)).or_insert(d + 1); }
                else if seen[x] != v { seen[x] = v; q.push((x, d + 1)); }
            }
        }
        s[v] = spairs(best.into_iter().map(|(x, d)| (m.l(x), d as u32)));
    }
    for x in w.iter_mut() { x.sort_unstable(); }
    (w, s)
}
/// The huge shapes on which searches of the given depth stay local from every vertex, and the depth.
fn huge_local() -> Vec<(String, Lazy, u32)> {
    huge().into_iter().map(|(n, l)| { let r = if n.contains("centre last") { 1 } else if n.starts_with("star") || n.starts_with("spider") { 2 } else { 3 }; (n, l, r) }).collect()
}
fn pairs_of(m: &FxHashMap<u32, u32>) -> Vec<(u32, u32)> { spairs(m.iter().map(|(a, b)| (*a, *b))) }

// ------------------------------------------------------------------ C13
fn check_degen(cx: &mut Ctx, g: &DegenGraph, m: &MG) -> Res {
    check_graph(cx, g, m)?;
    check_linear(cx, g, m)?;
    check_left_iter(cx, g, m)?;
    let n = m.n();
    ck_eq!(cx, g.first(), m.labels.first().cloned(), "first vertex");
    let it: Vec<(u32, Vec<u32>)> = g.iter().map(|(u, l)| (u, sorted(l.iter().cloned()))).collect();
    let want: Vec<(u32, Vec<u32>)> = (0..n).map(|i| (m.l(i), sorted(m.nb[i].iter().filter(|&&j| j < i).map(|&j| m.l(j))))).collect();
    ck_eq!(cx, it, want, "iteration over left neighbourhoods");
    let out = outside(&m.labels);
    for i in 0..n {
        let u = m.l(i);
        ck_eq!(cx, sorted(g.left_neighbours_slice(&u).iter().cloned()), want[i].1, "left neighbour slice of {u}");
        ck_eq!(cx, sset(g.right_neighbours(&u)), sorted(m.nb[i].iter().filter(|&&j| j > i).map(|&j| m.l(j))), "right neighbours of {u}");
        if n <= 64 { for j in 0..n { ck_eq!(cx, g.adjacent_ordered(&u, &m.l(j)), i < j && m.adj(i, j), "adjacent_ordered({u},{})", m.l(j)); } }
        for &x in &out { ck!(cx, !g.adjacent_ordered(&u, &x) && !g.adjacent_ordered(&x, &u), "adjacent_ordered with the absent vertex {x}"); }
    }
    Ok(())
}
/// Normalises (twice) and compares with positions as labels.
fn check_normalize(cx: &mut Ctx, g: &DegenGraph, m: &MG) -> Res {
    let n = m.n();
    let mut h = g.clone();
    let map = h.normalize();
    let want: Vec<(u32, u32)> = (0..n).map(|i| (i as u32, m.l(i))).collect();
    ck_eq!(cx, spairs(map.iter().map(|(a, b)| (*a, *b))), want, "map returned by normalize");
    let id = m.clone().with_labels((0..n as u32).collect());
    check_degen(cx, &h, &id).map_err(|e| format!("normalised: {e}"))?;
    for i in 0..n {
        let s = h.left_neighbours_slice(&(i as u32));
        ck!(cx, s.windows(2).all(|w| w[0] < w[1]), "left neighbourhood of {i} not sorted after normalize: {s:?}");
    }
    let map = h.normalize();
    ck_eq!(cx, spairs(map.iter().map(|(a, b)| (*a, *b))), (0..n as u32).map(|i| (i, i)).collect::<Vec<_>>(), "map returned by a second normalize");
    check_degen(cx, &h, &id).map_err(|e| format!("normalised twice: {e}"))?;
    check_degen(cx, g, m).map_err(|e| format!("original after normalising a copy: {e}"))
}
fn check_reach<const D: usize>(cx: &mut Ctx, g: &ReachGraph<D>, m: &MG, sets: &[Vec<(u32, u32)>]) -> Res {
    let n = m.n();
    check_graph_opt(cx, g, m, false, true)?;
    check_linear(cx, g, m)?;
    ck_eq!(cx, g.first(), m.labels.first().cloned(), "first vertex");
    ck_eq!(cx, g.depth(), D, "depth");
    let pos = m.index();
    // the vertices at distance d in the order of the graph
    let at = |i: usize, d: usize| -> Vec<u32> {
        let mut v: Vec<u32> = sets[i].iter().filter(|x| x.1 as usize == d).map(|x| x.0).collect();
        v.sort_unstable_by_key(|x| pos[x]);
        v
    };
    let one = |cx: &mut Ctx, r: &Reachables<D>, i: usize, what: &str| -> Res {
        for d in 1..=D { ck_eq!(cx, r.at(d).to_vec(), at(i, d), "{what}: reachable from {} at distance {d}", m.l(i)); }
        ck_eq!(cx, (r.len(), r.is_empty()), (sets[i].len(), sets[i].is_empty()), "{what}: size of the reachable set of {}", m.l(i));
        Ok(())
    };
    for i in 0..n {
        let u = m.l(i);
        one(cx, &g.reachables(&u), i, "reachables")?;
        ck_eq!(cx, g.reachables_all(&u).to_vec(), (1..=D).flat_map(|d| at(i, d)).collect::<Vec<_>>(), "reachables_all({u})");
        let nx = g.next_reachables(&u);
        ck_eq!(cx, nx.is_some(), i + 1 < n, "next_reachables({u}) exists");
        if let Some(r) = nx { one(cx, &r, i + 1, "next_reachables")?; ck!(cx, r == g.reachables(&m.l(i + 1)), "next_reachables({u}) differs from reachables({})", m.l(i + 1)); }
        if n <= 5 { for j in 0..n { ck_eq!(cx, g.reachables(&u) == g.reachables(&m.l(j)), i == j, "equality of the reachable sets of {u} and {}", m.l(j)); } }
    }
    let mut k = 0;
    for (v, r) in g.iter() {
        ck!(cx, k < n, "iterator yields more than {n} entries");
        ck_eq!(cx, v, m.l(k), "vertex {k} of the iterator");
        one(cx, &r, k, "iterator")?;
        ck!(cx, r == g.reachables(&v), "the entry of the iterator for {v} differs from reachables({v})");
        k += 1;
    }
    ck_eq!(cx, k, n, "entries of the iterator");
    if n <= 4 || n > 6 { check_end(cx, || g.iter(), |(v, r)| (v, r.len()), n, "iter()")?; }
    Ok(())
}
fn check_reach_all<const D: usize>(cx: &mut Ctx, m: &MG) -> Res {
    let rd = right_dists(m);
    let w: Vec<_> = (0..m.n()).map(|u| wreach_model(m, &rd, u, D)).collect();
    let s: Vec<_> = (0..m.n()).map(|u| sreach_model(m, &rd, u, D)).collect();
    let o = m.ord();
    let (gw, gs) = (o.to_wreach_graph::<D>(), o.to_sreach_graph::<D>());
    check_reach(cx, &gw, m, &w).map_err(|e| format!("to_wreach_graph::<{D}>: {e}"))?;
    check_reach(cx, &gs, m, &s).map_err(|e| format!("to_sreach_graph::<{D}>: {e}"))?;
    for u in 0..m.n() { if w[u] != s[u] { ck!(cx, gw.reachables(&m.l(u)) != gs.reachables(&m.l(u)), "weak and strong reachable sets of {} with depth {D} compare equal", m.l(u)); } }
    // the builder, driven by hand with the model's sets
    let pos: VertexMap<usize> = m.labels.iter().enumerate().map(|(i, &l)| (l, i)).collect();
    let mut b = ReachGraphBuilder::<D>::new();
    for u in 0..m.n() {
        let set: VertexMap<u32> = w[u].iter().cloned().collect();
        b.append(&m.l(u), &set, &pos);
    }
    check_reach(cx, &b.build(), m, &w).map_err(|e| format!("ReachGraphBuilder::<{D}>: {e}"))
}
fn c13_case(cx: &mut Ctx, m: &MG, full: bool) -> Res {
    check_degen(cx, &m.degen(), m).and_then(|_| check_left_order(cx, &m.degen(), m)).map_err(|e| format!("with_ordering: {e}"))?;
    let o = m.ord();
    let g = o.to_degeneracy_graph();
    check_degen(cx, &g, m).and_then(|_| check_left_order(cx, &g, m)).map_err(|e| format!("to_degeneracy_graph: {e}"))?;
    check_normalize(cx, &g, m)?;
    check_degen(cx, &DegenGraph::with_ordering(&o, plain(m.labels.clone())), m).map_err(|e| format!("with_ordering of an OrdGraph: {e}"))?;
    check_degen(cx, &DegenGraph::with_ordering(&g, m.labels.clone()), m).map_err(|e| format!("with_ordering of a DegenGraph: {e}"))?;
    // builder with left neighbours in reversed order
    let g = m.degen_rev();
    check_degen(cx, &g, m).map_err(|e| format!("DegenGraphBuilder: {e}"))?;
    check_normalize(cx, &g, m).map_err(|e| format!("DegenGraphBuilder: {e}"))?;
    let g = DegenGraph::from_graph(&m.edit());
    let r = reordered_to(m, &g.vertices().cloned().collect::<Vec<_>>()).map_err(|e| format!("from_graph: {e}"))?;
    check_degen(cx, &g, &r).and_then(|_| check_left_order(cx, &g, &r)).map_err(|e| format!("from_graph: {e}"))?;
    ck_eq!(cx, g.max_left_degree() as usize, cores(m).0, "from_graph: largest left degree");
    check_reach_all::<1>(cx, m)?;
    check_reach_all::<2>(cx, m)?;
    check_reach_all::<3>(cx, m)?;
    if full { check_reach_all::<4>(cx, m)?; check_reach_all::<6>(cx, m)?; }
    Ok(())
}
/// Reachable sets of two graphs over the same vertices: never equal when they differ, always when
/// both graphs are the same.
fn reach_pair<const D: usize>(cx: &mut Ctx, a: &MG, b: &MG) -> Res {
    let (ra, rb) = (right_dists(a), right_dists(b));
    let (oa, ob) = (a.ord(), b.ord());
    let (wa, wb, sa, sb) = (oa.to_wreach_graph::<D>(), ob.to_wreach_graph::<D>(), oa.to_sreach_graph::<D>(), ob.to_sreach_graph::<D>());
    for u in 0..a.n() {
        let v = a.l(u);
        let w = wreach_model(a, &ra, u, D) != wreach_model(b, &rb, u, D);
        let s = sreach_model(a, &ra, u, D) != sreach_model(b, &rb, u, D);
        if w || a.nb == b.nb { ck_eq!(cx, wa.reachables(&v) != wb.reachables(&v), w, "weakly reachable sets of {v} with depth {D} in two graphs compare unequal"); }
        if s || a.nb == b.nb { ck_eq!(cx, sa.reachables(&v) != sb.reachables(&v), s, "strongly reachable sets of {v} with depth {D} in two graphs compare unequal"); }
    }
    Ok(())
}
pub fn c13(t: Tier) -> Vec<Family> {
    let mut f = vec![];
    let q = ngraphs_upto(4, false);
    f.push(fam("all pairs of graphs on equally many (<= 4) vertices: equality of their reachable sets, depths 1-3", q * q, move |idx, cx| {
        let (a, b) = (graph_upto(4, false, idx / q), graph_upto(4, false, idx % q));
        if a.n() != b.n() { cx.state(Dig::new(0)); return Ok(()); }
        cx.note(|| format!("{} and {}", a.show(), b.show()));
        cx.state(a.dig().add(b.dig().0));
        reach_pair::<1>(cx, &a, &b)?;
        reach_pair::<2>(cx, &a, &b)?;
        reach_pair::<3>(cx, &a, &b)
    }));
    let k = t.pick(5, 5);
    f.push(fam(format!("all graphs on <= {k} vertices (identity order) x label schemes, depths 1,2,3,4,6"), ngraphs_upto(k, false) * SCHEMES, move |idx, cx| {
        let m = graph_upto(k, false, idx / SCHEMES);
        let l = labels(idx % SCHEMES, m.n());
        let m = m.with_labels(l);
        cx.note(|| m.show());
        cx.state(m.dig());
        c13_case(cx, &m, true)
    }));
    f.push(fam("all graphs on <= 4 vertices x 24 hash orders", ngraphs_upto(4, false) * 24, |idx, cx| {
        fxhash::seam::set(Some(seam_table(4, idx % 24)));
        let m = graph_upto(4, false, idx / 24);
        cx.note(|| format!("{} hash order {:?}", m.show(), perm(4, idx % 24)));
        cx.state(m.dig());
        c13_case(cx, &m, true)
    }));
    f.push(fam("all 6-vertex graphs, depths 1-3", ngraphs(6, false), |idx, cx| {
        let m = MG::from_mask(6, false, idx).with_labels(labels(idx % SCHEMES, 6));
        cx.note(|| m.show());
        cx.state(m.dig());
        c13_case(cx, &m, false)
    }));
    if t.thorough() {
        f.push(fam("all 7-vertex graphs, depths 1-3", ngraphs(7, false), |idx, cx| {
            let m = MG::from_mask(7, false, idx).with_labels(labels(idx % SCHEMES, 7));
            cx.state(m.dig());
            c13_case(cx, &m, false)
        }));
    }
    let mut sh = shapes(t.pick(40, 90), t.pick(10, 20));
    sh.extend(large(t.pick(130, 258), false));
    let hs = huge_local();
    f.push(fam("shapes with more than 2^16 vertices, depth 1..=3", hs.len() as u64 * 3, move |idx, cx| {
        let (name, mk, r) = &hs[(idx / 3) as usize];
        let m = { let m = mk(); let l = labels(idx % 3, m.n()); m.with_labels(l) };
        // (the code looks a vertex's left neighbours up by scanning them)
        if name.contains("centre last") { cx.state(Dig::new(0)); return Ok(()); }
        cx.note(|| format!("{name}: {}", m.show()));
        cx.state(m.dig());
        let o = m.ord();
        if idx % 3 == 0 {
            let g = o.to_degeneracy_graph();
            check_degen(cx, &g, &m)?;
            return check_normalize(cx, &g, &m);
        }
        let d = (*r).min(1 + (idx % 3) as u32) as usize;
        let (w, s) = reach_sparse(&m, d);
        if d == 2 {
            check_reach(cx, &o.to_wreach_graph::<2>(), &m, &w)?;
            check_reach(cx, &o.to_sreach_graph::<2>(), &m, &s)
        } else {
            check_reach(cx, &o.to_wreach_graph::<3>(), &m, &w)?;
            check_reach(cx, &o.to_sreach_graph::<3>(), &m, &s)
        }
    }));
    f.push(fam("named shapes x 4 vertex orders", sh.len() as u64 * 4, move |idx, cx| {
        let (name, mk) = &sh[(idx / 4) as usize];
        let m = reorder(&mk(), idx % 4);
        let l = labels([3, 2, 0, 4][(idx % 4) as usize], m.n());
        let m = m.with_labels(l);
        cx.note(|| format!("{name} order {}: {}", idx % 4, m.show()));
        cx.state(m.dig());
        c13_case(cx, &m, true)
    }));
    let lg = longs(t.pick(140, 280));
    f.push(fam("long thin graphs, reachability graphs of depth 5, 9, 16, 17, 33, 64, 65, 128, 129, 255, 256, 257", lg.len() as u64 * 12, move |idx, cx| {
        let (name, mk) = &lg[(idx / 12) as usize];
        let m = mk();
        let l = labels(idx % SCHEMES, m.n());
        let m = m.with_labels(l);
        cx.note(|| format!("{name}, depth number {}", idx % 12));
        cx.state(m.dig().add(idx));
        match idx % 12 {
            0 => check_reach_all::<5>(cx, &m), 1 => check_reach_all::<9>(cx, &m), 2 => check_reach_all::<16>(cx, &m), 3 => check_reach_all::<17>(cx, &m),
            4 => check_reach_all::<33>(cx, &m), 5 => check_reach_all::<64>(cx, &m), 6 => check_reach_all::<65>(cx, &m), 7 => check_reach_all::<128>(cx, &m),
            8 => check_reach_all::<129>(cx, &m), 9 => check_reach_all::<255>(cx, &m), 10 => check_reach_all::<256>(cx, &m), _ => check_reach_all::<257>(cx, &m),
        }
    }));
    let lg = longs(t.pick(280, 560));
    f.push(fam(format!("long thin graphs of about {} vertices, reachability graphs of depth 127, 255, 256, 257", t.pick(280, 560)), lg.len() as u64 * 4, move |idx, cx| {
        let (name, mk) = &lg[(idx / 4) as usize];
        let m = mk();
        let l = labels(idx % SCHEMES, m.n());
        let m = m.with_labels(l);
        cx.note(|| format!("{name}, depth number {}", idx % 4));
        cx.state(m.dig().add(idx));
        match idx % 4 { 0 => check_reach_all::<127>(cx, &m), 1 => check_reach_all::<255>(cx, &m), 2 => check_reach_all::<256>(cx, &m), _ => check_reach_all::<257>(cx, &m) }
    }));
    iso_fams(&mut f, "", t, &[(7, 6), (8, 1)], &[(7, 60), (8, 12), (9, 1)], |cx, m, _| c13_case(cx, m, false));
    f
}

// ------------------------------------------------------------------ C14
fn check_reachability<L: LinearGraph>(cx: &mut Ctx, g: &L, m: &MG, radii: &[u32], what: &str) -> Res {
    let n = m.n();
    let rd = right_dists(m);
    for &r in radii {
        let w: Vec<_> = (0..n).map(|u| wreach_model(m, &rd, u, r as usize)).collect();
        let s: Vec<_> = (0..n).map(|u| sreach_model(m, &rd, u, r as usize)).collect();
        let (ws, wz, ss, sz) = (g.wreach_sets(r), g.wreach_sizes(r), g.sreach_sets(r), g.sreach_sizes(r));
        ck!(cx, ws.len() == n && wz.len() == n && ss.len() == n && sz.len() == n, "{what}: r={r}: maps with {} {} {} {} entries for {n} vertices", ws.len(), wz.len(), ss.len(), sz.len());
        for u in 0..n {
            let v = m.l(u);
            ck_eq!(cx, ws.get(&v).map(pairs_of), Some(w[u].clone()), "{what}: weakly {r}-reachable set of {v}");
            ck_eq!(cx, wz.get(&v).map(|x| *x as usize), Some(w[u].len()), "{what}: size of the weakly {r}-reachable set of {v}");
            ck_eq!(cx, ss.get(&v).map(pairs_of), Some(s[u].clone()), "{what}: strongly {r}-reachable set of {v} (all sets)");
            ck_eq!(cx, sz.get(&v).map(|x| *x as usize), Some(s[u].len()), "{what}: size of the strongly {r}-reachable set of {v}");
            ck_eq!(cx, pairs_of(&g.sreach_set(&v, r)), s[u], "{what}: strongly {r}-reachable set of {v}");
            let layers = g.right_bfs(&v, r);
            ck_eq!(cx, layers.len(), r as usize + 1, "{what}: number of layers of right_bfs({v},{r})");
            for (d, l) in layers.iter().enumerate() {
                ck_eq!(cx, sset(l), sorted((u..n).filter(|&x| rd[u][x] == d).map(|x| m.l(x))), "{what}: layer {d} of right_bfs({v},{r})");
            }
        }
    }
    Ok(())
}
pub fn c14(t: Tier) -> Vec<Family> {
    let mut f = vec![];
    f.push(fam("all graphs on <= 5 vertices (identity order) x label schemes, r 0..=6", ngraphs_upto(5, false) * SCHEMES, |idx, cx| {
        let m = graph_upto(5, false, idx / SCHEMES);
        let l = labels(idx % SCHEMES, m.n());
        let m = m.with_labels(l);
        cx.note(|| m.show());
        cx.state(m.dig());
        check_reachability(cx, &m.ord(), &m, &[0, 1, 2, 3, 4, 5, 6], "OrdGraph")?;
        check_reachability(cx, &m.degen(), &m, &[0, 1, 2, 3, 4, 5, 6], "DegenGraph")?;
        check_reachability(cx, &m.degen_rev(), &m, &[0, 1, 2, 3, 4, 5, 6], "DegenGraph by hand")
    }));
    f.push(fam("all graphs on <= 4 vertices, r 7..=9, 15..=17, 31..=33, 63..=65, 127..=129, 255..=257; on <= 3 vertices also 65,535..=65,537", ngraphs_upto(4, false), |idx, cx| {
        let m = graph_upto(4, false, idx);
        let l = labels(idx % SCHEMES, m.n());
        let m = m.with_labels(l);
        cx.note(|| m.show());
        cx.state(m.dig());
        let mut r: Vec<u32> = (3..=8).flat_map(|k| (1 << k) - 1..=(1 << k) + 1).collect();
        check_reachability(cx, &m.ord(), &m, &r, "OrdGraph")?;
        if m.n() <= 3 { r = vec![65_535, 65_536, 65_537]; }
        check_reachability(cx, &m.degen(), &m, &r, "DegenGraph")
    }));
    f.push(fam("all 4-vertex graphs x 24 hash orders, r 0..=4", ngraphs(4, false) * 24, |idx, cx| {
        fxhash::seam::set(Some(seam_table(4, idx % 24)));
        let m = MG::from_mask(4, false, idx / 24);
        cx.note(|| format!("{} hash order {:?}", m.show(), perm(4, idx % 24)));
        cx.state(m.dig());
        check_reachability(cx, &m.ord(), &m, &[0, 1, 2, 3, 4], "OrdGraph")?;
        check_reachability(cx, &m.degen(), &m, &[0, 1, 2, 3, 4], "DegenGraph")?;
        check_reachability(cx, &m.degen_rev(), &m, &[0, 1, 2, 3, 4], "DegenGraph by hand")
    }));
    f.push(fam("all 6-vertex graphs, r 0..=6", ngraphs(6, false), |idx, cx| {
        let m = MG::from_mask(6, false, idx).with_labels(labels(idx % SCHEMES, 6));
        cx.note(|| m.show());
        cx.state(m.dig());
        if idx % 3 == 0 { check_reachability(cx, &m.ord(), &m, &[0, 1, 2, 3, 4, 5, 6], "OrdGraph") }
        else if idx % 3 == 1 { check_reachability(cx, &m.degen_rev(), &m, &[0, 1, 2, 3, 4, 5, 6], "DegenGraph by hand") }
        else { check_reachability(cx, &m.degen(), &m, &[0, 1, 2, 3, 4, 5, 6], "DegenGraph") }
    }));
    let tn = t.pick(7usize, 8);
    f.push(fam(format!("all {tn}-vertex trees (every labelling), r 0..=8"), ntrees(tn), move |idx, cx| {
        let m = tree(tn, idx);
        cx.note(|| m.show());
        cx.state(m.dig());
        check_reachability(cx, &m.ord(), &m, &[0, 1, 2, 3, 4, 5, 6, 7, 8], "OrdGraph")
    }));
    if t.thorough() {
        f.push(fam("all 7-vertex graphs, r 1..=5", ngraphs(7, false), |idx, cx| {
            let m = MG::from_mask(7, false, idx);
            cx.state(m.dig());
            check_reachability(cx, &m.ord(), &m, &[1, 2, 3, 4, 5], "OrdGraph")
        }));
    }
    let pn = t.pick(8usize, 9);
    f.push(fam(format!("path and cycle on {pn} vertices under every vertex order, r 0..={}", pn + 1), factorial(pn) * 2, move |idx, cx| {
        let base = if idx % 2 == 0 { path(pn) } else { cycle(pn) };
        let p = perm(pn, idx / 2);
        let m = MG::new(pn, &base.edges.iter().map(|&(a, b)| (p[a], p[b])).collect::<Vec<_>>());
        cx.note(|| m.show());
        cx.state(m.dig());
        let r: Vec<u32> = (0..=pn as u32 + 1).collect();
        check_reachability(cx, &m.ord(), &m, &r, "OrdGraph")
    }));
    let mut sh = shapes(t.pick(40, 80), t.pick(12, 20));
    sh.extend(large(t.pick(258, 513), false));
    let hs = huge_local();
    let lg = longs(t.pick(280, 560));
    f.push(fam("long thin graphs, radii up to beyond 256", (lg.len() * FAR.len()) as u64, move |idx, cx| {
        let (name, mk) = &lg[idx as usize / FAR.len()];
        let r = FAR[idx as usize % FAR.len()] as u32;
        let m = mk();
        let l = labels(idx % SCHEMES, m.n());
        let m = m.with_labels(l);
        cx.note(|| format!("{name}, r={r}"));
        cx.state(m.dig().add(r as u64));
        if idx % 2 == 0 { check_reachability(cx, &m.ord(), &m, &[r], "OrdGraph") } else { check_reachability(cx, &m.degen(), &m, &[r], "DegenGraph") }
    }));
    f.push(fam("shapes with more than 2^16 vertices, r up to 3", hs.len() as u64 * 2, move |idx, cx| {
        let (name, mk, r) = &hs[(idx / 2) as usize];
        let m = { let m = mk(); let l = labels(2 * (idx % 2), m.n()); m.with_labels(l) };
        cx.note(|| format!("{name}: {}", m.show()));
        cx.state(m.dig());
        let n = m.n();
        let (w, s) = reach_sparse(&m, *r as usize);
        fn go<L: LinearGraph>(cx: &mut Ctx, g: &L, m: &MG, r: u32, n: usize, w: &[Vec<(u32, u32)>], s: &[Vec<(u32, u32)>]) -> Res {
            let (ws, wz, ss, sz) = (g.wreach_sets(r), g.wreach_sizes(r), g.sreach_sets(r), g.sreach_sizes(r));
            ck!(cx, ws.len() == n && wz.len() == n && ss.len() == n && sz.len() == n, "r={r}: maps with {} {} {} {} entries for {n} vertices", ws.len(), wz.len(), ss.len(), sz.len());
            for u in 0..n {
                let v = m.l(u);
                ck_eq!(cx, ws.get(&v).map(pairs_of), Some(w[u].clone()), "weakly {r}-reachable set of {v}");
                ck_eq!(cx, ss.get(&v).map(pairs_of), Some(s[u].clone()), "strongly {r}-reachable set of {v}");
                ck_eq!(cx, (wz.get(&v).map(|x| *x as usize), sz.get(&v).map(|x| *x as usize)), (Some(w[u].len()), Some(s[u].len())), "sizes of the {r}-reachable sets of {v}");
            }
            Ok(())
        }
        if idx % 2 == 0 { go(cx, &m.ord(), &m, *r, n, &w, &s) } else { go(cx, &m.degen(), &m, *r, n, &w, &s) }
    }));
    f.push(fam("named shapes x 4 vertex orders, r 0,1,2,3,5,9,17", sh.len() as u64 * 4, move |idx, cx| {
        let (name, mk) = &sh[(idx / 4) as usize];
        let m = reorder(&mk(), idx % 4);
        let l = labels([0, 2, 3, 4][(idx % 4) as usize], m.n());
        let m = m.with_labels(l);
        cx.note(|| format!("{name} order {}: {}", idx % 4, m.show()));
        cx.state(m.dig());
        check_reachability(cx, &m.ord(), &m, &[0, 1, 2, 3, 5, 9, 17], "OrdGraph")?;
        check_reachability(cx, &m.degen(), &m, &[2, 5, 17], "DegenGraph")?;
        check_reachability(cx, &m.degen_rev(), &m, &[2, 3, 17], "DegenGraph by hand")
    }));
    let check = |cx: &mut Ctx, m: &MG, idx: u64| {
        if idx % 2 == 0 { check_reachability(cx, &m.ord(), m, &[1, 2, 3, 4, 5], "OrdGraph") } else { check_reachability(cx, &m.degen(), m, &[1, 2, 3, 4, 5], "DegenGraph") }
    };
    iso_fams(&mut f, "", t, &[(7, 12), (8, 2)], &[(7, 120), (8, 24), (9, 2)], check);
    tree_fams(&mut f, "", t, &[(9, 12), (10, 4), (11, 2), (12, 2)], &[(9, 200), (10, 100), (11, 50), (12, 20), (13, 4)], check);
    f
}

// ------------------------------------------------------------------ C15
/// Number of maximal cliques by plain Bron-Kerbosch on bit sets (n <= 128).
pub fn max_cliques(m: &MG) -> u64 {
    let nb: Vec<u128> = if m.n() > 128 { vec![] } else { (0..m.n()).map(|i| m.nb[i].iter().filter(|&&j| j != i).fold(0u128, |a, &j| a | 1 << j)).collect() };
    fn go(nb: &[u128], mut p: u128, mut x: u128) -> u64 {
        if p == 0 { return (x == 0) as u64; }
        let piv = (0..nb.len()).filter(|&v| (p | x) >> v & 1 == 1).max_by_key(|&v| (nb[v] & p).count_ones()).unwrap();
        let mut c = 0;
        let mut cand = p & !nb[piv];
        while cand != 0 {
            let v = cand.trailing_zeros() as usize;
            cand &= cand - 1;
            c += go(nb, p & nb[v], x & nb[v]);
            p &= !(1 << v);
            x |= 1 << v;
        }
        c
    }
    if m.n() == 0 { return 0; }
    if m.n() > 128 { return max_cliques_large(m); }
    go(&nb, if m.n() == 128 { !0 } else { (1 << m.n()) - 1 }, 0)
}
/// The same for any number of vertices: by the last vertex of the clique, with sorted sets.
fn max_cliques_large(m: &MG) -> u64 {
    fn go(m: &MG, mut p: Vec<usize>, mut x: Vec<usize>) -> u64 {
        if p.is_empty() { return x.is_empty() as u64; }
        let common = |v: usize, s: &[usize]| s.iter().filter(|&&u| u != v && m.adj(u, v)).cloned().collect::<Vec<usize>>();
        let piv = p.iter().chain(&x).cloned().max_by_key(|&v| common(v, &p).len()).unwrap();
        let mut c = 0;
        for v in p.clone().into_iter().filter(|&v| v == piv || !m.adj(v, piv)).collect::<Vec<_>>() {
            c += go(m, common(v, &p), common(v, &x));
            p.retain(|&u| u != v);
            x.push(v);
        }
        c
    }
    (0..m.n()).map(|v| go(m, m.nb[v].iter().cloned().filter(|&u| u < v).collect(), m.nb[v].iter().cloned().filter(|&u| u > v).collect())).sum()
}
/// The same by definition: vertex subsets that are cliques and cannot be extended (n <= 7).
fn max_cliques_by_definition(m: &MG) -> u64 {
    let n = m.n();
    let cl = |s: u32| (0..n).all(|i| s >> i & 1 == 0 || (i + 1..n).all(|j| s >> j & 1 == 0 || m.adj(i, j)));
    (1u32..1 << n).filter(|&s| cl(s) && (0..n).all(|v| s >> v & 1 == 1 || !cl(s | 1 << v))).count() as u64
}
fn check_cliques(cx: &mut Ctx, m: &MG, deg: bool) -> Res {
    let want = max_cliques(m);
    if m.n() <= 6 { ck_eq!(cx, max_cliques_by_definition(m), want, "the two reference counts"); }
    ck_eq!(cx, m.ord().count_max_cliques(), want, "OrdGraph: maximal cliques");
    ck_eq!(cx, m.degen().count_max_cliques(), want, "DegenGraph: maximal cliques");
    if deg {
        let e = m.edit();
        ck_eq!(cx, OrdGraph::by_degeneracy(&e).count_max_cliques(), want, "OrdGraph by degeneracy: maximal cliques");
        ck_eq!(cx, DegenGraph::from_graph(&e).count_max_cliques(), want, "DegenGraph by degeneracy: maximal cliques");
        let mut d = m.degen();
        d.normalize();
        ck_eq!(cx, d.count_max_cliques(), want, "normalised DegenGraph: maximal cliques");
        ck_eq!(cx, m.degen_rev().count_max_cliques(), want, "DegenGraph by hand: maximal cliques");
        if m.n() <= 12 {
            ck_eq!(cx, m.ord().to_wreach_graph::<2>().count_max_cliques(), want, "ReachGraph: maximal cliques");
            ck_eq!(cx, m.ord().to_sreach_graph::<3>().count_max_cliques(), want, "ReachGraph: maximal cliques");
        }
    }
    Ok(())
}
pub fn c15(t: Tier) -> Vec<Family> {
    let mut f = vec![];
    f.push(fam("all graphs on <= 5 vertices (identity order) x label schemes", ngraphs_upto(5, false) * SCHEMES, |idx, cx| {
        let m = graph_upto(5, false, idx / SCHEMES);
        let l = labels(idx % SCHEMES, m.n());
        let m = m.with_labels(l);
        cx.note(|| m.show());
        cx.state(m.dig());
        check_cliques(cx, &m, true)
    }));
    f.push(fam("all 5-vertex graphs x 120 hash orders", ngraphs(5, false) * 120, |idx, cx| {
        fxhash::seam::set(Some(seam_table(5, idx % 120)));
        let m = MG::from_mask(5, false, idx / 120);
        cx.note(|| format!("{} hash order {:?}", m.show(), perm(5, idx % 120)));
        cx.state(m.dig().add(idx % 120));
        check_cliques(cx, &m, false)
    }));
    let so = t.pick(4u64, 24);
    f.push(fam(format!("all 6-vertex graphs x {so} hash orders"), ngraphs(6, false) * so, move |idx, cx| {
        let h = (idx % so) * (720 / so) + 7;
        fxhash::seam::set(Some(seam_table(6, h)));
        let m = MG::from_mask(6, false, idx / so);
        cx.note(|| format!("{} hash order {:?}", m.show(), perm(6, h)));
        cx.state(m.dig());
        check_cliques(cx, &m, idx % so == 0)
    }));
    if t.thorough() {
        f.push(fam("all 7-vertex graphs", ngraphs(7, false), |idx, cx| {
            let m = MG::from_mask(7, false, idx);
            cx.state(m.dig());
            check_cliques(cx, &m, false)
        }));
    }
    // every complete multipartite graph with at most 14 vertices whose parts are listed in order
    let mut parts: Vec<Vec<usize>> = vec![];
    fn rec(v: &mut Vec<usize>, left: usize, cap: usize, out: &mut Vec<Vec<usize>>) {
        if !v.is_empty() { out.push(v.clone()); }
        for k in 1..=left.min(cap) { v.push(k); rec(v, left - k, k, out); v.pop(); }
    }
    rec(&mut vec![], t.pick(11, 14), 5, &mut parts);
    f.push(fam("complete multipartite graphs (parts <= 5) x 4 vertex orders", parts.len() as u64 * 4, move |idx, cx| {
        let p = &parts[(idx / 4) as usize];
        let m = reorder(&multipartite(p), idx % 4);
        let l = labels(idx % SCHEMES, m.n());
        let m = m.with_labels(l);
        cx.note(|| format!("parts {p:?} order {}", idx % 4));
        cx.state(m.dig());
        ck_eq!(cx, max_cliques(&m), p.iter().product::<usize>() as u64, "the reference count");
        check_cliques(cx, &m, true)
    }));
    let hs = huge();
    f.push(fam("triangle-free shapes with more than 2^16 vertices", hs.len() as u64 * 2, move |idx, cx| {
        let (name, mk) = &hs[(idx / 2) as usize];
        if name.contains("centre last") { cx.state(Dig::new(0)); return Ok(()); }
        let m = mk();
        cx.note(|| format!("{name}: {}", m.show()));
        cx.state(m.dig().add(idx % 2));
        let got = if idx % 2 == 0 { m.ord().count_max_cliques() } else { m.degen().count_max_cliques() };
        ck_eq!(cx, got, m.m() as u64 + m.nb.iter().filter(|x| x.is_empty()).count() as u64, "maximal cliques of a triangle-free graph (edges and isolated vertices)");
        Ok(())
    }));
    let mut ds: Vec<_> = dense_shapes(t.pick(130, 190)).into_iter().filter(|s| s.0.contains("independent")).collect();
    ds.extend(large(t.pick(1025, 4097), false));
    ds.extend(longs(t.pick(140, 280)));
    for k in [127usize, 128, 129, 255, 256, 257] {
        ds.push((format!("wheel {k}"), Box::new(move || wheel(k))));
        ds.push((format!("clique 30 glued in a vertex to clique {k}"), Box::new(move || { let mut e = clique(k).edges; e.extend(clique(30).edges.iter().map(|&(a, b)| (a + k - 1, b + k - 1))); MG::new(k + 29, &e) })));
        ds.push((format!("complement of a cycle on 11 vertices joined to clique {}", k / 4), Box::new(move || {
            let c = k / 4;
            let mut e: Vec<_> = (0..c + 11).flat_map(|i| (i + 1..c + 11).map(move |j| (i, j))).collect();
            e.retain(|&(i, j)| !(i >= c && (j == i + 1 || (i == c && j == c + 10))));
            MG::new(c + 11, &e)
        })));
    }
    f.push(fam("large shapes: cliques with vertices that miss one member, sparse graphs, wheels, glued cliques x 4 vertex orders", ds.len() as u64 * 4, move |idx, cx| {
        let (name, mk) = &ds[(idx / 4) as usize];
        let m = reorder(&mk(), idx % 4);
        if name.starts_with("star") && m.n() > 300 { cx.state(Dig::new(0)); return Ok(()); }
        let l = labels([0, 5, 3, 2][(idx % 4) as usize], m.n());
        let m = m.with_labels(l);
        cx.note(|| format!("{name} order {}: {}", idx % 4, m.show()));
        cx.state(m.dig());
        check_cliques(cx, &m, idx % 2 == 0)
    }));
    let sh = shapes(t.pick(50, 110), t.pick(14, 24));
    f.push(fam("named shapes x 4 vertex orders", sh.len() as u64 * 4, move |idx, cx| {
        let (name, mk) = &sh[(idx / 4) as usize];
        let m = reorder(&mk(), idx % 4);
        let l = labels([0, 2, 3, 4][(idx % 4) as usize], m.n());
        let m = m.with_labels(l);
        cx.note(|| format!("{name} order {}: {}", idx % 4, m.show()));
        cx.state(m.dig());
        check_cliques(cx, &m, true)
    }));
    iso_fams(&mut f, "", t, &[(7, 24), (8, 6)], &[(7, 240), (8, 60), (9, 6)], |cx, m, idx| check_cliques(cx, m, idx % 4 == 0));
    f
}

// ------------------------------------------------------------------ C16
fn check_greedy<L: LinearGraph>(cx: &mut Ctx, g: &L, m: &MG, what: &str) -> Res {
    let c = g.colour_greedy();
    ck_eq!(cx, sorted(c.vertices().cloned()), m.slabels(), "{what}: coloured vertices");
    for (a, b) in m.ledges() { ck!(cx, c[&a] != c[&b], "{what}: adjacent vertices {a} and {b} share colour {}", c[&a]); }
    let used: std::collections::BTreeSet<u32> = m.labels.iter().map(|l| c[l]).collect();
    let ml = (0..m.n()).map(|i| m.nb[i].iter().filter(|&&j| j < i).count()).max();
    ck!(cx, used.len() <= ml.map_or(0, |x| x + 1), "{what}: {} colours, largest left neighbourhood {ml:?}", used.len());
    Ok(())
}
fn check_scattered<L: LinearGraph>(cx: &mut Ctx, g: &L, m: &MG, d: &[Vec<usize>], dist: u32, target: &[usize], what: &str) -> Res {
    let tl: Vec<u32> = target.iter().map(|&i| m.l(i)).collect();
    // targets may be listed in any order and repeatedly
    let cl = if dist % 2 == 0 { g.scattered_colouring(dist, tl.iter()) } else { g.scattered_colouring(dist, plain(tl.iter().rev().chain(tl.iter()).cloned().collect::<Vec<u32>>())) };
    let ix = m.index();
    let mut all = vec![];
    for (k, c) in cl.iter().enumerate() {
        ck!(cx, !c.is_empty(), "{what}: distance {dist}, target {tl:?}: class {k} is empty");
        let v: Vec<u32> = sset(c);
        for i in 0..v.len() {
            let Some(&a) = ix.get(&v[i]) else { return Err(format!("{what}: class contains {} which is not a vertex", v[i])) };
            for &y in &v[i + 1..] {
                let Some(&b) = ix.get(&y) else { return Err(format!("{what}: class contains {y} which is not a vertex")) };
                ck!(cx, d[a][b] >= dist as usize, "{what}: distance {dist}, target {tl:?}: vertices {} and {y} at distance {} share a class (classes {:?})", v[i], d[a][b], cl.iter().map(sset).collect::<Vec<_>>());
            }
        }
        all.extend(v);
    }
    ck_eq!(cx, sorted(all), sorted(tl.clone()), "{what}: distance {dist}: vertices of all classes");
    Ok(())
}
pub fn c16(t: Tier) -> Vec<Family> {
    let mut f = vec![];
    f.push(fam("greedy: all graphs on <= 5 vertices (identity order) x label schemes, Ord and Degen", ngraphs_upto(5, false) * SCHEMES, |idx, cx| {
        let m = graph_upto(5, false, idx / SCHEMES);
        let l = labels(idx % SCHEMES, m.n());
        let m = m.with_labels(l);
        cx.note(|| m.show());
        cx.state(m.dig());
        check_greedy(cx, &m.ord(), &m, "OrdGraph")?;
        check_greedy(cx, &m.degen(), &m, "DegenGraph")?;
        check_greedy(cx, &m.degen_rev(), &m, "DegenGraph by hand")?;
        check_greedy(cx, &m.ord().to_wreach_graph::<2>(), &m, "ReachGraph (weak)")?;
        check_greedy(cx, &m.ord().to_sreach_graph::<3>(), &m, "ReachGraph (strong)")
    }));
    f.push(fam("greedy: all 6-vertex graphs", ngraphs(6, false), |idx, cx| {
        let m = MG::from_mask(6, false, idx);
        cx.note(|| m.show());
        cx.state(m.dig());
        check_greedy(cx, &m.ord(), &m, "OrdGraph")?;
        check_greedy(cx, &m.degen(), &m, "DegenGraph")
    }));
    if t.thorough() {
        f.push(fam("greedy: all 7-vertex graphs", ngraphs(7, false), |idx, cx| {
            let m = MG::from_mask(7, false, idx);
            cx.state(m.dig());
            check_greedy(cx, &m.degen(), &m, "DegenGraph")
        }));
    }
    let mut sh = shapes(t.pick(80, 200), t.pick(14, 24));
    sh.extend(large(4097, true));
    sh.extend(huge());
    f.push(fam("greedy: named shapes x 4 vertex orders", sh.len() as u64 * 4, move |idx, cx| {
        let (name, mk) = &sh[(idx / 4) as usize];
        let m = reorder(&mk(), idx % 4);
        if is_huge(&m) && idx % 2 == 1 { cx.state(Dig::new(0)); return Ok(()); }
        let l = labels([0, 5, 3, 2][(idx % 4) as usize], m.n());
        let m = m.with_labels(l);
        cx.note(|| format!("{name} order {}: {}", idx % 4, m.show()));
        cx.state(m.dig());
        check_greedy(cx, &m.ord(), &m, "OrdGraph")?;
        check_greedy(cx, &m.degen_rev(), &m, "DegenGraph by hand")?;
        check_greedy(cx, &m.degen(), &m, "DegenGraph")
    }));
    let ds = dense_shapes(300);
    f.push(fam("greedy: cliques with vertices that miss one member, complements of paths and matchings, up to 300 colours x 4 vertex orders", ds.len() as u64 * 4, move |idx, cx| {
        let (name, mk) = &ds[(idx / 4) as usize];
        let m = reorder(&mk(), idx % 4);
        let l = labels([0, 2, 3, 4][(idx % 4) as usize], m.n());
        let m = m.with_labels(l);
        cx.note(|| format!("{name} order {}: {}", idx % 4, m.show()));
        cx.state(m.dig());
        check_greedy(cx, &m.ord(), &m, "OrdGraph")?;
        check_greedy(cx, &m.degen(), &m, "DegenGraph")
    }));
    f.push(fam("scattered: all graphs on <= 4 vertices x all targets x distances 0..=5 x 24 hash orders", ngraphs_upto(4, false) * 24, |idx, cx| {
        fxhash::seam::set(Some(seam_table(4, idx % 24)));
        let m = graph_upto(4, false, idx / 24);
        cx.note(|| format!("{} hash order {:?}", m.show(), perm(4, idx % 24)));
        let d = m.dists();
        let (o, dg, dr) = (m.ord(), m.degen(), m.degen_rev());
        for s in 0u32..1 << m.n() {
            let tg: Vec<usize> = (0..m.n()).filter(|i| s >> i & 1 == 1).collect();
            for dist in 0..=5 {
                cx.state(m.dig().add(s as u64).add(dist as u64));
                check_scattered(cx, &o, &m, &d, dist, &tg, "OrdGraph")?;
                check_scattered(cx, if s % 2 == 0 { &dg } else { &dr }, &m, &d, dist, &tg, "DegenGraph")?;
            }
        }
        Ok(())
    }));
    f.push(fam("scattered: all graphs on <= 3 vertices x all targets x very large distances", ngraphs_upto(3, false) * 8, |idx, cx| {
        let m = graph_upto(3, false, idx / 8);
        let d = m.dists();
        let tg: Vec<usize> = (0..m.n()).filter(|i| idx % 8 >> i & 1 == 1).collect();
        cx.note(|| format!("{} target {tg:?}", m.show()));
        for dist in [255, 256, 65_535, 65_536, 70_001] {
            cx.state(m.dig().add(idx % 8).add(dist as u64));
            check_scattered(cx, &m.ord(), &m, &d, dist, &tg, "OrdGraph")?;
        }
        Ok(())
    }));
    let so = t.pick(2u64, 24);
    f.push(fam(format!("scattered: all 5-vertex graphs x all targets x distances 0..=6 x {so} hash orders"), ngraphs(5, false) * so, move |idx, cx| {
        let h = (idx % so) * (119 / so.max(2)) + 1;
        fxhash::seam::set(Some(seam_table(5, h)));
        let m = MG::from_mask(5, false, idx / so);
        cx.note(|| format!("{} hash order {:?}", m.show(), perm(5, h)));
        let d = m.dists();
        let o = m.ord();
        for s in 0u32..1 << m.n() {
            let tg: Vec<usize> = (0..m.n()).filter(|i| s >> i & 1 == 1).collect();
            for dist in 0..=6 {
                cx.state(m.dig().add(s as u64).add(dist as u64));
                check_scattered(cx, &o, &m, &d, dist, &tg, "OrdGraph")?;
            }
        }
        Ok(())
    }));
    let th = t.thorough();
    f.push(fam("scattered: all 6-vertex graphs x targets x distances 1..=6", ngraphs(6, false), move |idx, cx| {
        let m = MG::from_mask(6, false, idx).with_labels(labels(idx % SCHEMES, 6));
        cx.note(|| m.show());
        let d = m.dists();
        let o = m.ord();
        let ts: Vec<u32> = if th { (0..64).collect() } else { vec![63, 31, 62, 45, 21, 42] };
        for s in ts {
            let tg: Vec<usize> = (0..m.n()).filter(|i| s >> i & 1 == 1).collect();
            for dist in 1..=6 {
                cx.state(m.dig().add(s as u64).add(dist as u64));
                check_scattered(cx, &o, &m, &d, dist, &tg, "OrdGraph")?;
            }
        }
        Ok(())
    }));
    let tn = t.pick(7usize, 8);
    f.push(fam(format!("scattered: all {tn}-vertex trees, all vertices, distances 1..=8"), ntrees(tn), move |idx, cx| {
        let m = tree(tn, idx);
        cx.note(|| m.show());
        let d = m.dists();
        let o = m.ord();
        let all: Vec<usize> = (0..tn).collect();
        for dist in 1..=8 {
            cx.state(m.dig().add(dist as u64));
            check_scattered(cx, &o, &m, &d, dist, &all, "OrdGraph")?;
        }
        Ok(())
    }));
    let mut sh = shapes(t.pick(45, 90), t.pick(10, 16));
    sh.extend(large(t.pick(130, 258), false));
    f.push(fam("scattered: named shapes x 4 vertex orders x 4 targets x distances 1..=6", sh.len() as u64 * 4, move |idx, cx| {
        let (name, mk) = &sh[(idx / 4) as usize];
        let m = reorder(&mk(), idx % 4);
        let n = m.n();
        let l = labels([0, 5, 3, 2][(idx % 4) as usize], n);
        let m = m.with_labels(l);
        cx.note(|| format!("{name} order {}: {}", idx % 4, m.show()));
        let d = m.dists();
        let o = m.ord();
        for tg in [(0..n).collect::<Vec<_>>(), (0..n).step_by(2).collect(), (n / 2..n).collect(), (0..n).filter(|i| i % 3 != 0).collect()] {
            for dist in 1..=6 {
                cx.state(m.dig().add(tg.len() as u64).add(dist as u64));
                check_scattered(cx, &o, &m, &d, dist, &tg, "OrdGraph")?;
            }
        }
        Ok(())
    }));
    let lg = longs(t.pick(280, 560));
    f.push(fam("scattered: long thin graphs, distances up to beyond 256, all vertices and a third of them", (lg.len() * FAR.len()) as u64, move |idx, cx| {
        let (name, mk) = &lg[idx as usize / FAR.len()];
        let r = FAR[idx as usize % FAR.len()] as u32;
        let m = mk();
        let l = labels(idx % SCHEMES, m.n());
        let m = m.with_labels(l);
        cx.note(|| format!("{name}, distance {r}"));
        cx.state(m.dig().add(r as u64));
        let d = m.dists();
        for tg in [(0..m.n()).collect::<Vec<_>>(), (0..m.n()).step_by(3).collect()] { check_scattered(cx, &m.ord(), &m, &d, r, &tg, "OrdGraph")?; }
        Ok(())
    }));
    iso_fams(&mut f, "greedy: ", t, &[(7, 24), (8, 6)], &[(7, 240), (8, 60), (9, 6)], |cx, m, idx| {
        if idx % 2 == 0 { check_greedy(cx, &m.ord(), m, "OrdGraph") } else { check_greedy(cx, &m.degen(), m, "DegenGraph") }
    });
    let check = |cx: &mut Ctx, m: &MG, _: u64| {
        let d = m.dists();
        let o = m.ord();
        for tg in [(0..m.n()).collect::<Vec<_>>(), (0..m.n()).step_by(2).collect()] { for dist in 2..=5 { check_scattered(cx, &o, m, &d, dist, &tg, "OrdGraph")?; } }
        Ok(())
    };
    iso_fams(&mut f, "scattered, all vertices and half of them, distances 2..=5: ", t, &[(7, 6), (8, 1)], &[(7, 60), (8, 12), (9, 1)], check);
    tree_fams(&mut f, "scattered, all vertices and half of them, distances 2..=5: ", t, &[(9, 8), (10, 4), (11, 2), (12, 2)], &[(9, 100), (10, 60), (11, 30), (12, 20), (13, 4)], check);
    f
}

// ------------------------------------------------------------------ C17
/// Visits everything within distance `r` of `s` through vertices at or after `from`.
fn ball(m: &MG, s: usize, r: usize, from: usize, stamp: &mut (Vec<u32>, u32), mut f: impl FnMut(usize)) {
    if stamp.0.len() != m.n() { *stamp = (vec![0; m.n()], 0); }
    stamp.1 += 1;
    let mut q = vec![(s, 0)];
    stamp.0[s] = stamp.1;
    let mut h = 0;
    while h < q.len() {
        let (x, dx) = q[h];
        h += 1;
        f(x);
        if dx < r { for &y in &m.nb[x] { if y >= from && stamp.0[y] != stamp.1 { stamp.0[y] = stamp.1; q.push((y, dx + 1)); } } }
    }
}
/// Size of the largest weak r-reachability set (the vertex included) of the index order.
fn wcol(m: &MG, r: usize) -> usize {
    let mut cnt = vec![0usize; m.n()];
    let mut st = Default::default();
    for w in 0..m.n() { ball(m, w, r, w, &mut st, |x| cnt[x] += 1); }
    cnt.into_iter().max().unwrap_or(0)
}
/// Size of some set that r-dominates `target` (so at least the smallest one).
fn cover(m: &MG, r: usize, target: &[usize]) -> usize {
    let mut open = vec![false; m.n()];
    for &t in target { open[t] = true; }
    let (mut st, mut k) = (Default::default(), 0);
    for &t in target {
        if !open[t] { continue; }
        let mut cand = vec![];
        ball(m, t, r, 0, &mut st, |x| cand.push(x));
        let mut best = (0, t);
        for c in cand {
            let mut gain = 0;
            ball(m, c, r, 0, &mut st, |x| gain += open[x] as usize);
            if gain > best.0 { best = (gain, c); }
        }
        ball(m, best.1, r, 0, &mut st, |x| open[x] = false);
        k += 1;
    }
    k
}
/// The approximation guarantee. A smallest dominating set has `opt` members; each of them meets
/// at most `c` sets "reachable from x", and every vertex accounts for at most (2r)^2 + 2 members
/// chosen in turn before it joins the set itself; one of those pays for at most c joins per
/// (2r)^2 + 1. Hence at most opt * c * ((2r)^2 + 2 + c) members.
fn check_size(cx: &mut Ctx, m: &MG, r: u32, target: &[usize], size: usize, c: impl FnOnce() -> usize, what: &str) -> Res {
    let k = |c: usize| (c as u128) * (4 * r as u128 * r as u128 + 2 + c as u128);
    if size as u128 <= k(1 + (r > 0 && m.m() > 0) as usize) { return Ok(()); }
    let (c, opt) = (c(), cover(m, r as usize, target));
    ck!(cx, size as u128 <= opt as u128 * k(c), "{what}: {size} members, although {opt} suffice and no vertex reaches more than {c}: more than the {} the approximation allows", opt as u128 * k(c));
    Ok(())
}
type DomRes = (VertexSet, VertexMap<u32>, Option<VertexColouring<u32>>);
fn check_dom(cx: &mut Ctx, m: &MG, d: &[Vec<usize>], r: u32, target: &[usize], witness: bool, res: DomRes, what: &str) -> Res {
    let ix = m.index();
    let (set, map, wit) = res;
    let set = sset(&set);
    let what = format!("{what}: r={r}, target {:?}, set {:?}", target.iter().take(64).map(|&i| m.l(i)).collect::<Vec<_>>(), &set[..set.len().min(64)]);
    let mut dom = vec![];
    for v in &set { match ix.get(v) { Some(&i) => dom.push(i), None => return Err(format!("{what}: {v} is not a vertex")) } }
    let nearest = m.bfs(&dom);
    let near = |i: usize| nearest[i];
    for &i in target { ck!(cx, near(i) <= r as usize, "{what}: target {} has no member within distance {r}", m.l(i)); }
    for i in 0..m.n() {
        let want = near(i);
        match map.get(&m.l(i)) {
            Some(&x) => ck!(cx, x as usize == want, "{what}: reported distance of {} is {x}, true distance {want}", m.l(i)),
            None => ck!(cx, want == usize::MAX, "{what}: no distance reported for {}, true distance {want}", m.l(i)),
        }
    }
    for k in map.keys() { ck!(cx, ix.contains_key(k), "{what}: distance for {k}, which is not a vertex"); }
    check_size(cx, m, r, target, set.len(), || wcol(m, r as usize), &what)?;
    ck_eq!(cx, wit.is_some(), witness, "{what}: witness present");
    if let Some(c) = wit {
        let v = sorted(c.vertices().cloned());
        for x in &v { ck!(cx, set.binary_search(x).is_ok(), "{what}: the witness colours {x}, not in the set"); }
        if d.is_empty() { // large: search from every coloured vertex up to distance 2r
            for a in &v {
                let mut q = vec![(ix[a], 0)];
                let mut seen: std::collections::HashSet<usize> = [ix[a]].into();
                let mut h = 0;
                while h < q.len() {
                    let (x, dx) = q[h];
                    h += 1;
                    let b = m.l(x);
                    if b != *a && c.contains(&b) { ck!(cx, c[a] != c[&b], "{what}: {a} and {b} share colour {} at distance {dx}", c[a]); }
                    if dx < 2 * r { for &y in &m.nb[x] { if seen.insert(y) { q.push((y, dx + 1)); } } }
                }
            }
        } else { for (k, a) in v.iter().enumerate() {
            for b in &v[k + 1..] {
                if c[a] == c[b] { ck!(cx, d[ix[a]][ix[b]] >= 2 * r as usize + 1, "{what}: {a} and {b} share colour {} at distance {}", c[a], d[ix[a]][ix[b]]); }
            }
        } }
    }
    Ok(())
}
fn dom_all<L: LinearGraph>(cx: &mut Ctx, g: &L, m: &MG, d: &[Vec<usize>], r: u32, tg: &[usize], what: &str) -> Res {
    let tl: Vec<u32> = tg.iter().map(|&i| m.l(i)).collect();
    for w in [false, true] {
        check_dom(cx, m, d, r, tg, w, if r % 2 == 0 { g.domset_with_target(r, w, tl.iter()) } else { g.domset_with_target(r, w, plain(tl.iter().rev().chain(tl.iter()).cloned().collect::<Vec<u32>>())) }, &format!("{what} domset_with_target"))?;
        if tg.len() == m.n() { check_dom(cx, m, d, r, tg, w, g.domset(r, w), &format!("{what} domset"))?; }
    }
    Ok(())
}
/// The augmentation-based dominating set: membership and domination.
fn dom_dtf(cx: &mut Ctx, m: &MG, r: u32) -> Res { dom_dtf_from(cx, m, r, &[0, 2, 13]) }
/// Starts: depth of the orientation, plus 10 if augmented to depth 3 beforehand.
fn dom_dtf_from(cx: &mut Ctx, m: &MG, r: u32, starts: &[usize]) -> Res {
    for &start in starts {
        let deep = start % 10;
        let mut g = if deep == 0 { DTFGraph::orient(&m.edit()) } else { DTFGraph::orient_deep(&m.edit(), deep) };
        if start > 10 { g.augment(3, 1); }
        let set = sset(&g.domset(r));
        let ix = m.index();
        let mut dom = vec![];
        for v in &set { match ix.get(v) { Some(&i) => dom.push(i), None => return Err(format!("DTFGraph domset({r}): {v} is not a vertex")) } }
        let near = m.bfs(&dom);
        for i in 0..m.n() { ck!(cx, near[i] <= r as usize, "DTFGraph (oriented with depth {deep}) domset({r}) = {set:?}: {} has no member within distance {r}", m.l(i)); }
        let c = || g.vertices().map(|v| 1 + (1..=r).map(|w| g.in_neighbours_at(v, w as usize).count()).sum::<usize>()).max().unwrap_or(0);
        check_size(cx, m, r, &(0..m.n()).collect::<Vec<_>>(), set.len(), c, &format!("DTFGraph (oriented with depth {deep}) domset({r})"))?;
    }
    Ok(())
}

pub fn c17(t: Tier) -> Vec<Family> {
    let mut f = vec![];
    f.push(fam("all graphs on <= 4 vertices x all targets x r 0..=3 x 24 hash orders", ngraphs_upto(4, false) * 24, |idx, cx| {
        fxhash::seam::set(Some(seam_table(4, idx % 24)));
        let m = graph_upto(4, false, idx / 24);
        cx.note(|| format!("{} hash order {:?}", m.show(), perm(4, idx % 24)));
        let d = m.dists();
        let (o, dg, dr) = (m.ord(), m.degen(), m.degen_rev());
        for s in 0u32..1 << m.n() {
            let tg: Vec<usize> = (0..m.n()).filter(|i| s >> i & 1 == 1).collect();
            for r in 0..=3 {
                cx.state(m.dig().add(s as u64).add(r as u64));
                dom_all(cx, &o, &m, &d, r, &tg, "OrdGraph")?;
                dom_all(cx, if s % 2 == 0 { &dg } else { &dr }, &m, &d, r, &tg, "DegenGraph")?;
            }
        }
        for r in 0..=3 { dom_dtf(cx, &m, r)?; }
        Ok(())
    }));
    f.push(fam("all graphs on <= 3 vertices x all targets x very large radii", ngraphs_upto(3, false) * 8, |idx, cx| {
        let m = graph_upto(3, false, idx / 8);
        let d = m.dists();
        let tg: Vec<usize> = (0..m.n()).filter(|i| idx % 8 >> i & 1 == 1).collect();
        cx.note(|| format!("{} target {tg:?}", m.show()));
        for r in [255, 256, 32_767, 32_768, 40_000] {
            cx.state(m.dig().add(idx % 8).add(r as u64));
            dom_all(cx, &m.ord(), &m, &d, r, &tg, "OrdGraph")?;
        }
        Ok(())
    }));
    f.push(fam("all graphs on <= 4 vertices, augmentation-based, r 17, 255, 256, 257", ngraphs_upto(4, false) * 4, |idx, cx| {
        let m = graph_upto(4, false, idx / 4);
        let l = labels(idx % SCHEMES, m.n());
        let m = m.with_labels(l);
        cx.note(|| m.show());
        cx.state(m.dig().add(idx));
        dom_dtf_from(cx, &m, [17, 255, 256, 257][(idx % 4) as usize], &[0, 13])
    }));
    let so = t.pick(2u64, 24);
    f.push(fam(format!("all 5-vertex graphs x all targets x r 0..=3 x {so} hash orders"), ngraphs(5, false) * so, move |idx, cx| {
        let h = (idx % so) * (119 / so.max(2)) + 1;
        fxhash::seam::set(Some(seam_table(5, h)));
        let m = MG::from_mask(5, false, idx / so);
        cx.note(|| format!("{} hash order {:?}", m.show(), perm(5, h)));
        let d = m.dists();
        let o = m.ord();
        for s in 0u32..1 << m.n() {
            let tg: Vec<usize> = (0..m.n()).filter(|i| s >> i & 1 == 1).collect();
            for r in 0..=3 {
                cx.state(m.dig().add(s as u64).add(r as u64));
                dom_all(cx, &o, &m, &d, r, &tg, "OrdGraph")?;
            }
        }
        for r in 0..=3 { dom_dtf(cx, &m, r)?; }
        Ok(())
    }));
    let th = t.thorough();
    f.push(fam("all 6-vertex graphs x targets x r 0..=3", ngraphs(6, false), move |idx, cx| {
        let m = MG::from_mask(6, false, idx).with_labels(labels(idx % SCHEMES, 6));
        cx.note(|| m.show());
        let d = m.dists();
        let o = m.ord();
        let ts: Vec<u32> = if th { (0..64).collect() } else { vec![63, 62, 45, 21] };
        for s in ts {
            let tg: Vec<usize> = (0..m.n()).filter(|i| s >> i & 1 == 1).collect();
            for r in 0..=3 {
                cx.state(m.dig().add(s as u64).add(r as u64));
                dom_all(cx, &o, &m, &d, r, &tg, "OrdGraph")?;
            }
        }
        for r in 0..=2 { dom_dtf(cx, &m, r)?; }
        Ok(())
    }));
    let tn = t.pick(7usize, 8);
    f.push(fam(format!("all {tn}-vertex trees, r 0..=4"), ntrees(tn), move |idx, cx| {
        let m = tree(tn, idx);
        cx.note(|| m.show());
        let d = m.dists();
        let o = m.ord();
        let all: Vec<usize> = (0..tn).collect();
        for r in 0..=4 {
            cx.state(m.dig().add(r as u64));
            dom_all(cx, &o, &m, &d, r, &all, "OrdGraph")?;
            dom_dtf(cx, &m, r)?;
        }
        Ok(())
    }));
    let mut sh = shapes(t.pick(60, 120), t.pick(10, 16));
    sh.extend(large(t.pick(130, 258), false));
    f.push(fam("named shapes x 4 vertex orders x 4 targets, r 0..=4", sh.len() as u64 * 4, move |idx, cx| {
        let (name, mk) = &sh[(idx / 4) as usize];
        let m = reorder(&mk(), idx % 4);
        let n = m.n();
        let l = labels([0, 2, 3, 4][(idx % 4) as usize], n);
        let m = m.with_labels(l);
        cx.note(|| format!("{name} order {}: {}", idx % 4, m.show()));
        let d = m.dists();
        let o = m.ord();
        for tg in [(0..n).collect::<Vec<_>>(), (0..n).step_by(2).collect(), (n / 2..n).collect(), (0..n).filter(|i| i % 3 != 0).collect()] {
            for r in 0..=4 {
                cx.state(m.dig().add(tg.len() as u64).add(r as u64));
                dom_all(cx, &o, &m, &d, r, &tg, "OrdGraph")?;
            }
        }
        for r in 0..=3 { dom_dtf(cx, &m, r)?; }
        Ok(())
    }));
    let hs = huge();
    f.push(fam("shapes with more than 2^16 vertices, r=1, all vertices and half of them", hs.len() as u64 * 3, move |idx, cx| {
        let (name, mk) = &hs[(idx / 3) as usize];
        if idx % 3 < 2 && (name.contains("centre last") || name.contains("spider")) { cx.state(Dig::new(0)); return Ok(()); }
        let m = { let m = mk(); let l = labels(idx % 3, m.n()); m.with_labels(l) };
        cx.note(|| format!("{name}: {}", m.show()));
        cx.state(m.dig());
        let n = m.n();
        match idx % 3 {
            0 => dom_all(cx, &m.ord(), &m, &[], 1, &(0..n).collect::<Vec<_>>(), "OrdGraph"),
            1 => dom_all(cx, &m.ord(), &m, &[], 1, &(0..n).step_by(2).collect::<Vec<_>>(), "OrdGraph"),
            _ => dom_dtf(cx, &m, 1),
        }
    }));
    // more legs than the threshold (2r)^2 after which a frequently used in-neighbour joins the set
    let sp: Vec<(usize, usize, u32)> = (3..=t.pick(22, 40)).map(|l| (l, 1, 1)).chain((14..=t.pick(22, 40)).map(|l| (l, 2, 2))).chain((34..=t.pick(40, 60)).map(|l| (l, 3, 3))).collect();
    f.push(fam("spiders around the membership threshold x vertex orders (centre first/last/mid, legs outwards/inwards) x joined at the centre or by a path", sp.len() as u64 * 16, move |idx, cx| {
        let (legs, len, r) = sp[(idx / 16) as usize];
        let (o, v) = (idx / 4 % 4, idx % 4);
        let s = spider(legs, len);
        let n0 = s.n();
        let base = match v {
            0 => s,
            1 => disjoint(&[s.clone(), path(7), s]),
            2 => { let mut e = s.edges.clone(); e.extend((0..6).map(|k| (if k == 0 { 0 } else { n0 + k - 1 }, n0 + k))); MG::new(n0 + 6, &e) }
            // two spiders whose centres are joined by a path of 3 inner vertices
            _ => { let mut e = disjoint(&[s.clone(), s]).edges; let b = 2 * n0; e.extend([(0, b), (b, b + 1), (b + 1, b + 2), (b + 2, n0)]); MG::new(b + 3, &e) }
        };
        let m = reorder(&base, o);
        let n = m.n();
        let l = labels([0, 5, 3, 2][o as usize], n);
        let m = m.with_labels(l);
        cx.note(|| format!("spider with {legs} legs of {len}, variant {v}, order {o}, r={r}"));
        let d = m.dists();
        let og = m.ord();
        let leaves: Vec<usize> = (0..n).filter(|&i| m.nb[i].len() == 1).collect();
        for tg in [(0..n).collect::<Vec<_>>(), leaves] {
            for r in [r, r + 1] {
                cx.state(m.dig().add(tg.len() as u64).add(r as u64));
                dom_all(cx, &og, &m, &d, r, &tg, "OrdGraph")?;
            }
        }
        if idx % 4 < 2 { dom_dtf(cx, &m, r)?; }
        Ok(())
    }));
    // legs that end in forks are dominated before their hub, which joins the set for being used often
    let fk: Vec<(usize, usize, usize, usize, u32)> = (0..t.pick(1, 3)).flat_map(|x| [(38 + x, 2, 2, 3, 3), (38 + x, 2, 2, 2, 3), (67 + x, 3, 2, 4, 4), (19 + x, 2, 2, 2, 2)]).collect();
    f.push(fam("forked spiders beyond the membership threshold with a tail x 120 orders of the parts x core x width", fk.len() as u64 * 120 * 6, move |idx, cx| {
        let (legs, len, forks, tail, r) = fk[(idx / 720) as usize];
        let (core, width) = ([0, 2, 3][(idx % 3) as usize], 1 + (idx / 3 % 2) as usize);
        let p = perm(5, idx / 6 % 120);
        let (m, part) = forked(legs, len, width, forks, tail, 2, core);
        let mut ord: Vec<usize> = (0..m.n()).collect();
        ord.sort_by_key(|&v| if part[v] == 5 { 5 } else { p[part[v]] as usize });
        let m = reordered_to(&m, &ord.iter().map(|&v| v as u32).collect::<Vec<_>>())?;
        let n = m.n();
        let l = labels([0, 2, 3, 4][(idx % 4) as usize], n);
        let m = m.with_labels(l);
        cx.note(|| format!("{legs} legs of {len}, {width} wide, with {forks} forks, tail {tail}, core {core}, order of parts {p:?}, r={r}"));
        cx.state(m.dig().add(r as u64));
        let d = m.dists();
        dom_all(cx, &m.ord(), &m, &d, r, &(0..n).collect::<Vec<_>>(), "OrdGraph")?;
        if [0, 77].contains(&(idx / 6 % 120)) { dom_dtf(cx, &m, r)?; }
        Ok(())
    }));
    let hc: Vec<[usize; 5]> = (1..=t.pick(4, 5)).flat_map(|h| (4..=7).flat_map(move |c| (2..=3).flat_map(move |tail| [1usize, 3, 12].into_iter().flat_map(move |far| [0, 3, 5].map(|core| [h, c, tail, far, core]))))).collect();
    f.push(fam("hubs with 39 cliques each, joined by paths, r=3, augmentation-based", hc.len() as u64, move |idx, cx| {
        let [h, c, tail, far, core] = hc[idx as usize];
        let m = hubs_of_cliques(h, 39, c, tail, far, core);
        cx.note(|| format!("{h} hubs with 39 cliques of {c}, tails of {tail}, {far} paths and a clique of {core} at the middle"));
        cx.state(m.dig());
        dom_dtf_from(cx, &m, 3, &[0, 2, 3, 13])
    }));
    let lg = longs(t.pick(36, 72));
    f.push(fam("long thin graphs, r 3..=18, augmentation-based", lg.len() as u64 * 6, move |idx, cx| {
        let (name, mk) = &lg[(idx / 6) as usize];
        let r = [3, 4, 6, 9, 17, 18][(idx % 6) as usize];
        let m = mk();
        let l = labels(idx % SCHEMES, m.n());
        let m = m.with_labels(l);
        cx.note(|| format!("{name}, r={r}"));
        cx.state(m.dig().add(r as u64));
        dom_dtf(cx, &m, r)
    }));
    let lg = longs(t.pick(280, 540));
    f.push(fam(format!("long thin graphs of about {} vertices, r 31, 32, 33, 64, 127, 128, 255, 256, 257, augmentation-based", t.pick(280, 540)), lg.len() as u64 * 9, move |idx, cx| {
        let (name, mk) = &lg[(idx / 9) as usize];
        let r = [31, 32, 33, 64, 127, 128, 255, 256, 257][(idx % 9) as usize];
        let m = mk();
        let l = labels(idx % SCHEMES, m.n());
        let m = m.with_labels(l);
        cx.note(|| format!("{name}, r={r}"));
        cx.state(m.dig().add(r as u64));
        dom_dtf_from(cx, &m, r, if idx % 2 == 0 { &[0] } else { &[2] })
    }));
    let lg = longs(t.pick(280, 560));
    f.push(fam("long thin graphs, r up to beyond 256, all vertices and a third of them", (lg.len() * FAR.len()) as u64, move |idx, cx| {
        let (name, mk) = &lg[idx as usize / FAR.len()];
        let r = FAR[idx as usize % FAR.len()] as u32;
        let m = mk();
        let l = labels(idx % SCHEMES, m.n());
        let m = m.with_labels(l);
        cx.note(|| format!("{name}, r={r}"));
        cx.state(m.dig().add(r as u64));
        let d = m.dists();
        for tg in [(0..m.n()).collect::<Vec<_>>(), (0..m.n()).step_by(3).collect()] { dom_all(cx, &m.ord(), &m, &d, r, &tg, "OrdGraph")?; }
        Ok(())
    }));
    let check = |cx: &mut Ctx, m: &MG, _: u64| {
        let d = m.dists();
        let o = m.ord();
        for r in 1..=3 {
            for tg in [(0..m.n()).collect::<Vec<_>>(), (0..m.n()).step_by(2).collect()] { dom_all(cx, &o, m, &d, r, &tg, "OrdGraph")?; }
            if r < 3 { dom_dtf(cx, m, r)?; }
        }
        Ok(())
    };
    iso_fams(&mut f, "r 1..=3, all vertices and half of them: ", t, &[(7, 6), (8, 1)], &[(7, 60), (8, 12), (9, 1)], check);
    tree_fams(&mut f, "r 1..=3, all vertices and half of them: ", t, &[(9, 8), (10, 4), (11, 2), (12, 2)], &[(9, 100), (10, 60), (11, 30), (12, 20), (13, 4)], check);
    f
}
