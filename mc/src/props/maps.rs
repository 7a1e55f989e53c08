//! C23: vertex maps, colourings, vertex-or-edge values.
use crate::engine::*;
use crate::obs::*;
use crate::space::*;
use crate::{ck, ck_eq};
use graphbench::graph::*;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Debug;
use std::hash::Hash;

type M = BTreeMap<u32, u32>;
/// Map number idx: every vertex of `vs` is absent or has one of the values.
fn map_at(vs: &[u32], vals: &[u32], mut idx: u64) -> M {
    let b = vals.len() as u64 + 1;
    let mut r = M::new();
    for &v in vs { let d = idx % b; idx /= b; if d > 0 { r.insert(v, vals[d as usize - 1]); } }
    r
}
fn nmaps(vs: usize, vals: usize) -> u64 { (vals as u64 + 1).pow(vs as u32) }
fn groups(m: &M) -> BTreeMap<u32, Vec<u32>> {
    let mut r: BTreeMap<u32, Vec<u32>> = BTreeMap::new();
    for (&v, &c) in m { r.entry(c).or_default().push(v); }
    r
}

fn check_map<T: Copy + Hash + Eq + Ord + Debug, X: VertexMapOperations<T>>(cx: &mut Ctx, x: &X, m: &M, conv: &dyn Fn(u32) -> T, what: &str) -> Res {
    let want: BTreeMap<T, Vec<u32>> = groups(m).into_iter().map(|(c, v)| (conv(c), v)).collect();
    let got: BTreeMap<T, Vec<u32>> = x.invert().into_iter().map(|(c, s)| (c, sset(&s))).collect();
    ck_eq!(cx, got, want, "{what}: inversion of {m:?}");
    match x.majority_set() {
        None => ck!(cx, m.is_empty(), "{what}: no majority set for {m:?}"),
        Some((s, c)) => {
            ck_eq!(cx, want.get(&c).cloned().unwrap_or_default(), sset(&s), "{what}: majority set of {m:?} (value {c:?})");
            let most = want.values().map(|v| v.len()).max();
            ck_eq!(cx, Some(s.len()), most, "{what}: size of the majority set of {m:?}");
        }
    }
    Ok(())
}
/// A colouring compared with the model after each step.
fn check_col<T>(cx: &mut Ctx, c: &VertexColouring<T>, m: &M, vs: &[u32], conv: &dyn Fn(u32) -> T, what: &str) -> Res
where T: Copy + Hash + Eq + Ord + Debug {
    ck_eq!(cx, c.len(), m.len(), "{what}: len");
    ck_eq!(cx, sorted(c.vertices().cloned()), m.keys().cloned().collect::<Vec<_>>(), "{what}: vertices");
    let mut it: Vec<(u32, T)> = c.iter().map(|(u, x)| (*u, *x)).collect();
    it.sort_unstable();
    ck_eq!(cx, it, m.iter().map(|(&u, &x)| (u, conv(x))).collect::<Vec<_>>(), "{what}: entries");
    let mut cols: Vec<T> = c.colours().cloned().collect();
    cols.sort_unstable();
    ck_eq!(cx, cols, m.values().map(|&x| conv(x)).collect::<BTreeSet<_>>().into_iter().collect::<Vec<_>>(), "{what}: colours");
    for v in vs {
        ck_eq!(cx, c.get(v).cloned(), m.get(v).map(|&x| conv(x)), "{what}: colour of {v}");
        ck_eq!(cx, c.contains(v), m.contains_key(v), "{what}: contains {v}");
        if let Some(&x) = m.get(v) { ck_eq!(cx, c[v], conv(x), "{what}: [{v}]"); }
    }
    check_map(cx, c, m, conv, what)
}
fn col<T: Copy + Hash + Eq>(m: &M, conv: &dyn Fn(u32) -> T) -> VertexColouring<T> {
    let it = m.iter().map(|(&v, &c)| (v, conv(c)));
    if m.len() % 2 == 0 { VertexColouring::from_iter(it) } else { VertexColouring::from_iter(plain(it)) }
}

/// Extends `a` by `b` and compares against what the statement promises.
fn extend<T>(cx: &mut Ctx, a: &mut VertexColouring<T>, b: &VertexColouring<T>, ma: &M, mb: &M, vs: &[u32], conv: &dyn Fn(u32) -> T, back: &dyn Fn(T) -> u32, what: &str) -> Result<M, String>
where T: Copy + Hash + Eq + Ord + Debug + num::Integer {
    a.disjoint_extend(b);
    let mut r = ma.clone();
    let used: BTreeSet<u32> = ma.values().cloned().collect();
    let mut to: BTreeMap<u32, u32> = BTreeMap::new();
    for (&v, &c) in mb {
        if ma.contains_key(&v) { continue; }
        let Some(&x) = a.get(&v) else { return Err(format!("{what}: {v} missing after extending {ma:?} by {mb:?}")); };
        let x = back(x);
        ck!(cx, !used.contains(&x), "{what}: new vertex {v} got colour {x}, which {ma:?} already uses");
        ck_eq!(cx, *to.entry(c).or_insert(x), x, "{what}: colour class {c} of {mb:?} was split when extending {ma:?}");
        r.insert(v, x);
    }
    let distinct: BTreeSet<u32> = to.values().cloned().collect();
    ck_eq!(cx, distinct.len(), to.len(), "{what}: colour classes of {mb:?} merged when extending {ma:?}: {to:?}");
    check_col(cx, a, &r, vs, conv, &format!("{what}: {ma:?} extended by {mb:?}"))?;
    check_col(cx, b, mb, vs, conv, &format!("{what}: the colouring {mb:?} used to extend"))?;
    Ok(r)
}

fn voe(vs: &[u32], i: usize) -> VertexOrEdge {
    let n = vs.len();
    if i < n { VertexOrEdge::V(vs[i]) } else { VertexOrEdge::E((vs[(i - n) / n], vs[(i - n) % n])) }
}
fn ends(x: VertexOrEdge) -> BTreeSet<u32> { match x { VertexOrEdge::V(v) => [v].into(), VertexOrEdge::E((a, b)) => [a, b].into() } }

pub fn c23(t: Tier) -> Vec<Family> {
    let mut f = vec![];
    // -- grouping
    let vals = [0u32, 1, 2, 7, u32::MAX];
    let nv = t.pick(6usize, 7);
    f.push(fam(format!("all maps on {nv} vertices into 5 values x label schemes: grouping, entries, restriction"), nmaps(nv, 5) * SCHEMES, move |idx, cx| {
        let vs = labels(idx % SCHEMES, nv);
        let m = map_at(&vs, &vals, idx / SCHEMES);
        fxhash::seam::set(if idx % 3 == 0 { Some(seam_table(nv, (idx * 7919) % factorial(nv))) } else { None });
        cx.note(|| format!("{m:?}"));
        cx.state(Dig::new(1).adds(m.iter().flat_map(|(&a, &b)| [a as u64, b as u64])));
        let vm: VertexMap<u32> = m.iter().map(|(&a, &b)| (a, b)).collect();
        check_map(cx, &vm, &m, &|x| x, "VertexMap<u32>")?;
        let vb: VertexMap<bool> = m.iter().map(|(&a, &b)| (a, b % 2 == 1)).collect();
        let mb: M = m.iter().map(|(&a, &b)| (a, b % 2)).collect();
        check_map(cx, &vb, &mb, &|x| x == 1, "VertexMap<bool>")?;
        let vp: VertexMap<(u32, u8)> = m.iter().map(|(&a, &b)| (a, (b, 3))).collect();
        check_map(cx, &vp, &m, &|x| (x, 3u8), "VertexMap<pair>")?;
        let c = VertexColouring::from(vm.clone());
        let probe: Vec<u32> = vs.iter().cloned().chain(outside(&vs)).collect();
        check_col(cx, &c, &m, &probe, &|x| x, "colouring from a map")?;
        ck!(cx, c == col(&m, &|x| x), "colourings with equal entries differ");
        // restriction to a set of vertices, some of which are not coloured
        for s in [idx / SCHEMES % 64, (idx / SCHEMES / 7) % 64, 63] {
            let sub: Vec<u32> = probe.iter().enumerate().filter(|(i, _)| s >> (i % 6) & 1 == 1).map(|(_, &v)| v).collect();
            let ms: M = m.iter().filter(|(v, _)| sub.contains(v)).map(|(&a, &b)| (a, b)).collect();
            check_col(cx, &c.subset(sub.iter()), &ms, &probe, &|x| x, "restriction")?;
            check_col(cx, &c.subset(plain(sub.iter().rev().cloned().chain(sub.iter().cloned()))), &ms, &probe, &|x| x, "restriction, repeated vertices")?;
        }
        ck_eq!(cx, c.as_map(), vm, "as_map");
        Ok(())
    }));
    // -- insertion histories
    let depth = t.pick(5usize, 6);
    let ops = 9u64; // vertex 0..3 x colour 0..3
    f.push(fam(format!("all histories of {depth} insertions over 3 vertices x 3 colours, observed after each"), ops.pow(depth as u32), move |mut idx, cx| {
        let vs = labels(idx % SCHEMES, 3);
        let probe: Vec<u32> = vs.iter().cloned().chain(outside(&vs)).collect();
        let mut c: VertexColouring<u32> = VertexColouring::default();
        let mut m = M::new();
        check_col(cx, &c, &m, &probe, &|x| x, "empty colouring")?;
        for k in 0..depth {
            let (v, x) = (vs[(idx % 3) as usize], [0u32, 3, u32::MAX][(idx / 3 % 3) as usize]);
            idx /= 9;
            cx.note(|| format!("insert({v}, {x})"));
            ck_eq!(cx, c.insert(v, x), m.insert(v, x), "insert({v}, {x}) as step {k}");
            check_col(cx, &c, &m, &probe, &|x| x, "after insert")?;
            cx.state(Dig::new(2).adds(m.iter().flat_map(|(&a, &b)| [a as u64, b as u64])));
        }
        Ok(())
    }));
    // -- from sets
    f.push(fam("all assignments of 6 vertices to <= 4 sets (possibly empty) x label schemes: from_sets", 5u64.pow(6) * SCHEMES, |idx, cx| {
        let vs = labels(idx % SCHEMES, 6);
        let m = map_at(&vs, &[0, 1, 2, 3], idx / SCHEMES);
        cx.note(|| format!("{m:?}"));
        cx.state(Dig::new(3).adds(m.iter().flat_map(|(&a, &b)| [a as u64, b as u64])));
        let sets: Vec<VertexSet> = (0..4).map(|k| m.iter().filter(|&(_, &c)| c == k).map(|(&v, _)| v).collect()).collect();
        let c = VertexColouring::from_sets(plain(sets));
        check_col(cx, &c, &m, &vs, &|x| x, "from_sets")
    }));
    // -- disjoint extension
    let cv = [0u32, 1, 2, 5];
    let n1 = nmaps(4, 4);
    f.push(fam("all pairs of colourings of 4 vertices with colours from {0,1,2,5}: disjoint_extend (u32)", n1 * n1, move |idx, cx| {
        let vs = labels(idx % SCHEMES, 4);
        fxhash::seam::set(if idx % 2 == 0 { Some(seam_table(4, idx / 2 % 24)) } else { None });
        let (ma, mb) = (map_at(&vs, &cv, idx / n1), map_at(&vs, &cv, idx % n1));
        cx.note(|| format!("{ma:?} extended by {mb:?}"));
        cx.state(Dig::new(4).adds(ma.iter().chain(&mb).flat_map(|(&a, &b)| [a as u64, b as u64])).add(ma.len() as u64));
        let mut a = col(&ma, &|x| x);
        extend(cx, &mut a, &col(&mb, &|x| x), &ma, &mb, &vs, &|x| x, &|x| x, "u32")?;
        Ok(())
    }));
    if t.thorough() {
        let n5 = nmaps(5, 4);
        f.push(fam("all pairs of colourings of 5 vertices with colours from {0,1,2,5}: disjoint_extend (u32)", n5 * n5, move |idx, cx| {
            let vs = labels(idx % SCHEMES, 5);
            let (ma, mb) = (map_at(&vs, &cv, idx / n5), map_at(&vs, &cv, idx % n5));
            cx.state(Dig::new(5).adds(ma.iter().chain(&mb).flat_map(|(&a, &b)| [a as u64, b as u64])).add(ma.len() as u64));
            let mut a = col(&ma, &|x| x);
            extend(cx, &mut a, &col(&mb, &|x| x), &ma, &mb, &vs, &|x| x, &|x| x, "u32")?;
            Ok(())
        }));
    }
    // other colour types, overlapping and long chains
    let n2 = nmaps(3, 3);
    f.push(fam("all triples of colourings of 3 vertices (plus 3 fresh ones) with colours from {0,1,4}: chained disjoint_extend on u8, usize, i32, u64", n2 * n2 * n2, move |idx, cx| {
        let vs = labels(idx % SCHEMES, 6);
        let (i, j, k) = (idx / n2 / n2, idx / n2 % n2, idx % n2);
        // the three colourings use overlapping windows of the six vertices
        let cv = [0u32, 1, 4];
        let (ma, mb, mc) = (map_at(&vs[0..3], &cv, i), map_at(&vs[1..4], &cv, j), map_at(&vs[3..6], &cv, k));
        cx.note(|| format!("{ma:?} extended by {mb:?}, then {mc:?}, then itself"));
        cx.state(Dig::new(6).add(idx));
        macro_rules! go { ($t:ty) => {{
            let cv = |x: u32| x as $t;
            let bk = |x: $t| x as u32;
            let mut a = col(&ma, &cv);
            let r = extend(cx, &mut a, &col(&mb, &cv), &ma, &mb, &vs, &cv, &bk, stringify!($t))?;
            let r = extend(cx, &mut a, &col(&mc, &cv), &r, &mc, &vs, &cv, &bk, stringify!($t))?;
            let same = col(&r, &cv);
            let r2 = extend(cx, &mut a, &same, &r, &r, &vs, &cv, &bk, stringify!($t))?;
            let sub: Vec<u32> = vs.iter().step_by(2).cloned().collect();
            let ms: M = r2.iter().filter(|(v, _)| sub.contains(v)).map(|(&a, &b)| (a, b)).collect();
            check_col(cx, &a.subset(sub), &ms, &vs, &cv, "restriction of an extension")?;
        }}; }
        match idx % 4 { 0 => go!(u8), 1 => go!(usize), 2 => go!(i32), _ => go!(u64) }
        Ok(())
    }));
    // more than 2^16 vertices or colours
    f.push(fam("colourings of more than 2^16 vertices with 1, 300 and 65,540 colours: grouping, restriction, extension", 9, |idx, cx| {
        let n = 65_540u32;
        let ks = [1u32, 300, 65_540];
        let (ka, kb) = (ks[(idx / 3) as usize], ks[(idx % 3) as usize]);
        let ma: M = (0..n).map(|v| (v, v % ka)).collect();
        let mb: M = (n / 2..n + n / 2).map(|v| (v, v % kb)).collect();
        cx.note(|| format!("{ka} and {kb} colours"));
        cx.state(Dig::new(9).add(idx));
        let (mut a, b) = (col(&ma, &|x| x), col(&mb, &|x| x));
        let probe: Vec<u32> = (0..n + n / 2 + 3).collect();
        let short = |m: &M, c: &VertexColouring<u32>, cx: &mut Ctx, what: &str| check_col(cx, c, m, &probe, &|x| x, what).map_err(|e| e.chars().take(400).collect::<String>());
        short(&ma, &a, cx, "first")?;
        let ms: M = ma.iter().filter(|(v, _)| *v % 2 == 0).map(|(&v, &c)| (v, c)).collect();
        short(&ms, &a.subset((0..2 * n).step_by(2)), cx, "restriction")?;
        let e = extend(cx, &mut a, &b, &ma, &mb, &probe, &|x| x, &|x| x, "u32").map_err(|e| e.chars().take(400).collect::<String>());
        e.map(|_| ())
    }));
    f.push(fam("up to 70,000 sets (empty ones among them), two groups of up to 70,000 vertices: from_sets, grouping, largest group", 9, |idx, cx| {
        cx.state(Dig::new(10).add(idx));
        let cut = |e: String| e.chars().take(400).collect::<String>();
        if idx < 3 {
            let (n, gap) = [(257u32, 1u32), (70_000, 1), (70_000, 3)][idx as usize];
            cx.note(|| format!("{n} sets, every {gap}th not empty"));
            let sets: Vec<VertexSet> = (0..n).map(|k| if k % gap == 0 { [2 * k].into_iter().collect() } else { VertexSet::default() }).collect();
            let m: M = (0..n).filter(|k| k % gap == 0).map(|k| (2 * k, k)).collect();
            let probe: Vec<u32> = (0..2 * n + 2).collect();
            return check_col(cx, &VertexColouring::from_sets(sets), &m, &probe, &|x| x, "from_sets").map_err(cut);
        }
        let (a, b) = [(255u32, 256u32), (257, 256), (65_535, 65_536), (65_537, 100), (100, 65_540), (70_000, 65_600)][idx as usize - 3];
        cx.note(|| format!("groups of {a} and {b}"));
        let m: M = (0..a + b).map(|v| (v, if v < a { 7 } else { 9 })).collect();
        let vm: VertexMap<u32> = m.iter().map(|(&v, &c)| (v, c)).collect();
        check_map(cx, &vm, &m, &|x| x, "VertexMap<u32>").map_err(cut)?;
        check_map(cx, &col(&m, &|x| x as u64), &m, &|x| x as u64, "colouring").map_err(cut)
    }));
    // signed colours, negative ones among them
    let sv: [u32; 5] = [-7i32 as u32, -2i32 as u32, -1i32 as u32, 0, 3];
    let ns = nmaps(3, 5);
    f.push(fam("all pairs of colourings of 3 vertices (overlapping in 1..=3) with colours from {-7,-2,-1,0,3}: disjoint_extend on i8, i32, i64", ns * ns * 3, move |idx, cx| {
        let vs = labels(idx % SCHEMES, 6);
        let shift = (idx % 3) as usize;
        let (ma, mb) = (map_at(&vs[0..3], &sv, idx / 3 / ns), map_at(&vs[shift..shift + 3], &sv, idx / 3 % ns));
        cx.note(|| format!("{ma:?} extended by {mb:?}"));
        cx.state(Dig::new(8).add(idx));
        macro_rules! go { ($t:ty) => {{
            let cv = |x: u32| x as i32 as $t;
            let bk = |x: $t| x as i32 as u32;
            let mut a = col(&ma, &cv);
            extend(cx, &mut a, &col(&mb, &cv), &ma, &mb, &vs, &cv, &bk, stringify!($t))?;
        }}; }
        match idx / 3 % 3 { 0 => go!(i8), 1 => go!(i32), _ => go!(i64) }
        Ok(())
    }));
    // -- vertices and edges
    let nu = t.pick(6usize, 8);
    let items = (nu + nu * nu) as u64;
    f.push(fam(format!("all pairs of vertices and edges (loops, reversed) over {nu} vertices x label schemes"), items * items * SCHEMES, move |idx, cx| {
        let vs = labels(idx % SCHEMES, nu);
        let r = idx / SCHEMES;
        let (x, y) = (voe(&vs, (r / items) as usize), voe(&vs, (r % items) as usize));
        let (ex, ey) = (ends(x), ends(y));
        let show = |z: VertexOrEdge| match z { VertexOrEdge::V(v) => format!("{v}"), VertexOrEdge::E(e) => format!("{e:?}") };
        cx.note(|| format!("{} and {}", show(x), show(y)));
        cx.state(Dig::new(7).add(idx));
        match x {
            VertexOrEdge::V(v) => ck_eq!(cx, (x.is_vertex(), x.is_edge(), x.as_vertex(), x.as_edge()), (true, false, Some(v), None), "{}", show(x)),
            VertexOrEdge::E(e) => ck_eq!(cx, (x.is_vertex(), x.is_edge(), x.as_vertex(), x.as_edge()), (false, true, None, Some(e)), "{}", show(x)),
        }
        let common: BTreeSet<u32> = ex.intersection(&ey).cloned().collect();
        ck_eq!(cx, x.intersects(y), !common.is_empty(), "{} intersects {}", show(x), show(y));
        let got = x.intersection(y);
        let what = format!("intersection of {} and {}", show(x), show(y));
        match got {
            None => ck!(cx, common.is_empty(), "{what}: none"),
            Some(z) => {
                ck_eq!(cx, ends(z), common, "{what}");
                // an edge exactly when both are the same edge
                let same = x.is_edge() && y.is_edge() && ex == ey;
                ck_eq!(cx, z.is_edge(), same, "{what}: is an edge");
            }
        }
        Ok(())
    }));
    f
}
