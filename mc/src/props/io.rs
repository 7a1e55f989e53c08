//! C21-C22: loading and saving.
use crate::engine::*;
use crate::obs::*;
use crate::space::*;
use crate::{ck, ck_eq};
use flate2::read::GzDecoder;
use flate2::write::GzEncoder;
use flate2::Compression;
use graphbench::degengraph::DegenGraph;
use graphbench::editdigraph::EditDigraph;
use graphbench::editgraph::EditGraph;
use graphbench::graph::*;
use graphbench::io::*;
use graphbench::iterators::*;
use graphbench::ordgraph::OrdGraph;
use std::cell::RefCell;
use std::io::{self, BufRead, BufReader, BufWriter, Cursor, ErrorKind, Read, Write};
use std::path::PathBuf;
use std::rc::Rc;

// ------------------------------------------------------------------ scratch files
thread_local! { static BASE: PathBuf = {
    let p = crate::engine::scratch().join(format!("t{:?}", std::thread::current().id()).replace(['(', ')'], ""));
    std::fs::create_dir_all(&p).expect("scratch folder");
    p
}; }
fn path(name: &str) -> String { BASE.with(|b| b.join(name).to_str().unwrap().to_string()) }
fn put(name: &str, data: &[u8]) -> String { let p = path(name); std::fs::write(&p, data).expect("scratch file"); p }
fn gzip(data: &[u8], level: u32) -> Vec<u8> { let mut e = GzEncoder::new(vec![], Compression::new(level)); e.write_all(data).unwrap(); e.finish().unwrap() }

// ------------------------------------------------------------------ the documented format
/// u32 in decimal: digits, possibly after a plus sign.
fn number(t: &[u8]) -> Option<u32> {
    let t = t.strip_prefix(b"+").unwrap_or(t);
    if t.is_empty() || !t.iter().all(|c| c.is_ascii_digit()) { return None; }
    let mut x: u64 = 0;
    for c in t { x = x * 10 + (c - b'0') as u64; if x > u32::MAX as u64 { return None; } }
    Some(x as u32)
}
fn blank(c: u8) -> bool { matches!(c, b' ' | b'\t' | b'\r' | 11 | 12) }
fn tokens(l: &[u8]) -> Vec<&[u8]> { l.split(|c| blank(*c)).filter(|t| !t.is_empty()).collect() }
fn lines(d: &[u8]) -> Vec<&[u8]> { let mut v: Vec<&[u8]> = d.split(|c| *c == b'\n').collect(); if v.last().is_some_and(|l| l.is_empty()) { v.pop(); } v }
/// One vertex per line; None: not in the format.
fn parse_list(d: &[u8]) -> Option<Vec<u32>> {
    lines(d).into_iter().map(|l| { let t = tokens(l); if t.len() == 1 { number(t[0]) } else { None } }).collect()
}
fn parse_edges(d: &[u8]) -> Option<Vec<(u32, u32)>> {
    lines(d).into_iter().map(|l| { let t = tokens(l); if t.len() == 2 { Some((number(t[0])?, number(t[1])?)) } else { None } }).collect()
}
fn norm(e: &[(u32, u32)]) -> Vec<(u32, u32)> { let mut v: Vec<_> = e.iter().map(|&(a, b)| (a.min(b), a.max(b))).collect(); v.sort_unstable(); v.dedup(); v }
fn model(e: &[(u32, u32)]) -> MG {
    let e = norm(e);
    let mut l: Vec<u32> = e.iter().flat_map(|&(a, b)| [a, b]).collect();
    l.sort_unstable();
    l.dedup();
    let ix = |x: u32| l.binary_search(&x).unwrap();
    MG::new(l.len(), &e.iter().map(|&(a, b)| (ix(a), ix(b))).collect::<Vec<_>>()).with_labels(l.clone())
}

// ------------------------------------------------------------------ readers and writers under control
/// Hands out the data in pieces that end at the cuts, optionally failing.
pub struct Pieces { data: Vec<u8>, pos: usize, cuts: Rc<dyn Fn(usize) -> usize>, interrupt: bool, intr: bool, fail_at: Option<(usize, ErrorKind)> }
impl Pieces {
    /// `cuts(pos)`: largest piece to hand out at this position.
    fn new(data: &[u8], cuts: Rc<dyn Fn(usize) -> usize>, interrupt: bool) -> Self { Pieces { data: data.to_vec(), pos: 0, cuts, interrupt, intr: true, fail_at: None } }
    fn failing(data: &[u8], cuts: Rc<dyn Fn(usize) -> usize>, at: usize, k: ErrorKind) -> Self { Pieces { data: data.to_vec(), pos: 0, cuts, interrupt: false, intr: false, fail_at: Some((at, k)) } }
}
impl BufRead for Pieces {
    fn fill_buf(&mut self) -> io::Result<&[u8]> {
        if self.interrupt {
            if self.intr { self.intr = false; return Err(io::Error::new(ErrorKind::Interrupted, "interrupted")); }
            self.intr = true;
        }
        let mut end = (self.pos + (self.cuts)(self.pos).max(1)).min(self.data.len());
        if let Some((at, k)) = self.fail_at {
            if self.pos >= at { return Err(io_error(k, at, "injected read failure")); }
            end = end.min(at);
        }
        Ok(&self.data[self.pos..end])
    }
    fn consume(&mut self, n: usize) { self.pos += n; }
}
impl Read for Pieces {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let n = { let s = self.fill_buf()?; let n = s.len().min(b.len()); b[..n].copy_from_slice(&s[..n]); n };
        self.consume(n);
        Ok(n)
    }
}
fn every(k: usize) -> Rc<dyn Fn(usize) -> usize> { Rc::new(move |_| k) }
/// Piece boundaries after byte i for every set bit i.
fn cut_mask(m: u64) -> Rc<dyn Fn(usize) -> usize> { Rc::new(move |p| { let r = if p < 64 { m >> p } else { 0 }; if r == 0 { usize::MAX / 2 } else { r.trailing_zeros() as usize + 1 } }) }

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Fault { None, Write(usize, ErrorKind), Zero(usize), Flush(ErrorKind) }
#[derive(Default)]
pub struct Got { bytes: Vec<u8>, refused: bool, buffered: usize }
/// Takes at most `max` bytes per call, remembers what it was given, fails as told.
pub struct Sink { got: Rc<RefCell<Got>>, max: usize, fault: Fault, interrupt: bool, intr: bool }
impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if self.interrupt { if self.intr { self.intr = false; return Err(io::Error::new(ErrorKind::Interrupted, "interrupted")); } self.intr = true; }
        let mut g = self.got.borrow_mut();
        let mut n = b.len().min(self.max);
        match self.fault {
            Fault::Write(at, k) => { if g.bytes.len() >= at { g.refused = true; return Err(io_error(k, at, "injected write failure")); } n = n.min(at - g.bytes.len()); }
            Fault::Zero(at) => { if g.bytes.len() >= at { g.refused = true; return Ok(0); } n = n.min(at - g.bytes.len()); }
            _ => {}
        }
        g.bytes.extend_from_slice(&b[..n]);
        g.buffered += n;
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        let mut g = self.got.borrow_mut();
        if let Fault::Flush(k) = self.fault { g.refused = true; return Err(io_error(k, g.bytes.len(), "injected flush failure")); }
        g.buffered = 0;
        Ok(())
    }
}

// ------------------------------------------------------------------ values
#[derive(Clone, Debug, PartialEq)]
pub enum Val { Edges(Vec<(u32, u32)>), Set(Vec<u32>), List(Vec<u32>) }
impl Val {
    fn show(&self) -> String { let s = format!("{self:?}"); if s.len() > 300 { format!("{}… ({} characters)", &s[..300], s.len()) } else { s } }
    fn set(v: &[u32]) -> Val { let mut v = v.to_vec(); v.sort_unstable(); v.dedup(); Val::Set(v) }
    fn edges(e: &[(u32, u32)]) -> Val { Val::Edges(norm(e)) }
    fn graph(&self) -> EditGraph { let Val::Edges(e) = self else { unreachable!() }; let mut g = EditGraph::new(); for (a, b) in e { g.add_edge(a, b); } g }
    fn write_buf(&self, w: Box<dyn Write>) -> io::Result<()> {
        match self { Val::Edges(_) => self.graph().write_buf(w), Val::Set(v) => v.iter().cloned().collect::<VertexSet>().write_buf(w), Val::List(v) => v.write_buf(w) }
    }
    fn write(&self, gz: bool, p: &str) -> io::Result<()> {
        match (self, gz) {
            (Val::Edges(_), false) => self.graph().write_txt(p),
            (Val::Edges(_), true) => self.graph().write_gzipped(p),
            (Val::Set(v), false) => v.iter().cloned().collect::<VertexSet>().write_txt(p),
            (Val::Set(v), true) => v.iter().cloned().collect::<VertexSet>().write_gzipped(p),
            (Val::List(v), false) => v.write_txt(p),
            (Val::List(v), true) => v.write_gzipped(p),
        }
    }
    /// Is `text` a representation of this value?
    fn described_by(&self, text: &[u8]) -> bool {
        match self {
            Val::Edges(_) => parse_edges(text).map(|e| Val::edges(&e)) == Some(self.clone()),
            Val::Set(_) => parse_list(text).map(|l| Val::set(&l)) == Some(self.clone()),
            Val::List(_) => parse_list(text).map(Val::List) == Some(self.clone()),
        }
    }
    fn text(&self) -> Vec<u8> {
        match self {
            Val::Edges(e) => e.iter().map(|(a, b)| format!("{a} {b}\n")).collect::<String>().into_bytes(),
            Val::Set(l) | Val::List(l) => l.iter().map(|a| format!("{a}\n")).collect::<String>().into_bytes(),
        }
    }
    fn kind(&self) -> Kind { match self { Val::Edges(_) => Kind::Graph, Val::Set(_) => Kind::Set, Val::List(_) => Kind::List } }
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind { Graph, Set, List }
const KINDS: [Kind; 3] = [Kind::Graph, Kind::Set, Kind::List];
impl Kind {
    /// What the documented format says about these bytes.
    fn meaning(self, d: &[u8]) -> Option<Val> {
        match self { Kind::Graph => parse_edges(d).map(|e| Val::edges(&e)), Kind::Set => parse_list(d).map(|l| Val::set(&l)), Kind::List => parse_list(d).map(Val::List) }
    }
}
pub enum Route { Buf(Box<dyn BufRead>), Txt(String), Gz(String), File(String) }
fn load_as<L: LoadFromFile>(r: Route) -> io::Result<L> {
    match r { Route::Buf(b) => L::from_buf(b), Route::Txt(p) => L::from_txt(&p), Route::Gz(p) => L::from_gzipped(&p), Route::File(p) => L::from_file(&p) }
}
/// Loads and reads the result back into a model value; a panic is its own error.
fn load(k: Kind, r: Route) -> Result<io::Result<Val>, String> {
    guard("loading", || match k {
        Kind::Graph => load_as::<EditGraph>(r).map(|g| {
            let v = sorted(g.vertices().cloned());
            let mut e: Vec<(u32, u32)> = g.edges().map(|(a, b)| (a.min(b), a.max(b))).collect();
            e.sort_unstable();
            let m = model(&e);
            // no stray vertices, no edge twice, counts agree
            if v != m.slabels() || e.len() != m.m() || g.num_edges() != m.m() || g.num_vertices() != m.n() { panic!("the loaded graph has vertices {v:?}, edges {e:?}, counts {} and {}", g.num_vertices(), g.num_edges()); }
            Val::Edges(e)
        }),
        Kind::Set => load_as::<VertexSet>(r).map(|s| Val::Set(sset(&s))),
        Kind::List => load_as::<Vec<Vertex>>(r).map(Val::List),
    })
}
fn show(d: &[u8]) -> String { if d.len() > 120 { format!("{} bytes ending {:?}", d.len(), String::from_utf8_lossy(&d[d.len() - 40..])) } else { format!("{:?}", String::from_utf8_lossy(d)) } }
/// Every observation of one route on one input.
fn expect(cx: &mut Ctx, k: Kind, r: Route, want: &Option<Val>, how: &str, d: &[u8]) -> Res {
    let got = load(k, r).map_err(|e| format!("{k:?} {how} of {}: {e}", show(d)))?;
    match (got, want) {
        (Ok(v), Some(w)) => ck!(cx, v == *w, "{k:?} {how} of {}: loaded {}, the lines say {}", show(d), v.show(), w.show()),
        (Err(e), None) => ck!(cx, e.kind() == ErrorKind::InvalidData, "{k:?} {how} of {}: error {e:?}, expected invalid data", show(d)),
        (Ok(v), None) => return Err(format!("{k:?} {how} of {}: loaded {}, but the input is not in the format", show(d), v.show())),
        (Err(e), Some(w)) => return Err(format!("{k:?} {how} of {}: error {e:?}, the lines say {}", show(d), w.show())),
    }
    Ok(())
}
/// All routes that take bytes; `files`: also the ones that take a file.
fn all_routes(cx: &mut Ctx, k: Kind, d: &[u8], files: bool) -> Res {
    let want = k.meaning(d);
    expect(cx, k, Route::Buf(Box::new(Cursor::new(d.to_vec()))), &want, "from_buf (all at once)", d)?;
    expect(cx, k, Route::Buf(Box::new(Pieces::new(d, every(1), true))), &want, "from_buf (byte by byte, interrupted)", d)?;
    if files {
        let p = put("in.txt", d);
        expect(cx, k, Route::Txt(p.clone()), &want, "from_txt", d)?;
        expect(cx, k, Route::File(p), &want, "from_file .txt", d)?;
        let p = put("in.gz", &gzip(d, 1));
        expect(cx, k, Route::Gz(p.clone()), &want, "from_gzipped", d)?;
        expect(cx, k, Route::File(p), &want, "from_file .gz", d)?;
    }
    Ok(())
}

/// Long inputs: no byte-by-byte reading.
fn all_routes_big(cx: &mut Ctx, k: Kind, d: &[u8]) -> Res {
    if d.len() < 5000 { return all_routes(cx, k, d, true); }
    let want = k.meaning(d);
    expect(cx, k, Route::Buf(Box::new(Pieces::new(d, every(1009), true))), &want, "from_buf (1009-byte pieces, interrupted)", d)?;
    let p = put("in.txt", d);
    expect(cx, k, Route::Txt(p.clone()), &want, "from_txt", d)?;
    expect(cx, k, Route::File(p), &want, "from_file .txt", d)?;
    let p = put("in.gz", &gzip(d, 1));
    expect(cx, k, Route::Gz(p.clone()), &want, "from_gzipped", d)?;
    expect(cx, k, Route::File(p), &want, "from_file .gz", d)
}

fn string_at(alpha: &[&[u8]], mut idx: u64) -> Vec<u8> {
    // shortlex
    let (mut len, mut c) = (0, 1u64);
    while idx >= c { idx -= c; c *= alpha.len() as u64; len += 1; }
    let mut v = vec![];
    for _ in 0..len { v.push((idx % alpha.len() as u64) as usize); idx /= alpha.len() as u64; }
    v.iter().flat_map(|&i| alpha[i].iter().cloned()).collect()
}
fn nstrings(a: usize, len: usize) -> u64 { (0..=len).map(|k| (a as u64).pow(k as u32)).sum() }

/// Round trip of a graph object through text, gzip and a buffer.
fn round_trip<G: Graph>(cx: &mut Ctx, g: &G, m: &MG, files: bool, what: &str) -> Res {
    let e = m.ledges_norm();
    let want = Val::edges(&e);
    let mt = model(&e);
    let back = |cx: &mut Ctx, h: io::Result<EditGraph>, how: &str| -> Res {
        match h { Ok(h) => check_same(cx, &h, &mt, &format!("{what}, {how}")), Err(x) => Err(format!("{what}, {how}: {x:?}")) }
    };
    let got = Rc::new(RefCell::new(Got::default()));
    let sink = Sink { got: got.clone(), max: usize::MAX, fault: Fault::None, interrupt: false, intr: false };
    if let Err(x) = g.write_buf(Box::new(sink)) { return Err(format!("{what}: write_buf: {x:?}")); }
    ck_eq!(cx, got.borrow().buffered, 0, "{what}: bytes not flushed by write_buf");
    let text = got.borrow().bytes.clone();
    ck!(cx, want.described_by(&text), "{what}: write_buf wrote {}, for {}", show(&text), want.show());
    back(cx, EditGraph::from_buf(Box::new(Cursor::new(text))), "write_buf, from_buf")?;
    if files {
        let (p, q) = (path("rt.txt"), path("rt.txt.gz"));
        // what an earlier, longer file held must not show through
        std::fs::write(&p, vec![b'7'; 3000]).unwrap();
        std::fs::write(&q, vec![b'7'; 3000]).unwrap();
        if let Err(x) = g.write_txt(&p) { return Err(format!("{what}: write_txt: {x:?}")); }
        if let Err(x) = g.write_gzipped(&q) { return Err(format!("{what}: write_gzipped: {x:?}")); }
        ck!(cx, want.described_by(&std::fs::read(&p).unwrap()), "{what}: write_txt wrote {}", show(&std::fs::read(&p).unwrap()));
        back(cx, EditGraph::from_txt(&p), "write_txt, from_txt")?;
        back(cx, EditGraph::from_file(&p), "write_txt, from_file")?;
        back(cx, EditGraph::from_gzipped(&q), "write_gzipped, from_gzipped")?;
        back(cx, EditGraph::from_file(&q), "write_gzipped, from_file")?;
    }
    Ok(())
}
fn round_trip_list(cx: &mut Ctx, v: &Val) -> Res {
    for gz in [false, true] {
        let p = path(if gz { "rl.gz" } else { "rl.txt" });
        std::fs::write(&p, vec![b'7'; 3000]).unwrap();
        if let Err(x) = v.write(gz, &p) { return Err(format!("writing {}: {x:?}", v.show())); }
        for file in [false, true] {
            let r = if file { Route::File(p.clone()) } else if gz { Route::Gz(p.clone()) } else { Route::Txt(p.clone()) };
            match load(v.kind(), r)? {
                Ok(w) => ck!(cx, w == *v, "saved {} (gzip {gz}), loaded {}", v.show(), w.show()),
                Err(e) => return Err(format!("saved {} (gzip {gz}), loading failed: {e:?}", v.show())),
            }
        }
    }
    let got = Rc::new(RefCell::new(Got::default()));
    if let Err(x) = v.write_buf(Box::new(Sink { got: got.clone(), max: 3, fault: Fault::None, interrupt: true, intr: true })) { return Err(format!("write_buf of {}: {x:?}", v.show())); }
    ck_eq!(cx, got.borrow().buffered, 0, "bytes not flushed");
    let d = got.borrow().bytes.clone();
    expect(cx, v.kind(), Route::Buf(Box::new(Cursor::new(d.clone()))), &Some(v.clone()), "from_buf of write_buf", &d)
}

pub fn c21(t: Tier) -> Vec<Family> {
    let mut f = vec![];
    // -- every short input
    let alpha: Vec<&'static [u8]> = vec![b"1", b" ", b"\n", b"0", b"\r", b"-", b"a", b"\xff", b"\t", "é".as_bytes(), b"+"];
    let len = t.pick(5usize, 6);
    let a2 = alpha.clone();
    f.push(fam(format!("all byte strings of <= {len} symbols from {} symbols (digits, blanks, line ends, signs, letters, non-ASCII, invalid UTF-8) x 3 kinds of value: from_buf under every way to cut the bytes", alpha.len()), nstrings(alpha.len(), len), move |idx, cx| {
        let d = string_at(&a2, idx);
        cx.note(|| show(&d));
        cx.state(Dig::new(1).adds(d.iter().map(|&b| b as u64)));
        for k in KINDS {
            let want = k.meaning(&d);
            expect(cx, k, Route::Buf(Box::new(Cursor::new(d.clone()))), &want, "from_buf", &d)?;
            let cuts = if d.is_empty() { 1 } else { 1u64 << (d.len() - 1).min(5) };
            for c in 1..cuts { expect(cx, k, Route::Buf(Box::new(Pieces::new(&d, cut_mask(c), c == cuts - 1))), &want, &format!("from_buf cut by mask {c:b}"), &d)?; }
        }
        Ok(())
    }));
    let a3: Vec<&'static [u8]> = vec![b"1", b" ", b"\n", b"2", b"\r", b"x", b"\xff"];
    let flen = t.pick(5usize, 6);
    f.push(fam(format!("all byte strings of <= {flen} symbols from 7 symbols x 3 kinds of value x all file routes"), nstrings(7, flen), move |idx, cx| {
        let d = string_at(&a3, idx);
        cx.note(|| show(&d));
        cx.state(Dig::new(2).adds(d.iter().map(|&b| b as u64)));
        for k in KINDS { all_routes(cx, k, &d, true)?; }
        Ok(())
    }));
    // -- lines built from tokens
    let toks: Vec<&'static str> = vec!["0", "7", "00", "0012", "4294967295", "4294967296", "04294967295", "42949672950", "-1", "-0", "+1", "+", "1.0", "1e3", "0x1", "1_0", "99999999999999999999999999", "18446744073709551617", "é", "१", "#", "1,2", "null"];
    let seps = [" ", "\t", "  ", " \t "];
    let pads = [("", ""), (" ", ""), ("", " "), ("\t", "\t"), ("", "\r")];
    let nt = toks.len() as u64;
    let tk = toks.clone();
    f.push(fam("every pair of 23 tokens x 4 separators x 5 paddings, as one line, before and after a good line, with and without a final line end, all routes", nt * nt * 4 * 5, move |idx, cx| {
        let (a, b) = (tk[(idx % nt) as usize], tk[(idx / nt % nt) as usize]);
        let r = idx / nt / nt;
        let (s, (pl, pr)) = (seps[(r % 4) as usize], pads[(r / 4) as usize]);
        let two = format!("{pl}{a}{s}{b}{pr}");
        let one = format!("{pl}{a}{pr}");
        let three = format!("{two}{s}{a}");
        cx.note(|| format!("{two:?}"));
        cx.state(Dig::new(3).add(idx));
        for (k, good) in [(Kind::Graph, "3 4"), (Kind::Set, "3"), (Kind::List, "3")] {
            for l in [&two, &one, &three] {
                for d in [l.to_string(), format!("{l}\n"), format!("{good}\n{l}"), format!("{l}\r\n{good}\n"), format!("{good}\n{l}\n{good}")] {
                    all_routes(cx, k, d.as_bytes(), idx % 8 == 3)?;
                }
            }
        }
        Ok(())
    }));
    // -- blank lines anywhere in a small file
    let parts = ["1 2", "2 1", "3 3", "4", "4", "", " ", "\r", "5 6 7", "0 4294967295"];
    let pl = parts.len() as u64;
    f.push(fam("every sequence of 4 lines out of 10 kinds (edges, repeated and reversed edges, loops, single vertices, blank lines) x line-end styles, all routes", pl.pow(4) * 3, move |idx, cx| {
        let e = ["\n", "\r\n", "\n\n"][(idx % 3) as usize];
        let mut i = idx / 3;
        let mut s = String::new();
        for k in 0..4 { s += parts[(i % pl) as usize]; i /= pl; if k < 3 || idx % 2 == 0 { s += e; } }
        cx.note(|| format!("{s:?}"));
        cx.state(Dig::new(4).add(idx));
        for k in KINDS { all_routes(cx, k, s.as_bytes(), idx % 4 == 1)?; }
        Ok(())
    }));
    // -- very long lines
    let lens: Vec<usize> = [7usize, 8, 9, 10, 12, 15, 16, 17, 31, 32, 33, 63, 64, 65, 80, 100, 127, 128, 129, 254, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 32768, 65535, 65536, 65537, 100_000, 300_000].to_vec();
    let nl = lens.len() as u64;
    f.push(fam(format!("a line with a run of 7 to 300000 blanks, tabs, leading zeros or digits ({nl} lengths x 12 layouts), alone, first, last and between good lines, all routes"), nl * 12, move |idx, cx| {
        let n = lens[(idx / 12) as usize];
        let z = |c: &str| c.repeat(n);
        cx.note(|| format!("run of {n}, layout {}", idx % 12));
        cx.state(Dig::new(9).add(idx));
        for k in KINDS {
            let (a, b) = if k == Kind::Graph { ("12", " 4294967295") } else { ("12", "") };
            let l = match idx % 12 {
                0 => format!("{}{a}{b}", z(" ")),
                1 => format!("{a}{b}{}", z(" ")),
                2 => format!("{a}{}{}", z(" "), b.trim()),
                3 => format!("{}{a}{b}{}", z("\t"), z("\t")),
                4 => format!("{}{a}{b}", z("0")),
                5 => format!("{a} {}{}", z("0"), b.trim()),
                6 => format!("{a}{b}{}", z("0")),
                7 => format!("{a}{b}{}x", z(" ")),
                8 => z(" "),
                9 => format!("{}{b}", z("x")),
                10 => format!("{a}{b}{}\r", z(" ")),
                _ => format!("{a}{b}{}5", z(" ")),
            };
            let good = if k == Kind::Graph { "3 4" } else { "3" };
            for d in [l.clone(), format!("{l}\n{good}\n"), format!("{good}\n{l}"), format!("{good}\r\n{l}\n{good}\n")] { all_routes_big(cx, k, d.as_bytes())?; }
        }
        Ok(())
    }));
    // -- a line end, token or multi-byte character at every offset around the 8 KiB buffer
    let span = t.pick(48usize, 200);
    f.push(fam(format!("files crossing the 8 KiB and 16 KiB buffer at every offset within {span} bytes x 3 kinds x 6 last lines"), (2 * span * 6 * 3 * 2) as u64, move |idx, cx| {
        let (k, r) = (KINDS[(idx % 3) as usize], idx / 3);
        let tail = ["", "8", "x", "4294967296", "\u{e9}", "\u{ff}"][(r % 6) as usize];
        let r = r / 6;
        let base = 8192 * (1 + (r % 2) as usize);
        let at = base - span + (r / 2) as usize % (2 * span);
        let mut d: Vec<u8> = vec![];
        let mut i = 0u32;
        while d.len() + 40 < at { i += 1; d.extend(match k { Kind::Graph => format!("{} {}\n", i, (i * 7919) % 5003), _ => format!("{}\n", (i * 7919) % 100_003) }.bytes()); }
        // pad with leading zeros so that the last line's end falls at `at`
        let w = at - d.len();
        match k { Kind::Graph => d.extend(format!("5 {:0w$}\n", 6, w = w.saturating_sub(3)).bytes()), _ => d.extend(format!("{:0w$}\n", 6, w = w.saturating_sub(1)).bytes()) }
        let extra = match k { Kind::Graph => format!("9 {tail}\n1 2"), _ => format!("{tail}7\n9") };
        if tail == "\u{ff}" { d.extend([b'1', 0xff, b'\n']); } else { d.extend(extra.bytes()); }
        cx.note(|| format!("{k:?}: {}", show(&d)));
        cx.state(Dig::new(5).add(idx));
        all_routes(cx, k, &d, true)?;
        let want = k.meaning(&d);
        expect(cx, k, Route::Buf(Box::new(BufReader::with_capacity(64, Pieces::new(&d, every(61), false)))), &want, "from_buf (61-byte pieces through a 64-byte buffer)", &d)?;
        expect(cx, k, Route::Buf(Box::new(Pieces::new(&d, every(1021), true))), &want, "from_buf (1021-byte pieces, interrupted)", &d)
    }));
    // -- round trips
    f.push(fam("all graphs on <= 5 vertices with loops x label schemes: text, gzip, buffer", ngraphs_upto(5, true) * SCHEMES, |idx, cx| {
        let m = graph_upto(5, true, idx / SCHEMES);
        let l = labels(idx % SCHEMES, m.n());
        let m = m.with_labels(l);
        cx.note(|| m.show());
        cx.state(m.dig());
        round_trip(cx, &m.edit(), &m, idx % 2 == 0 || m.n() < 5, "EditGraph")?;
        if m.edges.iter().all(|&(a, b)| a != b) {
            round_trip(cx, &m.ord(), &m, false, "OrdGraph")?;
            round_trip(cx, &m.degen(), &m, false, "DegenGraph")?;
        }
        Ok(())
    }));
    f.push(fam("all 6-vertex graphs under a permuted hash order: buffer", ngraphs(6, false), |idx, cx| {
        fxhash::seam::set(Some(seam_table(6, (idx * 7919) % 720)));
        let m = MG::from_mask(6, false, idx);
        cx.note(|| m.show());
        cx.state(m.dig().add(6));
        round_trip(cx, &m.edit(), &m, false, "EditGraph")
    }));
    f.push(fam("all digraphs on <= 3 vertices with loops: the underlying edges", ndigraphs_upto(3, true), |idx, cx| {
        let d = digraph_upto(3, true, idx);
        cx.note(|| d.show());
        cx.state(d.dig());
        round_trip(cx, &d.edit(), &d.under(), true, "EditDigraph")
    }));
    let mut sh = shapes(t.pick(60, 120), t.pick(14, 30));
    sh.extend(large(258, true));
    f.push(fam("named shapes x 5 label schemes: text, gzip, buffer, three graph types", sh.len() as u64 * SCHEMES, move |idx, cx| {
        let (name, mk) = &sh[(idx / SCHEMES) as usize];
        let m = mk();
        let l = labels(idx % SCHEMES, m.n());
        let m = m.with_labels(l);
        cx.note(|| format!("{name}: {}", m.show()));
        cx.state(m.dig());
        let lm = looped(&m, idx % 4);
        round_trip(cx, &lm.edit(), &lm, true, "EditGraph with loops")?;
        let d = oriented(&lm);
        if m.n() < 60 { round_trip(cx, &d.edit(), &d.under(), true, "EditDigraph with loops")?; }
        round_trip(cx, &m.edit(), &m, true, "EditGraph")?;
        round_trip(cx, &m.ord(), &m, true, "OrdGraph")?;
        round_trip(cx, &m.degen(), &m, true, "DegenGraph")
    }));
    // a gzip file may consist of several members; its content is that of all of them
    let vals = values(false);
    f.push(fam(format!("{} values as gzip files of two members (split after every byte) and of three (every pair of positions, short texts; empty members), levels 0 and 6", vals.len()), vals.len() as u64 * 2, move |idx, cx| {
        let v = &vals[(idx / 2) as usize];
        let lev = [0, 6][(idx % 2) as usize];
        let d = v.text();
        cx.note(|| format!("{} bytes of {}", d.len(), v.show()));
        let want = Some(v.clone());
        for a in positions(d.len(), false) {
            let third = if d.len() <= 24 { (a..=d.len()).collect() } else { vec![d.len()] };
            for b in third {
                cx.state(Dig::new(8).add(idx).add(a as u64).add(b as u64));
                let z: Vec<u8> = [gzip(&d[..a], lev), gzip(&d[a..b], lev), if b < d.len() { gzip(&d[b..], lev) } else { vec![] }].concat();
                let p = put("multi.gz", &z);
                expect(cx, v.kind(), Route::Gz(p.clone()), &want, "from_gzipped (several members)", &d)?;
                expect(cx, v.kind(), Route::File(p), &want, "from_file (several members)", &d)?;
            }
        }
        Ok(())
    }));
    let big: Vec<usize> = if t.thorough() { vec![700, 1500, 3000, 9000, 40_000, 200_000, 600_000, 2_000_000] } else { vec![700, 1500, 3000, 9000, 70_000, 500_000] };
    f.push(fam("large graphs, sets and lists whose text spans many buffers (up to several MiB)", big.len() as u64 * 4, move |idx, cx| {
        let n = big[(idx / 4) as usize];
        cx.note(|| format!("{n} items"));
        cx.state(Dig::new(6).add(idx));
        match idx % 4 {
            0 => { let m = model(&(0..n as u32).map(|i| (i * 17 % 100_003, 1_000_000 + (i % 997) * 4099)).collect::<Vec<_>>()); round_trip(cx, &m.edit(), &m, true, "EditGraph") }
            1 => { let m = model(&(0..n as u32).map(|i| (i, i + 1)).collect::<Vec<_>>()); round_trip(cx, &m.edit(), &m, true, "EditGraph") }
            2 => round_trip_list(cx, &Val::set(&(0..n as u64).map(|i| (i * 2_654_435_761 % 4_294_967_296) as u32).collect::<Vec<_>>())),
            _ => round_trip_list(cx, &Val::List((0..n as u64).map(|i| (i * 2_654_435_761 % 4_294_967_291) as u32).collect())),
        }
    }));
    // every list of up to 4 from 6 numbers; every set of them
    let nums = [0u32, 1, 10, 4_294_967_295, 65_536, 99];
    let ll = t.pick(4u32, 5);
    f.push(fam(format!("all lists of <= {ll} of 6 numbers (with repetition) and the sets of their members"), (0..=ll).map(|k| 6u64.pow(k)).sum(), move |mut idx, cx| {
        let (mut len, mut c) = (0, 1u64);
        while idx >= c { idx -= c; c *= 6; len += 1; }
        let v: Vec<u32> = (0..len).map(|_| { let x = nums[(idx % 6) as usize]; idx /= 6; x }).collect();
        cx.note(|| format!("{v:?}"));
        cx.state(Dig::new(7).adds(v.iter().map(|&x| x as u64)));
        round_trip_list(cx, &Val::List(v.clone()))?;
        round_trip_list(cx, &Val::set(&v))
    }));
    f.push(fam("unusual characters: every Unicode white space character and 14 others x 10 places in a line x 3 line numbers: the routes agree", (ODD.len() * 10 * 3) as u64, |idx, cx| {
        let c = ODD[idx as usize % ODD.len()];
        let (place, at) = (idx as usize / ODD.len() % 10, idx as usize / ODD.len() / 10);
        for k in [Kind::Graph, Kind::List] {
            cx.note(|| format!("{k:?}: {c:?}, place {place}, line {at}"));
            cx.state(Dig::new(c as u64).add(place as u64).add(at as u64).add(k as u64));
            let line = |g: &str, i: usize| -> String {
                let i = 40 + i;
                if k == Kind::Graph { match place {
                    0 => format!("{g}{i} 7"), 1 => format!("{i} 7{g}"), 2 => format!("{i}{g}7"), 3 => format!("{i} {g}7"), 4 => format!("{i}{g} 7"),
                    5 => format!("{i}{g}{g}7"), 6 => format!(" {g}{i} 7"), 7 => format!("{i} 7{g} "), 8 => g.to_string(), _ => format!("{g}{i}{g}7{g}"),
                } } else { match place {
                    0 => format!("{g}{i}"), 1 => format!("{i}{g}"), 2 => format!("4{g}{i}"), 3 => format!(" {g}{i}"), 4 => format!("{i}{g} "),
                    5 => format!("{g}{g}{i}"), 6 => format!("{g} {i}"), 7 => format!("{i} {g}"), 8 => g.to_string(), _ => format!("{g}{i}{g}"),
                } }
            };
            let text = |g: &str| -> Vec<u8> { (0..3).map(|i| if i == at { line(g, i) + "\n" } else if k == Kind::Graph { format!("{} {}\n", 10 + i, 20 + i) } else { format!("{}\n", 10 + i) }).collect::<String>().into_bytes() };
            agree(cx, k, &text(&c.to_string()), &[k.meaning(&text(" ")), k.meaning(&text(""))])?;
        }
        Ok(())
    }));
    let big: Vec<u8> = (0..9000u32).flat_map(|i| format!("{} {}\n", i * 7 % 4096 + 100_000, i % 97 + 200_000).into_bytes()).collect();
    let bigl: Vec<u8> = (0..12_000u32).flat_map(|i| format!("{}\n", i * 7919 % 1_000_003).into_bytes()).collect();
    let ins: Vec<Vec<u8>> = vec![b"".to_vec(), b"\n".to_vec(), b"5".to_vec(), b"5\n".to_vec(), b"1 2".to_vec(), b"1 2\n2 3\n9 1\n".to_vec(), b"4\n1\n4\n0\n".to_vec(), b"1 2\n\n".to_vec(), b"1 2\nx 3\n".to_vec(), b"7\n\xff\n".to_vec(), big, bigl];
    f.push(fam(format!("named pipes and symbolic links: {} inputs x 3 kinds x text and gzip x by name and by route x 3 ways of writing", ins.len()), ins.len() as u64 * 3 * 4, move |idx, cx| {
        let d = &ins[(idx / 12) as usize];
        let k = KINDS[(idx / 4 % 3) as usize];
        let (gz, by_name) = (idx % 2 == 1, idx / 2 % 2 == 1);
        cx.note(|| format!("{k:?} from a pipe (gzip {gz}, by name {by_name}): {}", show(d)));
        let want = k.meaning(d);
        let bytes = if gz { gzip(d, 6) } else { d.clone() };
        let ext = if gz { "gz" } else { "txt" };
        let route = |p: &str| if by_name { Route::File(p.to_string()) } else if gz { Route::Gz(p.to_string()) } else { Route::Txt(p.to_string()) };
        for step in [usize::MAX, 4096, bytes.len() / 3 + 1] {
            cx.state(Dig::new(idx).add(step as u64));
            let p = path(&format!("pipe.{ext}"));
            through_pipe(&p, &bytes, step, || expect(cx, k, route(&p), &want, "from a named pipe", d))?;
        }
        let (p, q) = (path(&format!("target.{ext}")), path(&format!("link.{ext}")));
        std::fs::write(&p, &bytes).unwrap();
        let _ = std::fs::remove_file(&q);
        std::os::unix::fs::symlink(&p, &q).expect("symbolic link");
        expect(cx, k, route(&q), &want, "through a symbolic link", d)
    }));
    f
}
/// The Unicode white space characters and characters which are easily taken for nothing, for a blank or for a digit.
const ODD: [char; 36] = ['\u{b}', '\u{c}', '\u{85}', '\u{a0}', '\u{1680}', '\u{2000}', '\u{2001}', '\u{2002}', '\u{2003}', '\u{2004}', '\u{2005}', '\u{2006}', '\u{2007}', '\u{2008}', '\u{2009}', '\u{200a}', '\u{2028}', '\u{2029}', '\u{202f}', '\u{205f}', '\u{3000}', '\t',
    '\u{0}', '\u{1c}', '\u{1f}', '\u{7f}', '\u{ad}', '\u{180e}', '\u{200b}', '\u{200d}', '\u{2060}', '\u{feff}', '\u{fffd}', '\u{660}', '\u{ff10}', '\u{2212}'];
/// The format does not name these characters, so an input may be accepted or not, but in the same way by every route; what is loaded is one of `may`.
fn agree(cx: &mut Ctx, k: Kind, d: &[u8], may: &[Option<Val>]) -> Res {
    let p = put("odd.txt", d);
    let q = put("odd.gz", &gzip(d, 1));
    let kinds: &[Kind] = if k == Kind::Graph { &[Kind::Graph] } else { &[Kind::List, Kind::Set] };
    let mut first: Option<bool> = None;
    for &k in kinds {
        let may: Vec<Option<Val>> = may.iter().map(|m| match (m, k) { (Some(Val::List(l)), Kind::Set) => Some(Val::set(l)), _ => m.clone() }).collect();
        for (how, r) in [("from_txt", Route::Txt(p.clone())), ("from_file .txt", Route::File(p.clone())), ("from_gzipped", Route::Gz(q.clone())), ("from_file .gz", Route::File(q.clone())),
            ("from_buf (all at once)", Route::Buf(Box::new(Cursor::new(d.to_vec())))), ("from_buf (byte by byte)", Route::Buf(Box::new(Pieces::new(d, every(1), true))))] {
            let got = load(k, r).map_err(|e| format!("{k:?} {how} of {}: {e}", show(d)))?;
            let ok = got.is_ok();
            match &got {
                Ok(v) => ck!(cx, may.iter().any(|m| m.as_ref() == Some(v)), "{k:?} {how} of {}: loaded {}", show(d), v.show()),
                Err(e) => ck!(cx, e.kind() == ErrorKind::InvalidData, "{k:?} {how} of {}: error {e:?}, expected invalid data", show(d)),
            }
            ck!(cx, *first.get_or_insert(ok) == ok, "{}: {k:?} {how} {} it, another route does not agree", show(d), if ok { "accepts" } else { "rejects" });
        }
    }
    Ok(())
}
unsafe extern "C" { fn mkfifo(path: *const std::ffi::c_char, mode: u32) -> i32; }
/// Runs `f` while another thread writes `bytes` into the named pipe `p`, at most `step` at a time.
fn through_pipe(p: &str, bytes: &[u8], step: usize, f: impl FnOnce() -> Res) -> Res {
    use std::os::unix::fs::OpenOptionsExt;
    let _ = std::fs::remove_file(p);
    let c = std::ffi::CString::new(p).unwrap();
    if unsafe { mkfifo(c.as_ptr(), 0o600) } != 0 { panic!("mkfifo {p}: {}", io::Error::last_os_error()); }
    let (b, q) = (bytes.to_vec(), p.to_string());
    let writer = std::thread::Builder::new().stack_size(64 << 10).spawn(move || {
        if let Ok(mut w) = std::fs::OpenOptions::new().write(true).open(&q) {
            for part in b.chunks(step.min(b.len().max(1))) { if w.write_all(part).is_err() { break; } }
        }
    }).expect("thread");
    let r = f();
    // a writer that nobody reads from is let go
    while !writer.is_finished() {
        let held = std::fs::OpenOptions::new().read(true).custom_flags(0o4000).open(p);
        std::thread::sleep(std::time::Duration::from_millis(1));
        drop(held);
    }
    writer.join().expect("writer");
    let _ = std::fs::remove_file(p);
    r
}

// ------------------------------------------------------------------ C22
fn values(big: bool) -> Vec<Val> {
    let mut v = vec![];
    let graphs: Vec<MG> = vec![MG::new(0, &[]), crate::space::path(2), crate::space::path(3), cycle(5), clique(6), star_at(9, 4), grid(4, 5), biclique(3, 7)];
    for (i, g) in graphs.iter().enumerate() {
        for s in [0, 3] { if i > 0 || s == 0 { v.push(Val::edges(&g.clone().with_labels(labels(s, g.n())).ledges_norm())); } }
    }
    v.push(Val::edges(&[(7, 7), (7, 4_294_967_295)]));
    for l in [vec![], vec![0], vec![4_294_967_295, 0], vec![5, 5, 5], (0..40).collect::<Vec<u32>>(), vec![10, 3, 10, 4_000_000_000]] { v.push(Val::set(&l)); v.push(Val::List(l)); }
    if big {
        v.push(Val::edges(&(0..1500u32).map(|i| (i, (i * 7919) % 100_003 + 2000)).collect::<Vec<_>>()));
        v.push(Val::List((0..2500u64).map(|i| (i * 2_654_435_761 % 4_294_967_296) as u32).collect()));
        v.push(Val::set(&(0..2500u64).map(|i| (i * 40_503 % 1_000_003) as u32).collect::<Vec<_>>()));
    }
    v
}
const ERRS: [ErrorKind; 33] = [ErrorKind::Other, ErrorKind::UnexpectedEof, ErrorKind::WouldBlock, ErrorKind::ConnectionReset, ErrorKind::TimedOut, ErrorKind::InvalidData,
    ErrorKind::BrokenPipe, ErrorKind::StorageFull, ErrorKind::WriteZero, ErrorKind::NotFound, ErrorKind::PermissionDenied, ErrorKind::ConnectionRefused, ErrorKind::ConnectionAborted,
    ErrorKind::NotConnected, ErrorKind::AddrInUse, ErrorKind::AddrNotAvailable, ErrorKind::AlreadyExists, ErrorKind::InvalidInput, ErrorKind::Unsupported, ErrorKind::OutOfMemory,
    ErrorKind::HostUnreachable, ErrorKind::NetworkUnreachable, ErrorKind::NetworkDown, ErrorKind::NotADirectory, ErrorKind::IsADirectory, ErrorKind::ReadOnlyFilesystem,
    ErrorKind::StaleNetworkFileHandle, ErrorKind::QuotaExceeded, ErrorKind::FileTooLarge, ErrorKind::ResourceBusy, ErrorKind::Deadlock, ErrorKind::ArgumentListTooLong, ErrorKind::NotSeekable];
/// An error of this kind: with the number the system gives it (where there is one), bare, or with a message.
fn io_error(k: ErrorKind, at: usize, what: &'static str) -> io::Error {
    let raw = match k { ErrorKind::Other => Some(5), ErrorKind::WouldBlock => Some(11), ErrorKind::ConnectionReset => Some(104), ErrorKind::TimedOut => Some(110), ErrorKind::BrokenPipe => Some(32), ErrorKind::StorageFull => Some(28), ErrorKind::NotFound => Some(2), ErrorKind::PermissionDenied => Some(13), ErrorKind::QuotaExceeded => Some(122), ErrorKind::FileTooLarge => Some(27), ErrorKind::ReadOnlyFilesystem => Some(30), ErrorKind::StaleNetworkFileHandle => Some(116), ErrorKind::ResourceBusy => Some(16), _ => None };
    match (at % 3, raw) { (0, Some(r)) => io::Error::from_raw_os_error(r), (1, _) => k.into(), _ => io::Error::new(k, what) }
}
/// Positions to try in something of this length: all of them, or (very long) all near the ends and block boundaries.
fn positions(len: usize, all: bool) -> Vec<usize> {
    (0..=len).filter(|&p| all || p < 80 || len - p < 80 || (p + 24) % 4096 < 48 || p % 331 == 0).collect()
}
fn must_fail(cx: &mut Ctx, k: Kind, r: Route, how: &str) -> Res {
    match load(k, r).map_err(|e| format!("{k:?}, {how}: {e}"))? {
        Err(_) => { cx.transitions += 1; Ok(()) }
        Ok(v) => Err(format!("{k:?}, {how}: loading succeeded with {}", v.show())),
    }
}
/// Damaged input: an error, or (only where no part of the data was affected) the whole value.
fn fail_or_whole(cx: &mut Ctx, k: Kind, r: Route, whole: &Val, how: &str) -> Res {
    match load(k, r).map_err(|e| format!("{k:?}, {how}: {e}"))? {
        Err(_) => { cx.transitions += 1; Ok(()) }
        Ok(v) => { ck!(cx, v == *whole, "{k:?}, {how}: loaded {} from a damaged file holding {}", v.show(), whole.show()); Ok(()) }
    }
}

/// Runs in its own process: saves the value under every file-size limit.
pub fn fsize(idx: usize, gz: bool, all: bool, file: &str) -> i32 {
    let v = &values(true)[idx];
    ignore_signal(25 /* SIGXFSZ */);
    let run = || -> Result<u64, String> {
        v.write(gz, file).map_err(|e| format!("saving without a limit failed: {e:?}"))?;
        let full = std::fs::metadata(file).map_err(|e| e.to_string())?.len() as usize;
        let mut n = 0;
        for lim in positions(full + 1, all) {
            let _ = std::fs::remove_file(file);
            if !rlimit(1 /* RLIMIT_FSIZE */, lim as u64, u64::MAX) { return Err("cannot set the file-size limit".into()); }
            let r = guard("saving", || v.write(gz, file));
            rlimit(1, u64::MAX, u64::MAX);
            let r = r.map_err(|e| format!("file-size limit {lim}: {e}"))?;
            let raw = std::fs::read(file).unwrap_or_default();
            let mut text = vec![];
            let complete = if gz { GzDecoder::new(&raw[..]).read_to_end(&mut text).is_ok() && v.described_by(&text) } else { text = raw.clone(); v.described_by(&text) && raw.len() == full };
            match r {
                Ok(()) if !complete => return Err(format!("saving reported success although the file was limited to {lim} bytes and holds {} of {full}", raw.len())),
                Err(e) if lim >= full => return Err(format!("saving {full} bytes under a limit of {lim} failed: {e:?}")),
                _ => n += 1,
            }
        }
        Ok(n)
    };
    match run() { Ok(n) => { println!("FSIZE {n}"); 0 } Err(e) => { println!("FSIZE-BAD {e}"); 1 } }
}

pub fn c22(t: Tier) -> Vec<Family> {
    let mut f = vec![];
    let all = t.thorough();
    let vals = Rc::new(values(true));
    let nv = vals.len() as u64;
    drop(vals);
    // -- reading
    f.push(fam(format!("{nv} values x every byte position (text over 8 KiB in the quick tier: ends and block boundaries) x 33 error kinds (texts over 300 bytes: one kind per position) x 3 ways to hand out the bytes: read failure in from_buf"), nv * 33, move |idx, cx| {
        let v = &values(true)[(idx / 33) as usize];
        let e = ERRS[(idx % 33) as usize];
        let d = v.text();
        cx.note(|| format!("{} bytes of {}, {e:?}", d.len(), v.show()));
        for p in positions(d.len(), all && d.len() < 60_000) {
            if d.len() > 300 && p % 33 != (idx % 33) as usize { continue; }
            cx.state(Dig::new(1).add(idx).add(p as u64));
            for (k, c) in [every(1 << 20), every(1), every(7)].into_iter().enumerate() {
                if d.len() > 4000 && k == 1 { continue; }
                must_fail(cx, v.kind(), Route::Buf(Box::new(Pieces::failing(&d, c.clone(), p, e))), &format!("{e:?} after byte {p} of {} (from_buf)", show(&d)))?;
                if k < 2 { must_fail(cx, v.kind(), Route::Buf(Box::new(BufReader::with_capacity(if k == 0 { 8192 } else { 5 }, Pieces::failing(&d, c, p, e)))), &format!("{e:?} after byte {p} of {} (buffered)", show(&d)))?; }
            }
        }
        Ok(())
    }));
    f.push(fam(format!("{nv} values x every position x 5 kinds of invalid UTF-8, replacing and inserted, all routes"), nv * 5, move |idx, cx| {
        let v = &values(true)[(idx / 5) as usize];
        let bad: &[u8] = [&b"\xff"[..], b"\xc3", b"\xe2\x82", b"\x80", b"\xed\xa0\x80"][(idx % 5) as usize];
        let d = v.text();
        cx.note(|| format!("{bad:?} in {} bytes of {}", d.len(), v.show()));
        for p in positions(d.len(), all && d.len() < 4000) {
            for replace in [false, true] {
                if replace && p == d.len() { continue; }
                let mut x = d[..p].to_vec();
                x.extend(bad);
                x.extend(&d[p + replace as usize..]);
                cx.state(Dig::new(2).add(idx).add(p as u64).add(replace as u64));
                let how = |r: &str| format!("{bad:?} at byte {p} of {} ({r})", show(&d));
                must_fail(cx, v.kind(), Route::Buf(Box::new(Cursor::new(x.clone()))), &how("from_buf"))?;
                let file = put("bad.txt", &x);
                must_fail(cx, v.kind(), Route::Txt(file.clone()), &how("from_txt"))?;
                must_fail(cx, v.kind(), Route::File(file), &how("from_file"))?;
                let file = put("bad.gz", &gzip(&x, 1));
                must_fail(cx, v.kind(), Route::Gz(file), &how("from_gzipped"))?;
            }
        }
        Ok(())
    }));
    f.push(fam(format!("{nv} values x gzip levels 0,1,6,9 x every truncation of the compressed file"), nv * 4, move |idx, cx| {
        let v = &values(true)[(idx / 4) as usize];
        let z = gzip(&v.text(), [0, 1, 6, 9][(idx % 4) as usize]);
        cx.note(|| format!("{} compressed bytes of {}", z.len(), v.show()));
        for p in positions(z.len() - 1, all && z.len() < 20_000) {
            cx.state(Dig::new(3).add(idx).add(p as u64));
            let file = put("cut.gz", &z[..p]);
            must_fail(cx, v.kind(), Route::Gz(file.clone()), &format!("compressed {} cut to {p} of {} bytes (from_gzipped)", v.show(), z.len()))?;
            must_fail(cx, v.kind(), Route::File(file), &format!("compressed {} cut to {p} of {} bytes (from_file)", v.show(), z.len()))?;
        }
        Ok(())
    }));
    let small = values(false).len() as u64;
    let nvals = if all { nv } else { small };
    f.push(fam(format!("{nvals} values x gzip levels 0,6 x every single-bit flip of the compressed file"), nvals * 2, move |idx, cx| {
        let v = &values(true)[(idx / 2) as usize];
        let z = gzip(&v.text(), [0, 6][(idx % 2) as usize]);
        cx.note(|| format!("{} compressed bytes of {}", z.len(), v.show()));
        for p in 0..z.len() * 8 {
            if z.len() > 2000 && p % 13 != 0 { continue; }
            cx.state(Dig::new(4).add(idx).add(p as u64));
            let mut x = z.clone();
            x[p / 8] ^= 1 << (p % 8);
            let file = put("flip.gz", &x);
            let how = format!("compressed {} with bit {p} flipped", v.show());
            fail_or_whole(cx, v.kind(), Route::Gz(file.clone()), v, &how)?;
            fail_or_whole(cx, v.kind(), Route::File(file), v, &how)?;
        }
        Ok(())
    }));
    f.push(fam("missing files, directories, unknown and missing file types, text where gzip is expected and the reverse, unreadable content, for all kinds and routes", 3, |idx, cx| {
        let k = KINDS[idx as usize];
        cx.state(Dig::new(5).add(idx));
        let dir = path("adir");
        std::fs::create_dir_all(format!("{dir}/d.txt")).unwrap();
        std::fs::create_dir_all(format!("{dir}/d.gz")).unwrap();
        let good: &[u8] = if k == Kind::Graph { b"1 2\n" } else { b"1\n" };
        let zip = gzip(good, 6);
        let mk = |n: &str, d: &[u8]| put(n, d);
        let mut bad: Vec<(Route, String)> = vec![];
        for n in ["missing.txt", "missing.gz", "missing.txt.gz", "no/such/dir.txt", "no/such/dir.gz", "missing", ""] {
            let p = if n.is_empty() { String::new() } else { path(n) };
            bad.push((Route::Txt(p.clone()), format!("from_txt({n:?}), no such file")));
            bad.push((Route::Gz(p.clone()), format!("from_gzipped({n:?}), no such file")));
            bad.push((Route::File(p), format!("from_file({n:?}), no such file")));
        }
        for d in ["d.txt", "d.gz"] {
            let p = format!("{dir}/{d}");
            bad.push((Route::Txt(p.clone()), format!("from_txt of the directory {d}")));
            bad.push((Route::Gz(p.clone()), format!("from_gzipped of the directory {d}")));
            bad.push((Route::File(p), format!("from_file of the directory {d}")));
        }
        for n in ["f.csv", "f", "f.txt.bak", "f.zip", ".txt", "gz", "f.gz.x"] { bad.push((Route::File(mk(n, good)), format!("from_file({n:?}), unknown type"))); }
        bad.push((Route::Gz(mk("plain.gz", good)), "from_gzipped of plain text".into()));
        bad.push((Route::File(mk("plain.gz", good)), "from_file of plain text named .gz".into()));
        bad.push((Route::Gz(mk("empty.gz", b"")), "from_gzipped of an empty file".into()));
        bad.push((Route::Txt(mk("zipped.txt", &zip)), "from_txt of compressed data".into()));
        bad.push((Route::File(mk("zipped.txt", &zip)), "from_file of compressed data named .txt".into()));
        bad.push((Route::Txt("/proc/self/mem".into()), "from_txt of a file whose first read fails".into()));
        bad.push((Route::Gz("/proc/self/mem".into()), "from_gzipped of a file whose first read fails".into()));
        for (r, how) in bad { cx.note(|| how.clone()); must_fail(cx, k, r, &how)?; }
        // and the same names work when they hold what they should
        for n in ["x.txt", "x.y.txt", "é.txt", "a b.txt"] { expect(cx, k, Route::File(mk(n, good)), &k.meaning(good), n, good)?; }
        for n in ["x.gz", "x.txt.gz", "x.csv.gz"] { expect(cx, k, Route::File(mk(n, &zip)), &k.meaning(good), n, good)?; }
        Ok(())
    }));
    // -- writing
    let kinds = ERRS;
    f.push(fam(format!("{nv} values x every byte position x 33 error kinds (long texts: one kind per position) and a full sink x 5 ways to buffer: write failure in write_buf, and failing flush"), nv * 5, move |idx, cx| {
        let v = &values(true)[(idx / 5) as usize];
        let (cap, max) = [(0usize, usize::MAX), (0, 3), (1, usize::MAX), (7, 5), (8192, usize::MAX)][(idx % 5) as usize];
        let full = { let g = Rc::new(RefCell::new(Got::default())); let s = Sink { got: g.clone(), max: usize::MAX, fault: Fault::None, interrupt: false, intr: false };
            if let Err(e) = v.write_buf(Box::new(s)) { return Err(format!("write_buf of {}: {e:?}", v.show())); } let r = g.borrow().bytes.clone(); r };
        ck!(cx, v.described_by(&full), "write_buf of {} wrote {}", v.show(), show(&full));
        cx.note(|| format!("{} bytes of {}, buffer {cap}, at most {max} bytes per call", full.len(), v.show()));
        let mut faults = vec![Fault::None];
        for p in positions(full.len().saturating_sub(1), all) { if p < full.len() { for k in kinds { faults.push(Fault::Write(p, k)); } faults.push(Fault::Zero(p)); } }
        for k in kinds { faults.push(Fault::Flush(k)); }
        for (n, fault) in faults.into_iter().enumerate() {
            if full.len() > 300 && matches!(fault, Fault::Write(p, k) if k != kinds[p % 33]) { continue; }
            cx.state(Dig::new(6).add(idx).add(n as u64));
            let g = Rc::new(RefCell::new(Got::default()));
            let s = Sink { got: g.clone(), max, fault, interrupt: n % 2 == 0, intr: true };
            let w: Box<dyn Write> = if cap == 0 { Box::new(s) } else { Box::new(BufWriter::with_capacity(cap, s)) };
            let r = guard(&format!("write_buf of {} with {fault:?}", v.show()), || v.write_buf(w))?;
            let g = g.borrow();
            let complete = g.bytes == full && g.buffered == 0 && !g.refused;
            ck_eq!(cx, r.is_ok(), complete && fault == Fault::None, "write_buf of {} with {fault:?} (buffer {cap}): success reported, {} of {} bytes arrived", v.show(), g.bytes.len(), full.len());
        }
        Ok(())
    }));
    f.push(fam(format!("{nv} values x text and gzip x every limit on the file's size (long files in the quick tier: ends and block boundaries): write failure in write_txt and write_gzipped"), nv * 2, move |idx, cx| {
        let (i, gz) = ((idx / 2) as usize, idx % 2 == 1);
        let file = path("limited");
        let exe = std::env::current_exe().unwrap();
        let o = std::process::Command::new(exe).args(["fsize", &i.to_string(), &(gz as u8).to_string(), &(all as u8).to_string(), &file]).output().map_err(|e| format!("cannot start the child: {e}"))?;
        let s = String::from_utf8_lossy(&o.stdout);
        let v = &values(true)[i];
        cx.note(|| format!("{} gzip {gz}: {}", v.show(), s.trim()));
        let Some(n) = s.lines().find_map(|l| l.strip_prefix("FSIZE ")).and_then(|x| x.parse::<u64>().ok()) else {
            return Err(format!("{} (gzip {gz}): {} {:?}", v.show(), s.lines().find(|l| l.starts_with("FSIZE")).unwrap_or(""), o.status));
        };
        for k in 0..n { cx.state(Dig::new(7).add(idx).add(k)); }
        cx.transitions += n;
        Ok(())
    }));
    f.push(fam(format!("{nv} values x text and gzip: full device, missing folder, directory in the way"), nv * 2, move |idx, cx| {
        let (v, gz) = (&values(true)[(idx / 2) as usize], idx % 2 == 1);
        cx.note(|| format!("{} gzip {gz}", v.show()));
        cx.state(Dig::new(8).add(idx));
        let dir = path("adir2");
        std::fs::create_dir_all(&dir).unwrap();
        for (p, why) in [(path("no/such/out"), "missing folder"), (dir, "a directory is in the way"), ("/dev/full".to_string(), "full device")] {
            if p == "/dev/full" && !gz && v.text().is_empty() { continue; } // nothing to write, nothing fails
            let r = guard(&format!("saving {} (gzip {gz}), {why}", v.show()), || v.write(gz, &p))?;
            ck!(cx, r.is_err(), "saving {} (gzip {gz}) reported success, {why}", v.show());
        }
        Ok(())
    }));
    f
}
