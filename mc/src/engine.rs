//! Exhaustive exploration engine: families of numbered cases, a parallel worker that runs every
//! case of every family, and a supervisor that turns failures (wrong answers, panics, aborts,
//! hangs) into replayable violations and writes the evidence file.
use std::cell::Cell;
use std::collections::HashSet;
use std::hash::{BuildHasherDefault, Hasher};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub type Res = Result<(), String>;

#[derive(Default, Clone, Copy)]
pub struct IdHash(u64);
impl Hasher for IdHash {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, _: &[u8]) { unreachable!() }
    fn write_u64(&mut self, x: u64) { self.0 = x }
}
pub type DigestSet = HashSet<u64, BuildHasherDefault<IdHash>>;

/// Mixes words into a 64-bit digest.
#[derive(Clone, Copy)]
pub struct Dig(pub u64);
impl Dig {
    pub fn new(tag: u64) -> Self { Dig(0x9E37_79B9_7F4A_7C15).add(tag) }
    pub fn add(self, x: u64) -> Self {
        let mut h = self.0 ^ x.wrapping_mul(0xff51_afd7_ed55_8ccd);
        h = (h ^ (h >> 32)).wrapping_mul(0xc4ce_b9fe_1a85_ec53);
        Dig(h ^ (h >> 29))
    }
    pub fn adds<I: IntoIterator<Item = u64>>(self, it: I) -> Self { it.into_iter().fold(self, |d, x| d.add(x)).add(!0) }
}

const STATE_CAP: usize = 6_000_000;

pub struct Ctx {
    pub transitions: u64,
    pub cases: u64,
    pub states: DigestSet,
    pub capped_states: u64,
    pub verbose: bool,
    pub echo: bool,
    pub notes: Vec<String>,
}
impl Ctx {
    pub fn new(verbose: bool) -> Self {
        Ctx { transitions: 0, cases: 0, states: DigestSet::default(), capped_states: 0, verbose, echo: false, notes: vec![] }
    }
    pub fn state(&mut self, d: Dig) {
        if self.states.len() < STATE_CAP { self.states.insert(d.0); } else { self.capped_states += 1; }
    }
    #[inline]
    pub fn note<F: FnOnce() -> String>(&mut self, f: F) {
        if self.verbose {
            let s = f();
            if self.echo { eprintln!("  {s}"); }
            if self.notes.len() < 4000 { self.notes.push(s); }
        }
    }
}

/// Compare-and-count: one observation of the real code checked against the model.
#[macro_export]
macro_rules! ck {
    ($cx:expr, $c:expr, $($a:tt)*) => {{ $cx.transitions += 1; if !($c) { return Err(format!($($a)*)); } }};
}
#[macro_export]
macro_rules! ck_eq {
    ($cx:expr, $a:expr, $b:expr, $($m:tt)*) => {{ $cx.transitions += 1; let (a, b) = (&$a, &$b);
        if !(*a == *b) { return Err(format!("{}: the code says {:?}, the model says {:?}", format!($($m)*), a, b)); } }};
}

pub struct Family {
    pub name: String,
    pub count: u64,
    /// Tens of thousands of items per case. How long the code takes on them is not part of any
    /// property: a case without an answer in time is not explored, rather than a violation.
    /// (Failing to terminate shows on the small cases.)
    pub large: bool,
    pub run: Box<dyn Fn(u64, &mut Ctx) -> Res + Send + Sync>,
}
pub fn fam<S: Into<String>, F>(name: S, count: u64, run: F) -> Family
where F: Fn(u64, &mut Ctx) -> Res + Send + Sync + 'static {
    let name = name.into();
    let large = name.contains("2^16") || name.contains("MiB");
    Family { name, count, large, run: Box::new(run) }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier { Quick, Thorough }
impl Tier {
    pub fn name(self) -> &'static str { if self == Tier::Quick { "quick" } else { "thorough" } }
    pub fn thorough(self) -> bool { self == Tier::Thorough }
    /// Picks a bound by tier.
    pub fn pick<T>(self, q: T, t: T) -> T { if self == Tier::Quick { q } else { t } }
}

pub struct Property {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub families: fn(Tier) -> Vec<Family>,
}

// ---------------------------------------------------------------- crash plumbing
unsafe extern "C" {
    fn signal(sig: i32, h: usize) -> usize;
    fn write(fd: i32, b: *const std::ffi::c_void, n: usize) -> isize;
    fn _exit(c: i32) -> !;
    fn setrlimit(r: i32, l: *const [u64; 2]) -> i32;
}
pub fn rlimit(resource: i32, soft: u64, hard: u64) -> bool { unsafe { setrlimit(resource, &[soft, hard]) == 0 } }
pub fn ignore_signal(sig: i32) { unsafe { signal(sig, 1); } }

/// The folder for files the cases create; the supervisor removes it.
pub fn scratch() -> PathBuf { PathBuf::from(std::env::var("GBMC_SCRATCH").expect("scratch folder")) }
/// Makes the scratch folder unless a parent process already did; removed on drop by whoever made it.
pub struct Scratch(Option<PathBuf>);
impl Scratch {
    pub fn open() -> Scratch {
        if std::env::var("GBMC_SCRATCH").is_ok() { return Scratch(None); }
        let name = format!("gbmc-{}", std::process::id());
        let bases = [PathBuf::from("/dev/shm"), PathBuf::from(std::env::var("GBMC_ROOT").unwrap_or(".".into())).join("target"), std::env::temp_dir()];
        for b in bases {
            let p = b.join(&name);
            if std::fs::create_dir(&p).is_ok() {
                // single-threaded here: set before any worker thread starts
                unsafe { std::env::set_var("GBMC_SCRATCH", &p); }
                return Scratch(Some(p));
            }
        }
        panic!("no place for scratch files");
    }
}
impl Drop for Scratch { fn drop(&mut self) { if let Some(p) = &self.0 { std::fs::remove_dir_all(p).ok(); } } }

const MAXT: usize = 64;
static SLOT_FAM: [AtomicU64; MAXT] = [const { AtomicU64::new(u64::MAX) }; MAXT];
static SLOT_IDX: [AtomicU64; MAXT] = [const { AtomicU64::new(0) }; MAXT];
static SLOT_T: [AtomicU64; MAXT] = [const { AtomicU64::new(0) }; MAXT];
thread_local! { static MY: Cell<usize> = const { Cell::new(usize::MAX) };
    static PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) }; }

fn raw(s: &[u8]) { unsafe { write(1, s.as_ptr().cast(), s.len()); } }
fn raw_num(mut x: u64) {
    let mut b = [0u8; 20];
    let mut i = 20;
    loop { i -= 1; b[i] = b'0' + (x % 10) as u8; x /= 10; if x == 0 { break; } }
    raw(&b[i..]);
}
extern "C" fn on_crash(sig: i32) {
    let me = MY.with(|m| m.get());
    let show = |t: usize| {
        raw(b"\nFAIL "); raw_num(SLOT_FAM[t].load(Relaxed)); raw(b" "); raw_num(SLOT_IDX[t].load(Relaxed));
        raw(b" crash killed by signal "); raw_num(sig as u64); raw(b"\n");
    };
    if me < MAXT && SLOT_FAM[me].load(Relaxed) != u64::MAX { show(me); }
    else { for t in 0..MAXT { if SLOT_FAM[t].load(Relaxed) != u64::MAX { show(t); } } }
    unsafe { _exit(4) }
}
fn arm() {
    for s in [6, 4, 7, 8] { unsafe { signal(s, on_crash as *const () as usize); } }
    std::panic::set_hook(Box::new(|i| {
        let m = i.payload().downcast_ref::<&str>().map(|s| s.to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = format!("panic at {l}: {m}"));
    }));
    rlimit(9 /* RLIMIT_AS */, 14 << 30, 14 << 30);
    rlimit(4 /* RLIMIT_CORE */, 0, 0);
}
/// Runs `f`; true if it panicked.
pub fn panics<F: FnOnce()>(f: F) -> bool { catch_unwind(AssertUnwindSafe(f)).is_err() }
/// Runs `f`, turning a panic into an error.
pub fn guard<T, F: FnOnce() -> T>(what: &str, f: F) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| format!("{what}: {}", PANIC.with(|p| p.borrow().clone())))
}

pub fn run_case(f: &Family, idx: u64, cx: &mut Ctx) -> Res {
    cx.cases += 1;
    let r = match catch_unwind(AssertUnwindSafe(|| (f.run)(idx, cx))) {
        Ok(r) => r,
        Err(_) => Err(PANIC.with(|p| p.borrow().clone())),
    };
    fxhash::seam::set(None);
    r
}

fn now_ms() -> u64 { static T: std::sync::OnceLock<Instant> = std::sync::OnceLock::new(); T.get_or_init(Instant::now).elapsed().as_millis() as u64 + 1 }

// ---------------------------------------------------------------- worker
pub fn worker(p: &Property, tier: Tier, threads: usize, cap_s: u64) -> i32 {
    arm();
    let case_limit_ms: u64 = 60_000;
    let t0 = Instant::now();
    now_ms();
    let fams = (p.families)(tier);
    // work list: (family, start, end) chunks in order
    let mut chunks: Vec<(usize, u64, u64)> = vec![];
    let skip: Vec<usize> = std::env::var("GBMC_SKIP").unwrap_or_default().split(',').filter_map(|x| x.parse().ok()).collect();
    for (i, f) in fams.iter().enumerate() {
        if skip.contains(&i) { continue; }
        let step = (f.count / (threads as u64 * 32)).clamp(1, 4096);
        let mut s = 0;
        while s < f.count { let e = (s + step).min(f.count); chunks.push((i, s, e)); s = e; }
    }
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let done = AtomicBool::new(false);
    let failures: Mutex<Vec<(usize, u64, String)>> = Mutex::new(vec![]);
    let capped = AtomicBool::new(false);
    let fam_done: Vec<AtomicU64> = fams.iter().map(|_| AtomicU64::new(0)).collect();
    let fam_ms: Vec<AtomicU64> = fams.iter().map(|_| AtomicU64::new(0)).collect();
    let totals: Mutex<Ctx> = Mutex::new(Ctx::new(false));
    let slowest = AtomicU64::new(0);
    // for tuning: report every case that takes at least this long
    let slow_ms: Option<u64> = std::env::var("GBMC_SLOW").ok().and_then(|x| x.parse().ok());
    std::thread::scope(|sc| {
        let mut hs = vec![];
        for t in 0..threads {
            let (fams, chunks, next, stop, failures, capped, fam_done, fam_ms, totals, slowest) =
                (&fams, &chunks, &next, &stop, &failures, &capped, &fam_done, &fam_ms, &totals, &slowest);
            let h = std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(sc, move || {
                MY.with(|m| m.set(t));
                let mut cx = Ctx::new(false);
                'outer: loop {
                    let c = next.fetch_add(1, SeqCst) as usize;
                    if c >= chunks.len() || stop.load(Relaxed) { break; }
                    let (fi, s, e) = chunks[c];
                    SLOT_FAM[t].store(fi as u64, Relaxed);
                    let ct = Instant::now();
                    for idx in s..e {
                        if stop.load(Relaxed) { break 'outer; }
                        SLOT_IDX[t].store(idx, Relaxed);
                        let t1 = now_ms();
                        SLOT_T[t].store(t1, SeqCst);
                        let r = run_case(&fams[fi], idx, &mut cx);
                        SLOT_T[t].store(0, SeqCst);
                        let took = now_ms() - t1;
                        slowest.fetch_max(took, Relaxed);
                        if slow_ms.is_some_and(|l| took >= l) { eprintln!("SLOW {took} ms: {} case {idx}", fams[fi].name); }
                        if let Err(m) = r {
                            failures.lock().unwrap().push((fi, idx, m));
                            stop.store(true, SeqCst);
                            break 'outer;
                        }
                        fam_done[fi].fetch_add(1, Relaxed);
                    }
                    fam_ms[fi].fetch_add(ct.elapsed().as_millis() as u64, Relaxed);
                    if t0.elapsed().as_secs() > cap_s { capped.store(true, SeqCst); stop.store(true, SeqCst); }
                }
                SLOT_FAM[t].store(u64::MAX, Relaxed);
                let mut tot = totals.lock().unwrap();
                tot.cases += cx.cases;
                tot.transitions += cx.transitions;
                tot.capped_states += cx.capped_states;
                let s = std::mem::take(&mut cx.states);
                if tot.states.is_empty() { tot.states = s; } else { tot.states.extend(s); }
            }).unwrap();
            hs.push(h);
        }
        // watchdog
        let done = &done;
        let fams = &fams;
        let wd = sc.spawn(move || {
            while !done.load(SeqCst) {
                std::thread::sleep(Duration::from_millis(200));
                for t in 0..threads {
                    let s = SLOT_T[t].load(SeqCst);
                    if s != 0 && now_ms().saturating_sub(s) > case_limit_ms {
                        let fi = SLOT_FAM[t].load(SeqCst) as usize;
                        let kind = if fams.get(fi).is_some_and(|f| f.large) { "slow" } else { "hang" };
                        println!("\nFAIL {} {} {kind} no answer after {} s", fi, SLOT_IDX[t].load(SeqCst), case_limit_ms / 1000);
                        std::io::stdout().flush().ok();
                        unsafe { _exit(5) }
                    }
                }
            }
        });
        for h in hs { h.join().unwrap(); }
        done.store(true, SeqCst);
        wd.join().unwrap();
    });
    let tot = totals.into_inner().unwrap();
    let mut fl = failures.into_inner().unwrap();
    fl.sort();
    for (fi, d) in fam_done.iter().enumerate() {
        println!("FAMILY {} {} {} {}", fi, d.load(SeqCst), fams[fi].count, fam_ms[fi].load(SeqCst));
    }
    println!("TOTAL {} {} {} {} {} {}", tot.cases, tot.transitions, tot.states.len(), tot.capped_states, capped.load(SeqCst) as u8, slowest.load(SeqCst));
    if let Some((fi, idx, m)) = fl.first() {
        println!("FAIL {fi} {idx} wrong {}", m.replace('\n', " "));
        return 1;
    }
    0
}

/// Runs one case verbosely. Exit 0: it passes; 1: it fails.
pub fn one(p: &Property, tier: Tier, fam_name: &str, idx: u64) -> i32 {
    arm();
    let fams = (p.families)(tier);
    let Some((fi, f)) = fams.iter().enumerate().find(|(_, f)| f.name == fam_name) else {
        eprintln!("no family {fam_name}");
        return 2;
    };
    MY.with(|m| m.set(0));
    SLOT_FAM[0].store(fi as u64, SeqCst);
    SLOT_IDX[0].store(idx, SeqCst);
    // large stack, like the worker
    std::thread::scope(|sc| {
        std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(sc, || {
            MY.with(|m| m.set(0));
            let mut cx = Ctx::new(true);
            cx.echo = true;
            eprintln!("property {} family {} case {}", p.id, f.name, idx);
            match run_case(f, idx, &mut cx) {
                Ok(()) => { eprintln!("PASS"); 0 }
                Err(m) => { eprintln!("FAILS: {m}"); 1 }
            }
        }).unwrap().join().unwrap()
    })
}

// ---------------------------------------------------------------- supervisor
pub fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn run_limited(mut cmd: Command, limit: Duration) -> (Option<i32>, String, String) {
    let mut ch = cmd.stdout(Stdio::piped()).stderr(Stdio::piped()).spawn().expect("spawn");
    let mut so = ch.stdout.take().unwrap();
    let mut se = ch.stderr.take().unwrap();
    let a = std::thread::spawn(move || { let mut v = vec![]; std::io::Read::read_to_end(&mut so, &mut v).ok(); String::from_utf8_lossy(&v).into_owned() });
    let b = std::thread::spawn(move || { let mut v = vec![]; std::io::Read::read_to_end(&mut se, &mut v).ok(); String::from_utf8_lossy(&v).into_owned() });
    let t0 = Instant::now();
    let code = loop {
        match ch.try_wait().unwrap() {
            Some(st) => break Some(st.code().unwrap_or(-1)),
            None if t0.elapsed() > limit => { ch.kill().ok(); ch.wait().ok(); break None; }
            None => std::thread::sleep(Duration::from_millis(5)),
        }
    };
    (code, a.join().unwrap(), b.join().unwrap())
}

pub fn supervise(p: &Property, tier: Tier) -> i32 {
    let t0 = Instant::now();
    let exe = std::env::current_exe().unwrap();
    let root = PathBuf::from(std::env::var("GBMC_ROOT").unwrap_or("/verif".into()));
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let cap = std::env::var("GBMC_CAP_S").ok().and_then(|s| s.parse().ok()).unwrap_or(tier.pick(420u64, 7200));
    let fams = (p.families)(tier);
    let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8).min(16);
    std::fs::create_dir_all(root.join("out")).ok();
    std::fs::create_dir_all(root.join("evidence")).ok();
    let mut attempts = 0;
    let (mut cases, mut trans, mut states, mut capped_states, mut capped, mut slowest) = (0u64, 0u64, 0u64, 0u64, true, 0u64);
    let mut per: Vec<(u64, u64)> = vec![(0, 0); fams.len()];
    let mut violation: Option<(usize, u64, String, String)> = None;
    let mut error = None;
    let mut skip: Vec<usize> = vec![];
    'attempt: while attempts < 3 {
        attempts += 1;
        error = None;
        let mut c = Command::new(&exe);
        c.env("GBMC_SKIP", skip.iter().map(|i| i.to_string()).collect::<Vec<_>>().join(","));
        c.args(["work", p.id, tier.name(), &threads.to_string(), &cap.to_string()]);
        let (code, out, err) = run_limited(c, Duration::from_secs(cap + 300));
        let mut fails = vec![];
        for l in out.lines() {
            let w: Vec<&str> = l.splitn(5, ' ').collect();
            match w.first() {
                Some(&"FAMILY") => { let i: usize = w[1].parse().unwrap(); per[i] = (w[2].parse().unwrap(), w[4].parse().unwrap()); }
                Some(&"TOTAL") => {
                    let v: Vec<u64> = l.split(' ').skip(1).map(|x| x.parse().unwrap()).collect();
                    (cases, trans, states, capped_states, capped, slowest) = (v[0], v[1], v[2], v[3], v[4] != 0, v[5]);
                }
                Some(&"FAIL") if w.len() == 5 => if let (Ok(a), Ok(b)) = (w[1].parse::<usize>(), w[2].parse::<u64>()) {
                    if a < fams.len() { fails.push((a, b, w[3].to_string(), w[4].to_string())); }
                },
                _ => {}
            }
        }
        if code == Some(0) && fails.is_empty() { break; }
        if let Some(f) = fails.iter().find(|f| f.2 == "slow" && !skip.contains(&f.0)) {
            skip.push(f.0);
            attempts -= 1;
            continue;
        }
        for (fi, idx, kind, msg) in fails {
            let mut c = Command::new(&exe);
            c.args(["one", p.id, tier.name(), &fams[fi].name, &idx.to_string()]);
            let (oc, _o, oe) = run_limited(c, Duration::from_secs(150));
            let confirmed = oc != Some(0);
            if confirmed || kind == "wrong" {
                let how = match oc {
                    None => "no answer within 150 s when run alone".to_string(),
                    Some(0) => format!("{msg} (seen once by the exploration; a single re-run passed, so it also depends on state outside the case)"),
                    Some(1) => oe.lines().rev().find(|l| l.starts_with("FAILS: ")).unwrap_or(&msg).to_string(),
                    Some(c) => format!("the process died (exit {c}): {}", oe.lines().rev().find(|l| !l.trim().is_empty()).unwrap_or("")),
                };
                violation = Some((fi, idx, how, oe));
                break 'attempt;
            }
        }
        error = Some(format!("worker ended with {code:?} and no reproducible failure; stderr: {}", err.lines().last().unwrap_or("")));
    }
    // samples: the middle case of evenly spread families, re-run with notes on
    let mut samples = vec![];
    if violation.is_none() && error.is_none() {
        arm();
        let step = fams.len().div_ceil(6).max(1);
        for (_, f) in fams.iter().enumerate().step_by(step).filter(|(i, _)| !skip.contains(i)) {
            if f.count == 0 { continue; }
            let mut cx = Ctx::new(true);
            let idx = f.count / 2 + f.count / 7;
            let r = run_case(f, idx.min(f.count - 1), &mut cx);
            let mut n: Vec<String> = cx.notes.into_iter().take(6).collect();
            for s in n.iter_mut() { if s.len() > 400 { *s = format!("{}…", s.chars().take(400).collect::<String>()); } }
            samples.push(format!("{} #{}: {} -> {} comparisons, {}", f.name, idx, n.join(" | "), cx.transitions, if r.is_ok() { "agrees" } else { "disagrees" }));
        }
    }
    let exhaustive = !capped && skip.is_empty() && violation.is_none() && error.is_none();
    let mut ev = String::from("{\n");
    ev += &format!(" \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": {},\n", esc(p.id), esc(tier.name()), seed, esc(p.level));
    ev += " \"coverage\": {\n";
    if p.level == "fault_enumeration" {
        ev += &format!("  \"evaluations\": {cases},\n  \"distinct_nontrivial\": {states},\n  \"transitions\": {trans},\n");
    } else {
        ev += &format!("  \"states\": {states},\n  \"transitions\": {trans},\n  \"traces_validated_against_impl\": {cases},\n");
    }
    ev += &format!("  \"rule\": {},\n", esc(p.rule));
    ev += &format!("  \"samples\": [{}],\n", samples.iter().map(|s| esc(s)).collect::<Vec<_>>().join(", "));
    ev += &format!("  \"families\": [{}],\n", fams.iter().zip(&per).map(|(f, (d, ms))| format!("{{\"name\": {}, \"cases\": {}, \"done\": {}, \"thread_ms\": {}}}", esc(&f.name), f.count, d, ms)).collect::<Vec<_>>().join(", "));
    ev += &format!("  \"exhaustive\": {exhaustive},\n  \"cap_hit\": {capped},\n  \"states_not_recorded_after_cap\": {capped_states},\n  \"families_too_slow_to_explore\": [{}],\n  \"slowest_case_ms\": {slowest}\n }},\n", skip.iter().map(|&i| esc(&fams[i].name)).collect::<Vec<_>>().join(", "));
    ev += " \"assumptions\": [\"the enumerated bounds (families above)\", \"the reference model in /verif/mc/src\", \"rustc, std and the third-party crates\"],\n";
    ev += &format!(" \"wall_s\": {:.2},\n \"violations\": {}\n}}\n", t0.elapsed().as_secs_f64(), violation.is_some() as u8);
    std::fs::write(root.join("evidence").join(format!("{}.json", p.id)), ev).expect("write evidence");
    if let Some((fi, idx, how, log)) = violation {
        let path = root.join("out").join(format!("{}-{}.json", p.id, tier.name()));
        let j = format!("{{\n \"property\": {},\n \"tier\": {},\n \"family\": {},\n \"case\": {},\n \"what\": {},\n \"log\": {},\n \"replay\": {}\n}}\n",
            esc(p.id), esc(tier.name()), esc(&fams[fi].name), idx, esc(&how), esc(&log.chars().take(20000).collect::<String>()),
            esc(&format!("bash run.sh replay {}", path.display())));
        std::fs::write(&path, j).expect("write replay");
        println!("{}: family {} case {}: {}", p.id, fams[fi].name, idx, how);
        for l in log.lines().filter(|l| l.starts_with("  ")).take(12) { println!("{l}"); }
        println!("VIOLATION property={} replay={}", p.id, path.display());
        return 1;
    }
    for &i in &skip { println!("{}: not explored, no answer in time: {}", p.id, fams[i].name); }
    if let Some(e) = error { println!("ERROR {}: {e}", p.id); return 2; }
    println!("{}: held on {} executions, {} distinct states, {} comparisons{} ({:.1} s, slowest case {} ms)", p.id, cases, states, trans,
        if capped { ", STOPPED AT THE TIME CAP" } else { "" }, t0.elapsed().as_secs_f64(), slowest);
    0
}
