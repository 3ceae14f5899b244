//! Choice-sequence property-testing engine (Hypothesis style).
//!
//! A case is a function of a `Src`, from which it draws bounded integers ("choices"). In random
//! mode the choices come from a splitmix generator seeded by (VERIF_SEED, property, case index);
//! in replay mode they come from a stored list (0 when exhausted). A failing case is shrunk by
//! editing the list of choices (dropping, zeroing, lowering) as long as the case still fails; the
//! shrunk list is the replay file. The run is a pure function of the code and the seed: the number
//! of cases is fixed per tier, failures are reported by lowest case index.
//!
//! The engine runs the cases in a child process: a crash (SIGSEGV, SIGABRT, ...) is confirmed and
//! shrunk by re-running single cases in further children; a hang or a kill is an error (exit 2).

use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::io::Write;
use std::os::unix::process::ExitStatusExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

// ------------------------------------------------------------------------------------------------
// random numbers

#[derive(Clone)]
pub struct Rng(pub u64);

impl Rng {
    pub fn new(seed: u64) -> Rng { Rng(seed) }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 { if n == 0 { 0 } else { ((self.next() as u128 * n as u128) >> 64) as u64 } }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize { lo + self.below((hi - lo + 1) as u64) as usize }
    pub fn unit(&mut self) -> f64 { (self.next() >> 11) as f64 / (1u64 << 53) as f64 }
    pub fn chance(&mut self, p: f64) -> bool { self.unit() < p }
    /// roughly normal
    pub fn normal(&mut self) -> f64 { (0..12).map(|_| self.unit()).sum::<f64>() - 6.0 }
}

fn mix(a: u64, b: u64) -> u64 {
    let mut r = Rng(a ^ b.rotate_left(32).wrapping_mul(0xD6E8_FEB8_6659_FD93));
    r.next();
    r.next() ^ b
}

fn hash_str(s: &str) -> u64 {
    s.bytes().fold(0xcbf29ce484222325, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3))
}

// ------------------------------------------------------------------------------------------------
// source of choices

pub struct Src {
    rng: Option<Rng>,
    given: Vec<u64>,
    pub record: Vec<u64>,
    log: Option<fs::File>,
}

impl Src {
    pub fn random(seed: u64) -> Src { Src { rng: Some(Rng(seed)), given: vec![], record: vec![], log: None } }
    pub fn replay(given: Vec<u64>) -> Src { Src { rng: None, given, record: vec![], log: None } }

    /// A number in 0..=max.
    pub fn draw(&mut self, max: u64) -> u64 {
        let v = match self.rng {
            Some(ref mut r) => if max == u64::MAX { r.next() } else { r.below(max + 1) },
            None => self.given.get(self.record.len()).cloned().unwrap_or(0).min(max),
        };
        self.record.push(v);
        if let Some(ref mut f) = self.log { let _ = f.write_all(format!("{}\n", v).as_bytes()); }
        v
    }
    /// A number in lo..=hi (shrinks towards lo).
    pub fn range(&mut self, lo: usize, hi: usize) -> usize { lo + self.draw((hi - lo) as u64) as usize }
    /// True with probability num/den (shrinks towards false).
    pub fn chance(&mut self, num: u64, den: u64) -> bool { self.draw(den - 1) >= den - num }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T { let i = self.draw(xs.len() as u64 - 1) as usize; &xs[i] }
    /// Index drawn with the given weights (shrinks towards 0).
    pub fn weighted(&mut self, ws: &[u32]) -> usize {
        let total: u64 = ws.iter().map(|&w| w as u64).sum();
        let mut x = self.draw(total - 1);
        for (i, &w) in ws.iter().enumerate() { if x < w as u64 { return i; } x -= w as u64; }
        ws.len() - 1
    }
    /// A generator for bulk data, seeded by one choice.
    pub fn sub(&mut self) -> Rng { let s = self.draw(u32::MAX as u64); Rng::new(s.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xA5A5) }
    pub fn unit(&mut self) -> f64 { self.draw((1 << 24) - 1) as f64 / (1u64 << 24) as f64 }
}

// ------------------------------------------------------------------------------------------------
// cases

#[derive(Default)]
pub struct Ctx {
    pub nontrivial: bool,
    pub labels: Vec<&'static str>,
    pub describe: bool,
    pub notes: Vec<String>,
    pub counts: BTreeMap<&'static str, u64>,
}

impl Ctx {
    pub fn label(&mut self, l: &'static str) { self.labels.push(l); }
    pub fn label_if(&mut self, c: bool, l: &'static str) { if c { self.labels.push(l); } }
    pub fn count(&mut self, l: &'static str, n: u64) { *self.counts.entry(l).or_insert(0) += n; }
    pub fn note<F: FnOnce() -> String>(&mut self, f: F) { if self.describe { self.notes.push(f()); } }
}

pub type CaseResult = Result<(), String>;
pub type CaseFn = fn(&mut Src, &mut Ctx) -> CaseResult;

pub struct Prop {
    pub id: &'static str,
    pub run: CaseFn,
    pub quick: usize,
    pub thorough: usize,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($arg:tt)*) => { if !($c) { return Err(format!($($arg)*)); } }
}

thread_local! { static PANIC_MSG: RefCell<Option<String>> = RefCell::new(None); }

/// The panic message and location of the last panic caught on this thread.
pub fn last_panic() -> String {
    PANIC_MSG.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into())
}

/// Run `f`, turning a panic into Err(message).
pub fn guarded<T, F: FnOnce() -> T>(f: F) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(e) => {
            let msg = if let Some(s) = e.downcast_ref::<&str>() { s.to_string() }
                      else if let Some(s) = e.downcast_ref::<String>() { s.clone() }
                      else { "?".into() };
            let at = last_panic();
            Err(format!("panic: {} [{}]", msg, at))
        }
    }
}

fn run_case(f: CaseFn, src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    match guarded(|| f(src, ctx)) {
        Ok(r) => r,
        Err(p) => Err(p),
    }
}

fn case_seed(seed: u64, id: &str, index: usize) -> u64 { mix(mix(seed, hash_str(id)), index as u64) }

// ------------------------------------------------------------------------------------------------
// json helpers

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"), '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn clip(s: &str, n: usize) -> String {
    if s.len() <= n { s.to_string() } else {
        let mut k = n; while !s.is_char_boundary(k) { k -= 1; }
        format!("{}... ({} bytes)", &s[..k], s.len())
    }
}

fn write_replay(path: &Path, id: &str, seed: u64, index: usize, choices: &[u64], msg: &str, notes: &[String]) {
    let cs: Vec<String> = choices.iter().map(|c| c.to_string()).collect();
    let ns: Vec<String> = notes.iter().map(|n| jstr(&clip(n, 20000))).collect();
    let s = format!("{{\"property\":{},\"seed\":{},\"index\":{},\"choices\":[{}],\n\"message\":{},\n\"case\":[{}]}}\n",
                    jstr(id), seed, index, cs.join(","), jstr(&clip(msg, 4000)), ns.join(",\n"));
    let _ = fs::create_dir_all(path.parent().unwrap());
    let _ = fs::write(path, s);
}

fn read_choices(path: &str) -> (String, Vec<u64>) {
    let s = fs::read_to_string(path).expect("cannot read replay file");
    let id = s.split("\"property\":\"").nth(1).and_then(|x| x.split('"').next()).expect("no property").to_string();
    let c = s.split("\"choices\":[").nth(1).and_then(|x| x.split(']').next()).expect("no choices");
    let choices = c.split(',').filter_map(|x| x.trim().parse::<u64>().ok()).collect();
    (id, choices)
}

// ------------------------------------------------------------------------------------------------
// shrinking

fn shrink(choices: Vec<u64>, budget: usize, fails: &mut dyn FnMut(&[u64]) -> Option<Vec<u64>>) -> Vec<u64> {
    // `fails` returns the choices actually used if the case still fails
    let mut best = choices;
    let mut left = budget;
    macro_rules! attempt { ($cand:expr) => {{
        if left == 0 { return best; }
        left -= 1;
        let cand: Vec<u64> = $cand;
        match fails(&cand) {
            Some(used) if (used.len(), &used) < (best.len(), &best) => { best = used; true }
            _ => false,
        }
    }}}
    loop {
        let before = best.clone();
        // drop chunks
        let mut size = (best.len() / 2).max(1).min(64);
        while size >= 1 {
            let mut i = best.len();
            while i >= size {
                i -= size;
                if i + size > best.len() { continue; }
                let mut c = best.clone();
                c.drain(i..i + size);
                attempt!(c);
            }
            if size == 1 { break; }
            size /= 2;
        }
        // zero, then lower
        let mut i = 0;
        while i < best.len() {
            if best[i] != 0 {
                let mut c = best.clone();
                c[i] = 0;
                if !attempt!(c) && i < best.len() && best[i] > 1 {
                    let (mut lo, mut hi) = (0u64, best[i]);
                    while lo + 1 < hi {
                        let mid = lo + (hi - lo) / 2;
                        if i >= best.len() { break; }
                        let mut c = best.clone();
                        c[i] = mid;
                        if attempt!(c) { hi = mid; } else { lo = mid; }
                    }
                }
            }
            i += 1;
        }
        if best == before { return best; }
    }
}

// ------------------------------------------------------------------------------------------------
// child: run cases

fn in_pool<T: Send, F: FnOnce() -> T + Send>(f: F) -> T {
    rayon::ThreadPoolBuilder::new().num_threads(1).stack_size(16 << 20).build().unwrap().install(f)
}

fn silence_stdout() {
    unsafe {
        let null = libc::open(b"/dev/null\0".as_ptr() as *const _, libc::O_WRONLY);
        libc::dup2(null, 1);
        libc::close(null);
    }
}

fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let at = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC_MSG.with(|p| *p.borrow_mut() = Some(at));
    }));
}

struct Total {
    evaluations: u64,
    nontrivial: u64,
    distinct: HashSet<u64>,
    labels: BTreeMap<&'static str, u64>,
    counts: BTreeMap<&'static str, u64>,
    failure: Option<(usize, Vec<u64>, String)>,
    known: BTreeMap<String, u64>,
}

fn load_known(id: &str) -> Vec<(String, String)> {
    // lines: known: property=<id> sig=<signature> <what fails>
    let path = format!("{}/known_findings.txt", verif_dir());
    let mut v = vec![];
    for l in fs::read_to_string(path).unwrap_or_default().lines() {
        if let Some(rest) = l.strip_prefix(&format!("known: property={} sig=", id)) {
            let mut it = rest.splitn(2, ' ');
            v.push((it.next().unwrap().to_string(), it.next().unwrap_or("").to_string()));
        }
    }
    v
}

fn verif_dir() -> String { std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()) }

fn is_known(known: &[(String, String)], msg: &str) -> Option<String> {
    for (s, _) in known { if msg.starts_with(&format!("[{}]", s)) { return Some(s.clone()); } }
    None
}

fn child_run(p: &Prop, seed: u64, ncases: usize, nthreads: usize, dir: &Path) {
    use std::os::unix::fs::FileExt;
    install_hook();
    limit_memory();
    silence_stdout();
    let known = load_known(p.id);
    let crash_only = std::env::var("VERIF_CRASH_ONLY").is_ok();
    let next = AtomicUsize::new(0);
    let stop_at = AtomicUsize::new(usize::MAX);
    let inflight = fs::OpenOptions::new().create(true).write(true).open(dir.join("inflight")).unwrap();
    let total = Mutex::new(Total { evaluations: 0, nontrivial: 0, distinct: HashSet::new(),
        labels: BTreeMap::new(), counts: BTreeMap::new(), failure: None, known: BTreeMap::new() });
    std::thread::scope(|s| {
        for w in 0..nthreads {
            let (next, stop_at, inflight, total, known) = (&next, &stop_at, &inflight, &total, &known);
            s.spawn(move || in_pool(|| {
                let mut t = Total { evaluations: 0, nontrivial: 0, distinct: HashSet::new(),
                    labels: BTreeMap::new(), counts: BTreeMap::new(), failure: None, known: BTreeMap::new() };
                loop {
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    if i >= ncases || i > stop_at.load(Ordering::SeqCst) { break; }
                    let _ = inflight.write_at(&(i as u64 + 1).to_le_bytes(), w as u64 * 8);
                    let mut src = Src::random(case_seed(seed, p.id, i));
                    let mut ctx = Ctx::default();
                    let r = run_case(p.run, &mut src, &mut ctx);
                    t.evaluations += 1;
                    for l in &ctx.labels { *t.labels.entry(l).or_insert(0) += 1; }
                    for (l, n) in &ctx.counts { *t.counts.entry(l).or_insert(0) += n; }
                    if ctx.nontrivial {
                        t.nontrivial += 1;
                        let h = src.record.iter().fold(0xcbf29ce484222325u64, |h, &c| mix(h, c));
                        t.distinct.insert(h);
                    }
                    if let Err(msg) = r {
                        if crash_only { *t.labels.entry("failures of another kind").or_insert(0) += 1; }
                        else if let Some(sig) = is_known(known, &msg) {
                            *t.known.entry(sig).or_insert(0) += 1;
                        } else {
                            stop_at.fetch_min(i, Ordering::SeqCst);
                            if t.failure.as_ref().map_or(true, |f| i < f.0) {
                                t.failure = Some((i, src.record.clone(), msg));
                            }
                        }
                    }
                }
                let _ = inflight.write_at(&0u64.to_le_bytes(), w as u64 * 8);
                let mut g = total.lock().unwrap();
                g.evaluations += t.evaluations;
                g.nontrivial += t.nontrivial;
                g.distinct.extend(t.distinct);
                for (l, n) in t.labels { *g.labels.entry(l).or_insert(0) += n; }
                for (l, n) in t.counts { *g.counts.entry(l).or_insert(0) += n; }
                for (l, n) in t.known { *g.known.entry(l).or_insert(0) += n; }
                if let Some(f) = t.failure {
                    if g.failure.as_ref().map_or(true, |h| f.0 < h.0) { g.failure = Some(f); }
                }
            }));
        }
    });
    let t = total.into_inner().unwrap();
    // samples: re-run the first non-trivial cases with descriptions switched on
    let mut samples: Vec<String> = vec![];
    if t.failure.is_none() {
        let (tx, rx) = (&mut samples, ());
        let _ = rx;
        in_pool(|| {
            let mut got = 0;
            for i in 0..ncases.min(40) {
                if got >= 3 { break; }
                let mut src = Src::random(case_seed(seed, p.id, i));
                let mut ctx = Ctx { describe: true, ..Ctx::default() };
                let _ = run_case(p.run, &mut src, &mut ctx);
                if ctx.nontrivial && !ctx.notes.is_empty() {
                    got += 1;
                    tx.push(clip(&format!("case {}: {}", i, ctx.notes.join("; ")), 1500));
                }
            }
        });
    }
    let mut o = String::new();
    let lab: Vec<String> = t.labels.iter().map(|(k, v)| format!("{}:{}", jstr(k), v)).collect();
    let cnt: Vec<String> = t.counts.iter().map(|(k, v)| format!("{}:{}", jstr(k), v)).collect();
    let sam: Vec<String> = samples.iter().map(|s| jstr(s)).collect();
    let kno: Vec<String> = t.known.iter().map(|(k, v)| format!("{}:{}", jstr(k), v)).collect();
    o.push_str(&format!("\"evaluations\":{},\"nontrivial_evaluations\":{},\"distinct_nontrivial\":{},\"rule\":{},\"labels\":{{{}}},\"counters\":{{{}}},\"known_findings_met\":{{{}}},\"samples\":[{}]",
        t.evaluations, t.nontrivial, t.distinct.len(), jstr(p.rule), lab.join(","), cnt.join(","), kno.join(","), sam.join(",")));
    fs::write(dir.join("coverage"), o).unwrap();
    if let Some((i, choices, msg)) = t.failure {
        // first record the unshrunk failure, then shrink it
        let path = dir.join("failure.json");
        let save = |choices: &[u64], msg: &str, notes: &[String]| {
            let tmp = dir.join("failure.tmp");
            write_replay(&tmp, p.id, seed, i, choices, msg, notes);
            let _ = fs::rename(&tmp, &path);
        };
        save(&choices, &msg, &[]);
        in_pool(|| {
            let known = load_known(p.id);
            let best = shrink(choices, 1200, &mut |c: &[u64]| {
                let mut src = Src::replay(c.to_vec());
                let mut ctx = Ctx::default();
                match run_case(p.run, &mut src, &mut ctx) {
                    Err(m) if is_known(&known, &m).is_none() => Some(src.record),
                    _ => None,
                }
            });
            let mut src = Src::replay(best);
            let mut ctx = Ctx { describe: true, ..Ctx::default() };
            if let Err(m) = run_case(p.run, &mut src, &mut ctx) { save(&src.record, &m, &ctx.notes); }
        });
    }
    fs::write(dir.join("done"), b"1").unwrap();
}

/// Run one case (random by index or replay); exit code 0 pass, 1 fail. Logs choices when asked.
fn child_one(p: &Prop, mut src: Src, log: Option<PathBuf>, verbose: bool) -> i32 {
    install_hook();
    limit_memory();
    if !verbose { silence_stdout(); }
    if let Some(l) = log { src.log = Some(fs::File::create(l).unwrap()); }
    let out = in_pool(|| {
        let mut ctx = Ctx { describe: verbose, ..Ctx::default() };
        let r = run_case(p.run, &mut src, &mut ctx);
        (r, ctx.notes, ctx.labels)
    });
    if verbose {
        for n in &out.1 { eprintln!("  {}", clip(n, 6000)); }
        eprintln!("  labels: {:?}", out.2);
    }
    match out.0 {
        Ok(()) => { if verbose { eprintln!("PASS"); } 0 },
        Err(m) => { eprintln!("FAIL: {}", m); 1 },
    }
}

// ------------------------------------------------------------------------------------------------
// parent

fn wait_for(mut child: std::process::Child, limit: Duration) -> Option<std::process::ExitStatus> {
    let start = Instant::now();
    loop {
        if let Some(st) = child.try_wait().unwrap() { return Some(st); }
        if start.elapsed() > limit { let _ = child.kill(); let _ = child.wait(); return None; }
        std::thread::sleep(Duration::from_millis(if start.elapsed().as_millis() < 500 { 2 } else { 20 }));
    }
}

/// A case that runs this long (ordinary ones take milliseconds) is taken to hang.
const HANG_SECS: u64 = 90;

/// Wait for the child; end it when one case is in flight for too long.
fn watch(mut child: std::process::Child, limit: Duration, inflight: &Path) -> (Option<std::process::ExitStatus>, Option<u64>) {
    let start = Instant::now();
    let mut seen: Vec<(u64, Instant)> = vec![];
    loop {
        if let Some(st) = child.try_wait().unwrap() { return (Some(st), None); }
        let now = Instant::now();
        let mut stuck = None;
        if let Ok(b) = fs::read(inflight) {
            for (w, c) in b.chunks(8).enumerate() {
                if c.len() < 8 { continue; }
                let i = u64::from_le_bytes([c[0], c[1], c[2], c[3], c[4], c[5], c[6], c[7]]);
                if seen.len() <= w { seen.resize(w + 1, (0, now)); }
                if seen[w].0 != i { seen[w] = (i, now); }
                else if i > 0 && now.duration_since(seen[w].1) > Duration::from_secs(HANG_SECS) { stuck = Some(i - 1); }
            }
        }
        if stuck.is_some() || start.elapsed() > limit { let _ = child.kill(); let _ = child.wait(); return (None, stuck); }
        std::thread::sleep(Duration::from_millis(if start.elapsed().as_millis() < 500 { 2 } else { 50 }));
    }
}

fn limit_memory() {
    // an allocation gone wild ends in an abort instead of an out-of-memory kill (not with ASan)
    if std::env::var("VERIF_NOLIMIT").is_err() {
        let l = libc::rlimit { rlim_cur: 20 << 30, rlim_max: 20 << 30 };
        unsafe { libc::setrlimit(libc::RLIMIT_AS, &l); }
    }
}

fn is_crash(st: &std::process::ExitStatus) -> bool {
    if let Some(c) = st.code() { return c == 86; } // sanitizer exit code
    match st.signal() {
        Some(s) => [libc::SIGSEGV, libc::SIGBUS, libc::SIGABRT, libc::SIGILL, libc::SIGFPE, libc::SIGTRAP].contains(&s),
        None => false,
    }
}

fn parent(p: &Prop, extra_args: &[String]) -> i32 {
    let start = Instant::now();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = match std::env::var("VERIF_TIER") { Ok(ref t) if t == "thorough" => "thorough", _ => "quick" };
    let base = if tier == "thorough" { p.thorough } else { p.quick };
    let scale: f64 = std::env::var("VERIF_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let ncases = ((base as f64 * scale) as usize).max(1);
    let report_as = std::env::var("VERIF_AS").unwrap_or_else(|_| p.id.to_string());
    let limit = Duration::from_secs(if tier == "thorough" { 5400 } else { 780 });
    let nthreads = std::env::var("VERIF_THREADS").ok().and_then(|s| s.parse().ok())
        .unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16));
    let _ = extra_args;

    let dir = PathBuf::from(format!("{}/target/run/{}-{}", verif_dir(), report_as, std::process::id()));
    fs::create_dir_all(&dir).unwrap();
    let exe = std::env::current_exe().unwrap();
    let spawn = |args: &[String]| Command::new(&exe).args(args)
        .stdin(Stdio::null()).stdout(Stdio::null())
        .stderr(fs::OpenOptions::new().create(true).append(true).open(dir.join("stderr")).unwrap())
        .spawn().unwrap();
    let a = |xs: &[&str]| -> Vec<String> { xs.iter().map(|s| s.to_string()).collect() };

    let child = spawn(&a(&["child", p.id, &seed.to_string(), &ncases.to_string(), &nthreads.to_string(), dir.to_str().unwrap()]));
    let (st, stuck) = watch(child, limit, &dir.join("inflight"));
    let cleanup = || { let _ = fs::remove_dir_all(&dir); };
    let replay_path = |n: &str| PathBuf::from(format!("{}/replays/{}-{}.json", verif_dir(), report_as, n));

    let mut violations = 0;
    let mut replay: Option<PathBuf> = None;
    let mut message = String::new();
    let mut coverage = fs::read_to_string(dir.join("coverage")).ok();
    let failure = dir.join("failure.json");
    if failure.exists() {
        let path = replay_path(&format!("seed{}", seed));
        let _ = fs::create_dir_all(path.parent().unwrap());
        let text = fs::read_to_string(&failure).unwrap();
        message = text.split("\"message\":").nth(1).unwrap_or("").lines().next().unwrap_or("").to_string();
        fs::write(&path, text).unwrap();
        violations = 1;
        replay = Some(path);
    } else {
        match st {
            None if stuck.is_some() && std::env::var("VERIF_CRASH_ONLY").is_ok() => {
                eprintln!("{}: case {} does not end (not judged here)", p.id, stuck.unwrap());
            }
            None if stuck.is_some() => {
                // a case that does not end: confirm it alone
                let i = stuck.unwrap();
                let log = dir.join("choices");
                let alone = wait_for(spawn(&a(&["one", p.id, &seed.to_string(), &i.to_string(), log.to_str().unwrap()])), Duration::from_secs(HANG_SECS));
                if alone.is_some() {
                    eprintln!("error: case {} of {} took over {} s but ends when run alone", i, p.id, HANG_SECS);
                    cleanup();
                    return 2;
                }
                let choices: Vec<u64> = fs::read_to_string(&log).unwrap_or_default().lines().filter_map(|l| l.parse().ok()).collect();
                let path = replay_path(&format!("seed{}", seed));
                let m = format!("case {} does not finish within {} s", i, HANG_SECS);
                write_replay(&path, p.id, seed, i as usize, &choices, &m, &[]);
                message = jstr(&m);
                violations = 1;
                replay = Some(path);
                coverage = None;
            }
            None => { eprintln!("error: {} did not finish within {:?}", p.id, limit); cleanup(); return 2; }
            Some(ref s) if s.success() && dir.join("done").exists() => {}
            Some(ref s) if is_crash(s) => {
                // confirm by running the in-flight cases alone
                let bytes = fs::read(dir.join("inflight")).unwrap_or_default();
                let mut idx: Vec<u64> = bytes.chunks(8).filter(|c| c.len() == 8)
                    .map(|c| u64::from_le_bytes([c[0], c[1], c[2], c[3], c[4], c[5], c[6], c[7]]))
                    .filter(|&i| i > 0).map(|i| i - 1).collect();
                idx.sort();
                let log = dir.join("choices");
                let crashes = |args: &[String]| -> Option<Vec<u64>> {
                    let _ = fs::remove_file(&log);
                    let st = wait_for(spawn(args), Duration::from_secs(120));
                    match st {
                        Some(ref s) if is_crash(s) || (s.code() == Some(1) && std::env::var("VERIF_CRASH_ONLY").is_err()) => {
                            let t = fs::read_to_string(&log).unwrap_or_default();
                            Some(t.lines().filter_map(|l| l.parse().ok()).collect())
                        }
                        _ => None,
                    }
                };
                for i in idx {
                    let c = crashes(&a(&["one", p.id, &seed.to_string(), &i.to_string(), log.to_str().unwrap()]));
                    if let Some(choices) = c {
                        let cfile = dir.join("cand.json");
                        let best = shrink(choices, 150, &mut |c: &[u64]| {
                            write_replay(&cfile, p.id, seed, i as usize, c, "", &[]);
                            crashes(&a(&["onereplay", cfile.to_str().unwrap(), log.to_str().unwrap()]))
                        });
                        let path = replay_path(&format!("seed{}", seed));
                        message = jstr(&format!("the process crashed ({:?}) in case {}", s, i));
                        write_replay(&path, p.id, seed, i as usize, &best, &format!("crash: {:?}", s), &[]);
                        violations = 1;
                        replay = Some(path);
                        break;
                    }
                }
                if violations == 0 {
                    eprintln!("error: {} crashed ({:?}) but no single case reproduces it", p.id, s);
                    eprintln!("{}", clip(&fs::read_to_string(dir.join("stderr")).unwrap_or_default(), 4000));
                    cleanup();
                    return 2;
                }
                coverage = Some(format!("\"evaluations\":0,\"distinct_nontrivial\":0,\"rule\":{},\"samples\":[]", jstr(p.rule)));
            }
            Some(ref s) => {
                eprintln!("error: {} ended with {:?}", p.id, s);
                eprintln!("{}", clip(&fs::read_to_string(dir.join("stderr")).unwrap_or_default(), 4000));
                cleanup();
                return 2;
            }
        }
    }
    let cov = coverage.unwrap_or_else(|| format!("\"evaluations\":0,\"distinct_nontrivial\":0,\"rule\":{},\"samples\":[]", jstr(p.rule)));
    let asm: Vec<String> = p.assumptions.iter().map(|s| jstr(s)).collect();
    let ev = format!("{{\"property\":{},\"tier\":\"{}\",\"seed\":{},\"level\":\"exploration\",\n\"coverage\":{{{}}},\n\"assumptions\":[{}],\n\"wall_s\":{:.2},\"violations\":{}}}\n",
        jstr(&report_as), tier, seed, cov, asm.join(","), start.elapsed().as_secs_f64(), violations);
    let evp = PathBuf::from(std::env::var("VERIF_EVIDENCE").unwrap_or_else(|_| format!("{}/evidence/{}.json", verif_dir(), report_as)));
    let _ = fs::create_dir_all(evp.parent().unwrap());
    fs::write(&evp, ev).unwrap();
    cleanup();
    for (sig, what) in load_known(p.id) { println!("KNOWN-FINDING: property={} {} ({})", report_as, what, sig); }
    if let Some(r) = replay {
        println!("{}", clip(&message, 3000));
        println!("VIOLATION property={} replay={}", report_as, r.display());
        return 1;
    }
    let get = |k: &str| cov.split(&format!("\"{}\":", k)).nth(1).and_then(|s| s.split(',').next()).unwrap_or("?").to_string();
    println!("ok property={} cases={} distinct_nontrivial={} wall={:.1}s", report_as, get("evaluations"), get("distinct_nontrivial"), start.elapsed().as_secs_f64());
    if std::env::var("VERIF_SHOW").is_ok() { println!("{}", cov); }
    0
}

pub fn main_with(props: &[Prop]) -> ! {
    let args: Vec<String> = std::env::args().collect();
    let find = |id: &str| props.iter().find(|p| p.id == id).unwrap_or_else(|| { eprintln!("unknown property {}", id); std::process::exit(2) });
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("run") => parent(find(&args[2]), &args[3..]),
        Some("child") => {
            child_run(find(&args[2]), args[3].parse().unwrap(), args[4].parse().unwrap(), args[5].parse().unwrap(), Path::new(&args[6]));
            0
        }
        Some("one") => {
            let p = find(&args[2]);
            let i: usize = args[4].parse().unwrap();
            child_one(p, Src::random(case_seed(args[3].parse().unwrap(), p.id, i)), args.get(5).map(PathBuf::from), args.get(5).is_none())
        }
        Some("onereplay") => {
            let (id, c) = read_choices(&args[2]);
            child_one(find(&id), Src::replay(c), args.get(3).map(PathBuf::from), false)
        }
        Some("replay") => {
            let (id, c) = read_choices(&args[2]);
            child_one(find(&id), Src::replay(c), None, true)
        }
        Some("list") => { for p in props { println!("{}", p.id); } 0 }
        _ => { eprintln!("usage: run ID | replay FILE | one ID SEED INDEX | list"); 2 }
    };
    std::process::exit(code)
}
