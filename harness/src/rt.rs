//! Runtime of the monitors: random numbers, case runner, verdicts, evidence.

use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::hash::{Hash, Hasher};
use std::io::Write as _;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- random numbers

#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0x9E37_79B9_7F4A_7C15);
        r.next();
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            0
        } else {
            (self.next() % n as u64) as usize
        }
    }
    pub fn range(&mut self, lo: usize, hi_incl: usize) -> usize {
        lo + self.below(hi_incl - lo + 1)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.below(xs.len());
        &xs[i]
    }
    pub fn u8(&mut self) -> u8 {
        self.next() as u8
    }
    pub fn u32(&mut self) -> u32 {
        self.next() as u32
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.u8()).collect()
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            let j = self.below(i + 1);
            xs.swap(i, j);
        }
    }
    pub fn fork(&mut self) -> Rng {
        Rng::new(self.next())
    }
    /// Cut data in pieces at random positions
    pub fn split(&mut self, data: &[u8], max_pieces: usize) -> Vec<Vec<u8>> {
        let mut out = Vec::new();
        if data.is_empty() {
            return out;
        }
        let pieces = self.range(1, max_pieces.max(1));
        let mut cuts: Vec<usize> = (1..pieces).map(|_| self.below(data.len() + 1)).collect();
        cuts.push(0);
        cuts.push(data.len());
        cuts.sort_unstable();
        for w in cuts.windows(2) {
            if w[0] < w[1] {
                out.push(data[w[0]..w[1]].to_vec());
            }
        }
        out
    }
}

pub fn hash_of<T: Hash + ?Sized>(x: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

// ---------------------------------------------------------------- verdicts

#[derive(Debug, Clone)]
pub enum Fail {
    /// The property was observed to be broken
    Violation(String),
    /// Something which must happen did not happen within its (generous) deadline
    Late(String),
    /// The harness itself could not do its work
    Inconclusive(String),
}

pub type R<T = ()> = Result<T, Fail>;

pub fn viol<T>(s: impl Into<String>) -> R<T> {
    Err(Fail::Violation(s.into()))
}
pub fn late<T>(s: impl Into<String>) -> R<T> {
    Err(Fail::Late(s.into()))
}
pub fn inconc<T>(s: impl Into<String>) -> R<T> {
    Err(Fail::Inconclusive(s.into()))
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $($arg:tt)*) => {
        if !($cond) {
            return Err($crate::rt::Fail::Violation(format!($($arg)*)));
        }
    };
}

impl Fail {
    pub fn ctx(self, s: &str) -> Fail {
        match self {
            Fail::Violation(x) => Fail::Violation(format!("{s}: {x}")),
            Fail::Late(x) => Fail::Late(format!("{s}: {x}")),
            Fail::Inconclusive(x) => Fail::Inconclusive(format!("{s}: {x}")),
        }
    }
}

pub trait WithCtx<T> {
    fn what(self, s: impl AsRef<str>) -> R<T>;
}
impl<T> WithCtx<T> for R<T> {
    fn what(self, s: impl AsRef<str>) -> R<T> {
        self.map_err(|e| e.ctx(s.as_ref()))
    }
}

/// Deadline of things which must happen
pub const DEADLINE: Duration = Duration::from_secs(12);

pub fn show(b: &[u8]) -> String {
    let mut s = String::new();
    for &c in b.iter().take(120) {
        match c {
            b'\\' => s.push_str("\\\\"),
            0x20..=0x7e => s.push(c as char),
            b'\n' => s.push_str("\\n"),
            b'\r' => s.push_str("\\r"),
            _ => {
                let _ = write!(s, "\\x{c:02x}");
            }
        }
    }
    if b.len() > 120 {
        let _ = write!(s, "...({} bytes)", b.len());
    }
    s
}

/// Describe the first difference of two byte strings
pub fn diff(got: &[u8], want: &[u8]) -> String {
    let i = got
        .iter()
        .zip(want.iter())
        .position(|(a, b)| a != b)
        .unwrap_or(got.len().min(want.len()));
    let lo = i.saturating_sub(12);
    format!(
        "differs at byte {i} (got {} bytes, want {}): got ..{}, want ..{}",
        got.len(),
        want.len(),
        show(&got[lo.min(got.len())..]),
        show(&want[lo.min(want.len())..])
    )
}

// ---------------------------------------------------------------- starvation canary, panics

static CANARY_LAST_GAP_MS: AtomicU64 = AtomicU64::new(0);
static CANARY_LAST_GAP_AT_MS: AtomicU64 = AtomicU64::new(0);
static BEAT_MS: AtomicU64 = AtomicU64::new(0);
static QUIET_PANICS: AtomicBool = AtomicBool::new(true);
pub static PANICS: Mutex<Vec<(String, String)>> = Mutex::new(Vec::new());
pub static CURRENT_CASE: Mutex<BTreeMap<String, String>> = Mutex::new(BTreeMap::new());

fn start() -> Instant {
    static S: std::sync::OnceLock<Instant> = std::sync::OnceLock::new();
    *S.get_or_init(Instant::now)
}


pub fn now_ms() -> u64 {
    start().elapsed().as_millis() as u64
}

pub fn beat() {
    BEAT_MS.store(now_ms(), Ordering::Relaxed);
}

/// Did this process get no cpu for a noticeable time since `since_ms`?
pub fn starved_since(since_ms: u64) -> bool {
    CANARY_LAST_GAP_AT_MS.load(Ordering::Relaxed) >= since_ms
        && CANARY_LAST_GAP_MS.load(Ordering::Relaxed) > 0
}

pub fn init() {
    start();
    beat();
    std::thread::Builder::new()
        .name("canary".into())
        .spawn(|| {
            let mut last = Instant::now();
            loop {
                std::thread::sleep(Duration::from_millis(20));
                let gap = last.elapsed().as_millis() as u64;
                if gap > 1500 {
                    CANARY_LAST_GAP_MS.store(gap, Ordering::Relaxed);
                    CANARY_LAST_GAP_AT_MS.store(now_ms(), Ordering::Relaxed);
                }
                last = Instant::now();
            }
        })
        .unwrap();
    std::panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        if !QUIET_PANICS.load(Ordering::Relaxed) || loc.starts_with("src/") {
            eprintln!("panic at {loc}: {msg}");
        }
        if let Ok(mut p) = PANICS.lock() {
            p.push((loc, msg));
        }
    }));
}

/// Panics which did not happen in the harness itself
pub fn foreign_panics() -> Vec<(String, String)> {
    PANICS
        .lock()
        .unwrap()
        .iter()
        .filter(|(loc, _)| !loc.starts_with("src/"))
        .cloned()
        .collect()
}

// ---------------------------------------------------------------- allocation counter

pub struct CountingAlloc;
static LIVE: AtomicU64 = AtomicU64::new(0);
static PEAK_REQ: AtomicU64 = AtomicU64::new(0);

unsafe impl std::alloc::GlobalAlloc for CountingAlloc {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        LIVE.fetch_add(l.size() as u64, Ordering::Relaxed);
        PEAK_REQ.fetch_max(l.size() as u64, Ordering::Relaxed);
        std::alloc::System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        LIVE.fetch_sub(l.size() as u64, Ordering::Relaxed);
        std::alloc::System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        LIVE.fetch_add(n as u64, Ordering::Relaxed);
        LIVE.fetch_sub(l.size() as u64, Ordering::Relaxed);
        PEAK_REQ.fetch_max(n as u64, Ordering::Relaxed);
        std::alloc::System.realloc(p, l, n)
    }
}

/// The largest allocation ever asked for
pub fn peak_request() -> u64 {
    PEAK_REQ.load(Ordering::Relaxed)
}

pub fn live_bytes() -> u64 {
    LIVE.load(Ordering::Relaxed)
}

// ---------------------------------------------------------------- check context

#[derive(Default)]
struct Inner {
    evals: u64,
    distinct: HashSet<u64>,
    samples: Vec<String>,
    counters: BTreeMap<String, u64>,
    sets: BTreeMap<String, HashSet<u64>>,
    violations: Vec<(String, String)>,
    inconclusive: Vec<String>,
    known: Vec<String>,
    retries: u64,
}

pub struct Ctx {
    pub id: String,
    pub seed: u64,
    pub thorough: bool,
    only: Option<(String, u64)>,
    rule: Mutex<String>,
    inner: Mutex<Inner>,
    stop: AtomicBool,
}

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

impl Ctx {
    pub fn new(id: &str, seed: u64, thorough: bool, only: Option<(String, u64)>) -> Self {
        Ctx {
            id: id.to_string(),
            seed,
            thorough,
            only,
            rule: Mutex::new(String::new()),
            inner: Mutex::new(Inner::default()),
            stop: AtomicBool::new(false),
        }
    }

    /// State how cases are made and what makes one non-trivial
    pub fn rule(&self, s: &str) {
        *self.rule.lock().unwrap() = s.to_string();
    }

    pub fn rule_also(&self, s: &str) {
        self.rule.lock().unwrap().push_str(s);
    }

    pub fn n(&self, quick: usize, thorough: usize) -> usize {
        if self.thorough {
            thorough
        } else {
            quick
        }
    }

    /// One execution was judged
    pub fn eval(&self, key: u64, nontrivial: bool, sample: impl FnOnce() -> String) {
        let mut i = self.inner.lock().unwrap();
        i.evals += 1;
        if nontrivial && i.distinct.insert(key) {
            let d = i.distinct.len();
            if d <= 2 || (d.is_power_of_two() && i.samples.len() < 10) {
                let s = sample();
                let s = if s.len() > 600 {
                    let mut k = 600;
                    while !s.is_char_boundary(k) {
                        k -= 1;
                    }
                    format!("{}...", &s[..k])
                } else {
                    s
                };
                i.samples.push(s);
            }
        }
    }

    pub fn count(&self, name: &str, n: u64) {
        let mut i = self.inner.lock().unwrap();
        if let Some(c) = i.counters.get_mut(name) {
            *c += n;
        } else {
            i.counters.insert(name.to_string(), n);
        }
    }

    /// Remember a distinct state/interleaving
    pub fn seen(&self, name: &str, key: u64) {
        let mut i = self.inner.lock().unwrap();
        if !i.sets.contains_key(name) {
            i.sets.insert(name.to_string(), HashSet::new());
        }
        i.sets.get_mut(name).unwrap().insert(key);
    }

    /// A defect was observed. Listed in known_findings.txt it is only reported as known,
    /// otherwise it is a violation.
    pub fn finding(&self, key: &str, what: &str) -> R {
        let dir = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into());
        let listed = std::fs::read_to_string(format!("{dir}/known_findings.txt"))
            .unwrap_or_default()
            .lines()
            .any(|l| {
                l.starts_with(&format!("KNOWN-FINDING: property={} key={key} ", self.id))
            });
        if !listed {
            return viol(format!("{key}: {what}"));
        }
        let s = format!("key={key} {what}");
        let mut i = self.inner.lock().unwrap();
        if !i.known.contains(&s) {
            i.known.push(s);
        }
        Ok(())
    }

    pub fn counter(&self, name: &str) -> u64 {
        *self.inner.lock().unwrap().counters.get(name).unwrap_or(&0)
    }

    pub fn stopped(&self) -> bool {
        self.stop.load(Ordering::Relaxed)
    }

    fn set_case(&self, section: &str, idx: u64) {
        let name = std::thread::current()
            .name()
            .unwrap_or("unnamed")
            .to_string();
        CURRENT_CASE
            .lock()
            .unwrap()
            .insert(name, format!("{section}:{idx}"));
        beat();
    }

    fn run_case(&self, section: &str, idx: u64, f: &(dyn Fn(&mut Rng, u64) -> R + Sync)) {
        self.set_case(section, idx);
        let mut attempt = 0;
        loop {
            attempt += 1;
            let t0 = now_ms();
            let mut rng = Rng::new(hash_of(&(self.seed, section, idx)));
            let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut rng, idx)));
            beat();
            let fail = match res {
                Ok(Ok(())) => return,
                Ok(Err(f)) => f,
                Err(p) => {
                    let msg = p
                        .downcast_ref::<String>()
                        .cloned()
                        .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                        .unwrap_or_default();
                    let loc = PANICS
                        .lock()
                        .unwrap()
                        .iter()
                        .rev()
                        .find(|(_, m)| *m == msg)
                        .map(|x| x.0.clone())
                        .unwrap_or_default();
                    if loc.starts_with("src/") {
                        Fail::Inconclusive(format!("harness panicked at {loc}: {msg}"))
                    } else {
                        // The code under test was called directly and panicked
                        Fail::Violation(format!("panicked at {loc}: {msg}"))
                    }
                }
            };
            match fail {
                Fail::Violation(s) => {
                    self.report(section, idx, &s);
                    return;
                }
                Fail::Late(s) => {
                    if starved_since(t0) {
                        if attempt < 4 {
                            self.inner.lock().unwrap().retries += 1;
                            continue;
                        }
                        self.inconclusive(section, idx, &format!("starved: {s}"));
                        return;
                    }
                    self.report(section, idx, &s);
                    return;
                }
                Fail::Inconclusive(s) => {
                    if attempt < 4 {
                        self.inner.lock().unwrap().retries += 1;
                        std::thread::sleep(Duration::from_millis(200 * attempt));
                        continue;
                    }
                    self.inconclusive(section, idx, &s);
                    return;
                }
            }
        }
    }

    fn report(&self, section: &str, idx: u64, s: &str) {
        let panics = foreign_panics();
        let mut s = s.to_string();
        if s.len() > 3000 {
            // The verdict is at one of the ends
            let head: String = s.chars().take(1200).collect();
            let n = s.chars().count();
            let tail: String = s.chars().skip(n.saturating_sub(1500)).collect();
            s = format!("{head} ... {tail}");
        }
        if let Some((l, m)) = panics.first() {
            let _ = write!(s, " [panic seen at {l}: {m}]");
        }
        self.inner
            .lock()
            .unwrap()
            .violations
            .push((format!("{section}:{idx}"), s));
        self.stop.store(true, Ordering::Relaxed);
    }

    fn inconclusive(&self, section: &str, idx: u64, s: &str) {
        self.inner
            .lock()
            .unwrap()
            .inconclusive
            .push(format!("{section}:{idx}: {s}"));
    }

    /// Run `n` cases of a section, one after another, for at most `cap` seconds
    pub fn cases(
        &self,
        section: &str,
        n: usize,
        cap: u64,
        f: impl Fn(&mut Rng, u64) -> R + Sync,
    ) {
        self.cases_par(section, n, cap, 1, f)
    }

    /// Run `n` cases of a section on `par` threads, for at most `cap` seconds
    pub fn cases_par(
        &self,
        section: &str,
        n: usize,
        cap: u64,
        par: usize,
        f: impl Fn(&mut Rng, u64) -> R + Sync,
    ) {
        if let Some((s, i)) = &self.only {
            if s == section {
                self.run_case(section, *i, &f);
                self.count(&format!("cases {section}"), 1);
            }
            return;
        }
        if self.stopped() {
            return;
        }
        let t0 = Instant::now();
        let next = AtomicU64::new(0);
        let done = AtomicU64::new(0);
        std::thread::scope(|sc| {
            for t in 0..par.max(1) {
                let (f, next, done) = (&f, &next, &done);
                std::thread::Builder::new()
                    .name(format!("case-{section}-{t}"))
                    .stack_size(4 << 20)
                    .spawn_scoped(sc, move || loop {
                        if self.stopped() {
                            break;
                        }
                        let i = next.fetch_add(1, Ordering::Relaxed);
                        if i >= n as u64 || (t0.elapsed().as_secs() >= cap && i > 0) {
                            break;
                        }
                        self.run_case(section, i, f);
                        done.fetch_add(1, Ordering::Relaxed);
                    })
                    .unwrap();
            }
        });
        self.count(
            &format!("cases {section}"),
            done.load(Ordering::Relaxed),
        );
        if std::env::var("VERIF_VERBOSE").is_ok() {
            eprintln!(
                "{} {section}: {} cases in {:.1} s",
                self.id,
                done.load(Ordering::Relaxed),
                t0.elapsed().as_secs_f64()
            );
        }
    }

    /// A panic of a server counts as a violation (used by the checks of crashes)
    pub fn no_panics(&self, section: &str) {
        if let Some((l, m)) = foreign_panics().first() {
            self.inner.lock().unwrap().violations.push((
                format!("{section}:0"),
                format!("a server task panicked at {l}: {m}"),
            ));
            self.stop.store(true, Ordering::Relaxed);
        }
    }

    pub fn write_evidence(&self, path: &str) -> std::io::Result<()> {
        let i = self.inner.lock().unwrap();
        let mut o = String::new();
        let _ = write!(
            o,
            "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n",
            jstr(&self.id),
            jstr(if self.thorough { "thorough" } else { "quick" }),
            self.seed
        );
        let _ = write!(
            o,
            "  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"samples\": [{}],\n  \"observed\": {{{}}},\n  \"distinct\": {{{}}},\n  \"retries\": {}\n }},\n",
            i.evals,
            i.distinct.len(),
            jstr(&self.rule.lock().unwrap()),
            i.samples.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(", "),
            i.counters.iter().map(|(k, v)| format!("{}: {v}", jstr(k))).collect::<Vec<_>>().join(", "),
            i.sets.iter().map(|(k, v)| format!("{}: {}", jstr(k), v.len())).collect::<Vec<_>>().join(", "),
            i.retries
        );
        let _ = write!(
            o,
            " \"assumptions\": [\"loopback TCP/UDP of this kernel\", \"a bounded-progress deadline of {} s with an OS starvation canary stands in for 'eventually'\"],\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n",
            DEADLINE.as_secs(),
            start().elapsed().as_secs_f64(),
            i.violations.len()
        );
        let tmp = format!("{path}.tmp");
        std::fs::write(&tmp, o)?;
        std::fs::rename(tmp, path)
    }

    /// Print the verdict and return the exit code
    pub fn finish(&self, verif: &str) -> i32 {
        let ev = format!("{verif}/evidence/{}.json", self.id);
        let _ = std::fs::create_dir_all(format!("{verif}/evidence"));
        if let Err(e) = self.write_evidence(&ev) {
            eprintln!("cannot write {ev}: {e}");
            return 2;
        }
        let i = self.inner.lock().unwrap();
        for k in &i.known {
            println!("KNOWN-FINDING: property={} {k}", self.id);
        }
        if let Some((case, what)) = i.violations.first() {
            let path = write_replay(verif, &self.id, self.seed, self.thorough, case, what);
            println!("{}: {what}", self.id);
            println!("VIOLATION property={} replay={path}", self.id);
            let _ = std::io::stdout().flush();
            return 1;
        }
        if !i.inconclusive.is_empty() {
            for s in &i.inconclusive {
                eprintln!("INCONCLUSIVE {}: {s}", self.id);
            }
            return 2;
        }
        if i.evals == 0 || i.distinct.is_empty() {
            eprintln!("INCONCLUSIVE {}: nothing was observed", self.id);
            return 2;
        }
        println!(
            "{} held: {} evaluations, {} distinct non-trivial, {:.1} s",
            self.id,
            i.evals,
            i.distinct.len(),
            start().elapsed().as_secs_f64()
        );
        for (k, v) in &i.counters {
            println!("   {k}: {v}");
        }
        for (k, v) in &i.sets {
            println!("   distinct {k}: {}", v.len());
        }
        0
    }
}

pub fn write_replay(
    verif: &str,
    id: &str,
    seed: u64,
    thorough: bool,
    case: &str,
    what: &str,
) -> String {
    let dir = format!("{verif}/replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{dir}/{id}.txt");
    let tier = if thorough { "thorough" } else { "quick" };
    let _ = std::fs::write(
        &path,
        format!("property {id}\nseed {seed}\ntier {tier}\ncase {case}\nrerun: cd /verif && VERIF_SEED={seed} VERIF_TIER={tier} VERIF_CASE={case} ./check.sh {id}\n\n{what}\n"),
    );
    path
}

/// End the process with a violation if nothing was finished for a long time
pub fn watchdog(ctx: std::sync::Arc<Ctx>, verif: String, silent_s: u64) {
    std::thread::Builder::new()
        .name("watchdog".into())
        .spawn(move || loop {
            std::thread::sleep(Duration::from_millis(500));
            let quiet = now_ms().saturating_sub(BEAT_MS.load(Ordering::Relaxed));
            if quiet > silent_s * 1000 {
                let cases = CURRENT_CASE
                    .try_lock()
                    .map(|c| format!("{:?}", c))
                    .unwrap_or_default();
                if starved_since(now_ms().saturating_sub(quiet)) && quiet < 3 * silent_s * 1000 {
                    continue;
                }
                let what = format!("no progress for {} s, a call never returned; cases {cases}", quiet / 1000);
                println!("{}: {what}", ctx.id);
                let path = write_replay(&verif, &ctx.id, ctx.seed, ctx.thorough, "hang:0", &what);
                let _ = ctx.write_evidence(&format!("{verif}/evidence/{}.json", ctx.id));
                println!("VIOLATION property={} replay={path}", ctx.id);
                let _ = std::io::stdout().flush();
                std::process::exit(1);
            }
        })
        .unwrap();
}

// ---------------------------------------------------------------- formatting logger

/// Formats everything which is logged, like a logger in production does
struct Sink;
pub static LOGGED: AtomicU64 = AtomicU64::new(0);

impl log::Log for Sink {
    fn enabled(&self, m: &log::Metadata) -> bool {
        m.target().starts_with("lxi")
    }
    fn log(&self, r: &log::Record) {
        if !self.enabled(r.metadata()) {
            return;
        }
        struct V(String);
        impl<'a> log::kv::Visitor<'a> for V {
            fn visit_pair(&mut self, k: log::kv::Key<'a>, v: log::kv::Value<'a>) -> Result<(), log::kv::Error> {
                use std::fmt::Write;
                let _ = write!(self.0, "{k}={v} ");
                Ok(())
            }
        }
        let mut v = V(String::new());
        let _ = r.key_values().visit(&mut v);
        let s = format!("{} {} {}", r.target(), v.0, r.args());
        LOGGED.fetch_add(1 + (s.len() == usize::MAX) as u64, Ordering::Relaxed);
    }
    fn flush(&self) {}
}

pub fn install_logger() {
    static L: Sink = Sink;
    if log::set_logger(&L).is_ok() {
        log::set_max_level(log::LevelFilter::Trace);
    }
}
