//! The exploration engine: finite spaces of behaviours, each addressed by (space, index); every index of every
//! space is executed on the real code and compared with the reference model.
use std::cell::{Cell, RefCell};
use std::collections::HashSet;
use std::fmt::Write as _;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub type Res = Result<(), String>;

pub struct Space {
    pub name: String,
    pub size: u64,
    pub chunk: u64,
    pub what: String,
    /// the enumeration covers the whole domain the property quantifies over in this world
    pub complete: bool,
    pub f: Box<dyn Fn(u64) -> Res + Sync + Send>,
}

pub fn space<F: Fn(u64) -> Res + Sync + Send + 'static>(name: &str, size: usize, what: &str, f: F) -> Space {
    let chunk = ((size / 256).max(1).min(64)) as u64;
    Space { name: name.into(), size: size as u64, chunk, what: what.into(), complete: false, f: Box::new(f) }
}

impl Space {
    pub fn complete(mut self) -> Self {
        self.complete = true;
        self
    }
    pub fn chunk(mut self, c: u64) -> Self {
        self.chunk = c;
        self
    }
    pub fn named(mut self, prefix: &str) -> Self {
        self.name = format!("{}{}", prefix, self.name);
        self
    }
}

pub struct Opts {
    pub prop: String,
    pub thorough: bool,
    pub seed: u64,
}

const STATE_CAP: usize = 3_000_000;
thread_local! {
    static TRANS: Cell<u64> = Cell::new(0);
    static STATES: RefCell<HashSet<u64>> = RefCell::new(HashSet::new());
    static DROPPED: Cell<u64> = Cell::new(0);
    static SEEN: Cell<bool> = Cell::new(false);
    static PANIC: RefCell<String> = RefCell::new(String::new());
    static MUTED: Cell<bool> = Cell::new(false);
}

struct Fnv(u64);
impl Hasher for Fnv {
    fn finish(&self) -> u64 {
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100000001b3);
        }
    }
}
pub fn fp<T: Hash + ?Sized>(x: &T) -> u64 {
    let mut h = Fnv(0xcbf29ce484222325);
    x.hash(&mut h);
    h.finish()
}

/// Count one checked transition (one call of the implementation compared with the model).
#[inline]
pub fn tr() {
    TRANS.with(|t| t.set(t.get() + 1));
}
/// Record a state of the reference model.
pub fn st<T: Hash + ?Sized>(x: &T) {
    SEEN.with(|c| c.set(true));
    let h = fp(x);
    STATES.with(|s| {
        let mut s = s.borrow_mut();
        if s.len() < STATE_CAP {
            s.insert(h);
        } else if !s.contains(&h) {
            DROPPED.with(|d| d.set(d.get() + 1));
        }
    });
}

#[macro_export]
macro_rules! ck {
    ($c:expr, $($a:tt)*) => {{
        $crate::run::tr();
        if !($c) { return Err(format!($($a)*)); }
    }};
}

static SAMPLES: Mutex<Vec<String>> = Mutex::new(Vec::new());
/// Keep a few explored cases, written out, for the evidence.
pub fn sample(f: impl FnOnce() -> String) {
    thread_local! { static N: Cell<u32> = Cell::new(0); }
    if N.with(|n| { n.set(n.get() + 1); n.get() }) <= 2 || TRANS.with(|t| t.get()) % 4093 == 17 {
        let mut s = SAMPLES.lock().unwrap();
        if s.len() < 12 {
            s.push(f());
        }
    }
}

/// Run f, turning a panic into Err(message).
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(x) => Ok(x),
        Err(_) => Err(PANIC.with(|p| p.borrow().clone())),
    }
}

pub fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o
}

fn run_case(s: &Space, i: u64) -> Res {
    SEEN.with(|c| c.set(false));
    match guarded(|| (s.f)(i)) {
        Ok(r) => {
            // a case whose model has a single state: the state is the case itself
            if r.is_ok() && !SEEN.with(|c| c.get()) {
                st(&(s.name.as_str(), i));
            }
            r
        }
        Err(m) => Err(format!("panicked: {}", m)),
    }
}

fn arg(name: &str) -> Option<String> {
    let a: Vec<String> = std::env::args().collect();
    a.iter().position(|x| x == name).and_then(|p| a.get(p + 1).cloned())
}

fn die(spaces: &[Space], si: usize, i: u64, msg: &str, json: &Option<String>) -> ! {
    let v = format!(
        "{{\"spaces\":[],\"violations\":[{{\"space\":\"{}\",\"index\":{},\"msg\":\"{}\"}}],\"states\":0,\"transitions\":0,\"traces\":0,\"samples\":[],\"incomplete\":true}}",
        esc(&spaces[si].name), i, esc(msg));
    if let Some(p) = json {
        let _ = std::fs::write(p, v);
    }
    println!("VIOL {} {} {}", spaces[si].name, i, msg);
    std::process::exit(1)
}

/// Entry point of every harness binary.
pub fn main(build: impl Fn(&Opts) -> Vec<Space>) {
    std::panic::set_hook(Box::new(|info| {
        let m = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = format!("{} at {}", m, loc));
    }));
    let opts = Opts {
        prop: arg("--prop").expect("--prop"),
        thorough: arg("--tier").map(|t| t == "thorough").unwrap_or(false),
        seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
    };
    let json = arg("--json");
    let t0 = Instant::now();
    // building the reference tables uses the implementation as well: a panic there is a finding
    let spaces = match guarded(|| build(&opts)) {
        Ok(s) => s,
        Err(m) => {
            let dummy = [space("setup", 1, "", |_| Ok(()))];
            die(&dummy, 0, 0, &format!("panicked while preparing the exploration: {}", m), &json)
        }
    };
    if let Some(rs) = arg("--replay") {
        let idx: u64 = arg("--index").unwrap_or("0".into()).parse().unwrap();
        for s in spaces.iter() {
            if s.name == rs {
                match run_case(s, idx) {
                    Ok(()) => {
                        println!("replay {} {}: holds", rs, idx);
                        std::process::exit(0)
                    }
                    Err(m) => {
                        println!("replay {} {}: VIOLATED: {}", rs, idx, m);
                        std::process::exit(1)
                    }
                }
            }
        }
        println!("replay: no space {}", rs);
        std::process::exit(2)
    }
    let only = arg("--space");
    let threads: usize = std::env::var("MC_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
    let budget = Duration::from_secs(std::env::var("MC_BUDGET").ok().and_then(|s| s.parse().ok()).unwrap_or(700));
    let case_limit = Duration::from_secs(std::env::var("MC_CASE").ok().and_then(|s| s.parse().ok()).unwrap_or(420));
    let ns = spaces.len();
    let next: Vec<AtomicU64> = (0..ns).map(|_| AtomicU64::new(0)).collect();
    let bad_at: Vec<AtomicU64> = (0..ns).map(|_| AtomicU64::new(u64::MAX)).collect();
    let done: Vec<AtomicU64> = (0..ns).map(|_| AtomicU64::new(0)).collect();
    let nanos: Vec<AtomicU64> = (0..ns).map(|_| AtomicU64::new(0)).collect();
    let viols: Mutex<Vec<(usize, u64, String)>> = Mutex::new(vec![]);
    let states: Mutex<HashSet<u64>> = Mutex::new(HashSet::new());
    let (trans, dropped) = (AtomicU64::new(0), AtomicU64::new(0));
    let capped = AtomicBool::new(false);
    let live = AtomicUsize::new(threads);
    // (space+1, index, start in ms)
    let cur: Vec<(AtomicU64, AtomicU64, AtomicU64)> =
        (0..threads).map(|_| (AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0))).collect();
    std::thread::scope(|sc| {
        for th in 0..threads {
            let (spaces, next, bad_at, done, nanos, viols, states, trans, dropped, capped, live, cur, only) =
                (&spaces, &next, &bad_at, &done, &nanos, &viols, &states, &trans, &dropped, &capped, &live, &cur, &only);
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(sc, move || {
                    for (si, s) in spaces.iter().enumerate() {
                        if let Some(o) = only {
                            if *o != s.name {
                                continue;
                            }
                        }
                        loop {
                            let lo = next[si].fetch_add(s.chunk, Ordering::SeqCst);
                            if lo >= s.size {
                                break;
                            }
                            let tc = Instant::now();
                            for i in lo..(lo + s.chunk).min(s.size) {
                                if i > bad_at[si].load(Ordering::SeqCst) {
                                    break;
                                }
                                if t0.elapsed() > budget {
                                    capped.store(true, Ordering::SeqCst);
                                    break;
                                }
                                cur[th].1.store(i, Ordering::SeqCst);
                                cur[th].2.store(t0.elapsed().as_millis() as u64, Ordering::SeqCst);
                                cur[th].0.store(si as u64 + 1, Ordering::SeqCst);
                                let r = run_case(s, i);
                                cur[th].0.store(0, Ordering::SeqCst);
                                done[si].fetch_add(1, Ordering::SeqCst);
                                if let Err(m) = r {
                                    bad_at[si].fetch_min(i, Ordering::SeqCst);
                                    viols.lock().unwrap().push((si, i, m));
                                }
                            }
                            nanos[si].fetch_add(tc.elapsed().as_nanos() as u64, Ordering::SeqCst);
                        }
                    }
                    trans.fetch_add(TRANS.with(|t| t.get()), Ordering::SeqCst);
                    dropped.fetch_add(DROPPED.with(|t| t.get()), Ordering::SeqCst);
                    STATES.with(|s| states.lock().unwrap().extend(s.borrow().iter()));
                    live.fetch_sub(1, Ordering::SeqCst);
                })
                .unwrap();
        }
        // watchdog
        while live.load(Ordering::SeqCst) > 0 {
            std::thread::sleep(Duration::from_millis(20));
            let now = t0.elapsed().as_millis() as u64;
            for c in cur.iter() {
                let si = c.0.load(Ordering::SeqCst);
                if si > 0 && now.saturating_sub(c.2.load(Ordering::SeqCst)) > case_limit.as_millis() as u64 {
                    let i = c.1.load(Ordering::SeqCst);
                    if c.0.load(Ordering::SeqCst) == si {
                        die(&spaces, si as usize - 1, i, "does not terminate within the case limit", &json);
                    }
                }
            }
        }
    });
    let mut v = viols.into_inner().unwrap();
    v.sort();
    let mut first: Vec<(usize, u64, String)> = vec![];
    for x in v {
        if first.last().map(|l| l.0) != Some(x.0) {
            first.push(x);
        }
    }
    let mut o = String::from("{\"spaces\":[");
    let (mut total, mut complete) = (0u64, !capped.load(Ordering::SeqCst));
    for (si, s) in spaces.iter().enumerate() {
        let d = done[si].load(Ordering::SeqCst);
        total += d;
        if d != s.size {
            complete = false;
        }
        let _ = write!(
            o,
            "{}{{\"name\":\"{}\",\"size\":{},\"explored\":{},\"whole_domain\":{},\"cpu_ms\":{},\"what\":\"{}\"}}",
            if si > 0 { "," } else { "" },
            esc(&s.name), s.size, d, s.complete, nanos[si].load(Ordering::SeqCst) / 1_000_000, esc(&s.what)
        );
    }
    o.push_str("],\"samples\":[");
    for (k, x) in SAMPLES.lock().unwrap().iter().enumerate() {
        let _ = write!(o, "{}\"{}\"", if k > 0 { "," } else { "" }, esc(x));
    }
    o.push_str("],\"violations\":[");
    for (k, (si, i, m)) in first.iter().enumerate() {
        let _ = write!(o, "{}{{\"space\":\"{}\",\"index\":{},\"msg\":\"{}\"}}", if k > 0 { "," } else { "" }, esc(&spaces[*si].name), i, esc(m));
        println!("VIOL {} {} {}", spaces[*si].name, i, m);
    }
    let _ = write!(
        o,
        "],\"states\":{},\"states_not_deduplicated\":{},\"transitions\":{},\"traces\":{},\"incomplete\":{},\"wall_s\":{:.2}}}",
        states.into_inner().unwrap().len(), dropped.load(Ordering::SeqCst), trans.load(Ordering::SeqCst), total, !complete, t0.elapsed().as_secs_f64()
    );
    if let Some(p) = json {
        std::fs::write(p, o).unwrap();
    } else {
        println!("{}", o.replace("},{", "},\n{"));
    }
    std::process::exit(if first.is_empty() { 0 } else { 1 })
}
